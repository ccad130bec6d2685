From a02ba34f30b3ee91afd04e162e4789166a85a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 01/11] fix: refuse numbers too large for an Integer in regular
 expressions

---
 gcs/constraints/regular/regex.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 75d057f..97f0039 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -1,5 +1,6 @@
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/exception.hh>
+#include <gcs/innards/integer_overflow.hh>
 
 #include <cstddef>
 #include <map>
@@ -13,6 +14,8 @@
 
 using gcs::Integer;
 using gcs::InvalidProblemDefinitionException;
+using gcs::innards::add_overflows;
+using gcs::innards::mul_overflows;
 
 using std::make_unique;
 using std::map;
@@ -72,7 +75,8 @@ namespace
             if (c >= '0' && c <= '9') {
                 long long value = 0;
                 while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
-                    value = value * 10 + (s[i] - '0');
+                    if (mul_overflows(value, 10LL, &value) || add_overflows(value, static_cast<long long>(s[i] - '0'), &value))
+                        throw InvalidProblemDefinitionException{"Cannot parse regular expression: number too large"};
                     ++i;
                 }
                 tokens.push_back({Tok::Integer, Integer{value}});
-- 
2.43.0


From acae3e1d48c52c5a129e6e05ea0f7173020a48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 02/11] fix: refuse an out-of-range last entry or a lone sign
 in dzn lists instead of dropping it

---
 examples/dzn.hh | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/examples/dzn.hh b/examples/dzn.hh
index 624214b..2149b8b 100644
--- a/examples/dzn.hh
+++ b/examples/dzn.hh
@@ -82,14 +82,18 @@ namespace dzn
 
             std::vector<long long> result;
             std::istringstream in{separated};
-            long long value = 0;
-            while (in >> value)
+            std::string token;
+            while (in >> token) {
+                // The whole token has to be an integer. Asking the list for
+                // integers until it runs out is not enough: a lone sign, or a
+                // number too large for a long long, fails at the end of the text
+                // just as running out does, and would be dropped if it came last.
+                std::istringstream number{token};
+                long long value = 0;
+                if (! (number >> value) || ! number.eof())
+                    _bad(name, "has a non-integer " + what + ": '" + text + "'");
                 result.push_back(value);
-            // Reading to the end sets eofbit as well as failbit; stopping on
-            // something else sets only failbit, and that something else is what
-            // has to be complained about rather than ignored.
-            if (! in.eof())
-                _bad(name, "has a non-integer " + what + ": '" + text + "'");
+            }
             return result;
         }
 
-- 
2.43.0


From 5b3bcd390f6833da47e0c6663c5207aa28a5e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 03/11] fix: refuse out-of-range task counts and indices in
 rcpsp instance files instead of truncating them

---
 examples/rcpsp/rcpsp_instance.hh | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/examples/rcpsp/rcpsp_instance.hh b/examples/rcpsp/rcpsp_instance.hh
index 62d3fc6..ae60c9c 100644
--- a/examples/rcpsp/rcpsp_instance.hh
+++ b/examples/rcpsp/rcpsp_instance.hh
@@ -595,8 +595,12 @@ namespace rcpsp
                 throw std::runtime_error{"malformed .sch file: implausible successor count"};
             std::vector<int> targets;
             targets.reserve(static_cast<std::size_t>(successors));
-            for (long long s = 0; s != successors; ++s)
-                targets.push_back(static_cast<int>(next("a successor index")));
+            for (long long s = 0; s != successors; ++s) {
+                auto target = next("a successor index");
+                if (target < 0 || target >= inst.n_tasks)
+                    throw std::runtime_error{"malformed .sch file: a time lag refers to a nonexistent activity"};
+                targets.push_back(static_cast<int>(target));
+            }
             for (long long s = 0; s != successors; ++s)
                 inst.lags.push_back(Lag{static_cast<int>(i), targets[static_cast<std::size_t>(s)], gcs::Integer{next("an arc weight")}});
         }
@@ -660,10 +664,13 @@ namespace rcpsp
         auto data = dzn::read(path);
 
         Instance inst;
-        inst.n_tasks = static_cast<int>(data.integer("n_tasks"));
+        auto n_tasks = data.integer("n_tasks");
         auto n_res = static_cast<std::size_t>(data.integer("n_res"));
-        if (inst.n_tasks < 1)
+        if (n_tasks < 1)
             throw std::runtime_error{"'" + path + "' has no tasks"};
+        if (n_tasks > std::numeric_limits<int>::max())
+            throw std::runtime_error{"'" + path + "' has too many tasks"};
+        inst.n_tasks = static_cast<int>(n_tasks);
 
         for (auto & c : data.integers("rc"))
             inst.capacities.push_back(gcs::Integer{c});
@@ -708,9 +715,9 @@ namespace rcpsp
         for (std::size_t at = 0; at != suc.size(); ++at) {
             auto i = static_cast<int>(at);
             for (auto & one_based : suc[at]) {
-                auto j = static_cast<int>(one_based) - 1;
-                if (j < 0 || j >= inst.n_tasks)
+                if (one_based < 1 || one_based > inst.n_tasks)
                     throw std::runtime_error{"'" + path + "' has a precedence to a nonexistent task"};
+                auto j = static_cast<int>(one_based) - 1;
                 if (j <= i)
                     throw std::runtime_error{"'" + path + "' lists task " + std::to_string(one_based) + " as a successor of task " +
                         std::to_string(i + 1) + ", so the tasks are not in topological order; this reader needs them to be"};
-- 
2.43.0


From 7452891dff5bdf1e7e8d85b61f70f37f8e172640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 04/11] fix: refuse table layout dimensions too large for an
 int instead of truncating them

---
 examples/table_layout/table_layout_instance.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/examples/table_layout/table_layout_instance.hh b/examples/table_layout/table_layout_instance.hh
index dd84f02..638fde8 100644
--- a/examples/table_layout/table_layout_instance.hh
+++ b/examples/table_layout/table_layout_instance.hh
@@ -23,6 +23,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <random>
 #include <stdexcept>
 #include <string>
@@ -155,9 +156,15 @@ namespace table_layout
 
         Instance inst;
         inst.pixelwidth = static_cast<long>(data.integer("pixelwidth"));
-        inst.maxconfig = static_cast<int>(data.integer("maxconfig"));
-        inst.rows = static_cast<int>(data.integer("rows"));
-        inst.cols = static_cast<int>(data.integer("cols"));
+        auto dimension = [&](const char * name) -> int {
+            auto value = data.integer(name);
+            if (value > std::numeric_limits<int>::max())
+                throw std::runtime_error{"'" + path + "' gives a value for " + name + " that is too large"};
+            return static_cast<int>(std::max<long long>(value, 0));
+        };
+        inst.maxconfig = dimension("maxconfig");
+        inst.rows = dimension("rows");
+        inst.cols = dimension("cols");
         auto flat_width = data.integers("width"), flat_height = data.integers("height");
 
         if (inst.rows < 1 || inst.cols < 1 || inst.maxconfig < 1)
-- 
2.43.0


From 720a97e38ab23ff12782680494abb8e706744760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 05/11] fix: refuse implausibly large counts in p-dispersion
 instances, whose pair counts overflow

---
 examples/p_dispersion/p_dispersion_instance.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/p_dispersion/p_dispersion_instance.hh b/examples/p_dispersion/p_dispersion_instance.hh
index 3beaf0c..1ee0a3d 100644
--- a/examples/p_dispersion/p_dispersion_instance.hh
+++ b/examples/p_dispersion/p_dispersion_instance.hh
@@ -173,6 +173,8 @@ namespace p_dispersion
         long n = 0, second = -1;
         if (! (hs >> n) || n <= 0)
             throw std::runtime_error{"could not read site count from instance"};
+        if (n > 1000000)
+            throw std::runtime_error{"implausible site count in instance"};
         hs >> second; // leaves second = -1 if absent
         inst.n = static_cast<int>(n);
 
@@ -230,7 +232,7 @@ namespace p_dispersion
 
         // PDDP (Format A): a p header plus exactly C(p,2) further triples means
         // the trailing block is the per-position-pair requirements r_ij.
-        if (second >= 2) {
+        if (second >= 2 && second <= 1000000) {
             long p = second;
             long r_pairs = p * (p - 1) / 2;
             long consumed = n_pairs * 3;
-- 
2.43.0


From e9f3ccfa4508caa3ed7a8234ee5dc64b52a4dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 06/11] Revert "fix: refuse implausibly large counts in
 p-dispersion instances, whose pair counts overflow"

This reverts commit 720a97e38ab23ff12782680494abb8e706744760.
---
 examples/p_dispersion/p_dispersion_instance.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/p_dispersion/p_dispersion_instance.hh b/examples/p_dispersion/p_dispersion_instance.hh
index 1ee0a3d..3beaf0c 100644
--- a/examples/p_dispersion/p_dispersion_instance.hh
+++ b/examples/p_dispersion/p_dispersion_instance.hh
@@ -173,8 +173,6 @@ namespace p_dispersion
         long n = 0, second = -1;
         if (! (hs >> n) || n <= 0)
             throw std::runtime_error{"could not read site count from instance"};
-        if (n > 1000000)
-            throw std::runtime_error{"implausible site count in instance"};
         hs >> second; // leaves second = -1 if absent
         inst.n = static_cast<int>(n);
 
@@ -232,7 +230,7 @@ namespace p_dispersion
 
         // PDDP (Format A): a p header plus exactly C(p,2) further triples means
         // the trailing block is the per-position-pair requirements r_ij.
-        if (second >= 2 && second <= 1000000) {
+        if (second >= 2) {
             long p = second;
             long r_pairs = p * (p - 1) / 2;
             long consumed = n_pairs * 3;
-- 
2.43.0


From af293bdd482ba69c770385d45b631a3aae83641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 07/11] Revert "fix: refuse table layout dimensions too large
 for an int instead of truncating them"

This reverts commit 7452891dff5bdf1e7e8d85b61f70f37f8e172640.
---
 examples/table_layout/table_layout_instance.hh | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/examples/table_layout/table_layout_instance.hh b/examples/table_layout/table_layout_instance.hh
index 638fde8..dd84f02 100644
--- a/examples/table_layout/table_layout_instance.hh
+++ b/examples/table_layout/table_layout_instance.hh
@@ -23,7 +23,6 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstdint>
-#include <limits>
 #include <random>
 #include <stdexcept>
 #include <string>
@@ -156,15 +155,9 @@ namespace table_layout
 
         Instance inst;
         inst.pixelwidth = static_cast<long>(data.integer("pixelwidth"));
-        auto dimension = [&](const char * name) -> int {
-            auto value = data.integer(name);
-            if (value > std::numeric_limits<int>::max())
-                throw std::runtime_error{"'" + path + "' gives a value for " + name + " that is too large"};
-            return static_cast<int>(std::max<long long>(value, 0));
-        };
-        inst.maxconfig = dimension("maxconfig");
-        inst.rows = dimension("rows");
-        inst.cols = dimension("cols");
+        inst.maxconfig = static_cast<int>(data.integer("maxconfig"));
+        inst.rows = static_cast<int>(data.integer("rows"));
+        inst.cols = static_cast<int>(data.integer("cols"));
         auto flat_width = data.integers("width"), flat_height = data.integers("height");
 
         if (inst.rows < 1 || inst.cols < 1 || inst.maxconfig < 1)
-- 
2.43.0


From 0a15275e2cdba6321f4b3c1b90142aa7b2705315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 08/11] Revert "fix: refuse out-of-range task counts and
 indices in rcpsp instance files instead of truncating them"

This reverts commit 5b3bcd390f6833da47e0c6663c5207aa28a5e37b.
---
 examples/rcpsp/rcpsp_instance.hh | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/examples/rcpsp/rcpsp_instance.hh b/examples/rcpsp/rcpsp_instance.hh
index ae60c9c..62d3fc6 100644
--- a/examples/rcpsp/rcpsp_instance.hh
+++ b/examples/rcpsp/rcpsp_instance.hh
@@ -595,12 +595,8 @@ namespace rcpsp
                 throw std::runtime_error{"malformed .sch file: implausible successor count"};
             std::vector<int> targets;
             targets.reserve(static_cast<std::size_t>(successors));
-            for (long long s = 0; s != successors; ++s) {
-                auto target = next("a successor index");
-                if (target < 0 || target >= inst.n_tasks)
-                    throw std::runtime_error{"malformed .sch file: a time lag refers to a nonexistent activity"};
-                targets.push_back(static_cast<int>(target));
-            }
+            for (long long s = 0; s != successors; ++s)
+                targets.push_back(static_cast<int>(next("a successor index")));
             for (long long s = 0; s != successors; ++s)
                 inst.lags.push_back(Lag{static_cast<int>(i), targets[static_cast<std::size_t>(s)], gcs::Integer{next("an arc weight")}});
         }
@@ -664,13 +660,10 @@ namespace rcpsp
         auto data = dzn::read(path);
 
         Instance inst;
-        auto n_tasks = data.integer("n_tasks");
+        inst.n_tasks = static_cast<int>(data.integer("n_tasks"));
         auto n_res = static_cast<std::size_t>(data.integer("n_res"));
-        if (n_tasks < 1)
+        if (inst.n_tasks < 1)
             throw std::runtime_error{"'" + path + "' has no tasks"};
-        if (n_tasks > std::numeric_limits<int>::max())
-            throw std::runtime_error{"'" + path + "' has too many tasks"};
-        inst.n_tasks = static_cast<int>(n_tasks);
 
         for (auto & c : data.integers("rc"))
             inst.capacities.push_back(gcs::Integer{c});
@@ -715,9 +708,9 @@ namespace rcpsp
         for (std::size_t at = 0; at != suc.size(); ++at) {
             auto i = static_cast<int>(at);
             for (auto & one_based : suc[at]) {
-                if (one_based < 1 || one_based > inst.n_tasks)
-                    throw std::runtime_error{"'" + path + "' has a precedence to a nonexistent task"};
                 auto j = static_cast<int>(one_based) - 1;
+                if (j < 0 || j >= inst.n_tasks)
+                    throw std::runtime_error{"'" + path + "' has a precedence to a nonexistent task"};
                 if (j <= i)
                     throw std::runtime_error{"'" + path + "' lists task " + std::to_string(one_based) + " as a successor of task " +
                         std::to_string(i + 1) + ", so the tasks are not in topological order; this reader needs them to be"};
-- 
2.43.0


From cae16b1bc6780a490819772dba31676437a5ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 09/11] Revert "fix: refuse an out-of-range last entry or a
 lone sign in dzn lists instead of dropping it"

This reverts commit acae3e1d48c52c5a129e6e05ea0f7173020a48e2.
---
 examples/dzn.hh | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/examples/dzn.hh b/examples/dzn.hh
index 2149b8b..624214b 100644
--- a/examples/dzn.hh
+++ b/examples/dzn.hh
@@ -82,18 +82,14 @@ namespace dzn
 
             std::vector<long long> result;
             std::istringstream in{separated};
-            std::string token;
-            while (in >> token) {
-                // The whole token has to be an integer. Asking the list for
-                // integers until it runs out is not enough: a lone sign, or a
-                // number too large for a long long, fails at the end of the text
-                // just as running out does, and would be dropped if it came last.
-                std::istringstream number{token};
-                long long value = 0;
-                if (! (number >> value) || ! number.eof())
-                    _bad(name, "has a non-integer " + what + ": '" + text + "'");
+            long long value = 0;
+            while (in >> value)
                 result.push_back(value);
-            }
+            // Reading to the end sets eofbit as well as failbit; stopping on
+            // something else sets only failbit, and that something else is what
+            // has to be complained about rather than ignored.
+            if (! in.eof())
+                _bad(name, "has a non-integer " + what + ": '" + text + "'");
             return result;
         }
 
-- 
2.43.0


From 2c0034b3bfe6dc2b7ae084db659e331a73ca4997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 10/11] fix: look values up correctly in an unsorted cover in
 the GAC global cardinality propagator

---
 .../global_cardinality/gac_global_cardinality.cc   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gcs/constraints/global_cardinality/gac_global_cardinality.cc b/gcs/constraints/global_cardinality/gac_global_cardinality.cc
index 81c98bd..23780b4 100644
--- a/gcs/constraints/global_cardinality/gac_global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/gac_global_cardinality.cc
@@ -33,8 +33,7 @@
 using namespace gcs;
 using namespace gcs::innards;
 
-using std::binary_search;
-using std::lower_bound;
+using std::find;
 using std::make_unique;
 using std::min;
 using std::move;
@@ -202,9 +201,9 @@ auto gcs::innards::propagate_gac_global_cardinality(const vector<IntegerVariable
     auto m = values.size();
     auto n = vars.size();
 
-    // values is sorted and distinct (GlobalCardinality::sort_cover_values),
-    // so cover membership is a binary search over it, with no per-wake set.
-    auto in_cover = [&](Integer val) -> bool { return binary_search(values.begin(), values.end(), val); };
+    // values keeps the order it was stated in (GlobalCardinality::sort_cover_values
+    // only runs on the BC path), so looking a value up in it is a linear search.
+    auto in_cover = [&](Integer val) -> bool { return find(values.begin(), values.end(), val) != values.end(); };
 
     // Per-value count bounds: keep the count variables pinned to the
     // must-occur..can-occur range (so they are determined at a leaf).
@@ -580,10 +579,9 @@ auto gcs::innards::propagate_gac_global_cardinality(const vector<IntegerVariable
         return seen;
     };
 
-    // values is sorted, so a value's cover index is a binary search away
     auto value_index = [&](Integer val) -> int {
-        auto it = lower_bound(values.begin(), values.end(), val);
-        if (it != values.end() && *it == val)
+        auto it = find(values.begin(), values.end(), val);
+        if (it != values.end())
             return static_cast<int>(it - values.begin());
         return -1;
     };
-- 
2.43.0


From 7229bbb3fb8c26c77a8e84011994bdbf8401f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 11/11] fix: give Inverse's all different the values its
 variables take when the two starts differ

---
 gcs/constraints/inverse/inverse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/inverse/inverse.cc b/gcs/constraints/inverse/inverse.cc
index b732c7c..6c1f18b 100644
--- a/gcs/constraints/inverse/inverse.cc
+++ b/gcs/constraints/inverse/inverse.cc
@@ -115,7 +115,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
     triggers.on_change.insert(triggers.on_change.end(), _y.begin(), _y.end());
 
     if (_x_value_am1s) {
-        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer x_start, const State &, auto &, ProofLogger * const logger,
+        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer y_start, const State &, auto &, ProofLogger * const logger,
                               const auto & map) {
             // recover_am1 requires at least two atoms; with one variable
             // the at-most-one is trivially true and the map is never read
@@ -123,7 +123,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             // single variable).
             if (x.size() < 2)
                 return;
-            for (Integer v = x_start; v < x_start + Integer(x.size()); ++v) {
+            for (Integer v = y_start; v < y_start + Integer(x.size()); ++v) {
                 // make an am1 for x[i] = v
                 vector<IntegerVariableCondition> xieqvs;
                 for (const auto & var : x)
@@ -136,11 +136,11 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             }
         };
 
-        propagators.install_initialiser([x = _x, x_start = _x_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
+        propagators.install_initialiser([x = _x, y_start = _y_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
                                             const State & state, auto & inference, ProofLogger * const logger) -> void {
             if (! logger || logger->get_assertion_level() > AssertionLevel::Off)
                 return;
-            build_am1s(x, x_start, state, inference, logger, x_value_am1s);
+            build_am1s(x, y_start, state, inference, logger, x_value_am1s);
         });
     }
     else {
@@ -150,7 +150,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
 
     vector<Integer> x_values;
     for (const auto & [i, _] : enumerate(_x))
-        x_values.push_back(Integer(i) + _x_start);
+        x_values.push_back(Integer(i) + _y_start);
 
     propagators.install(
         constraint_id(),
-- 
2.43.0

