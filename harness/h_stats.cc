// Statistics: components are kept once, notes are forwarded and kept, and the report shows what it should.
#include "hutil.h"
#include <chrono>
#include <iostream>
#include <memory>
#include <ostream>
#include <sstream>
#include <algorithm>
// A stand-in for output streams, so that what is written can be examined
namespace std
{
    struct symx_os
    {
        std::string out;
        symx_os & operator<<(const char * s) { out += s; return *this; }
        symx_os & operator<<(const std::string & s) { out += s; return *this; }
        symx_os & operator<<(char c) { out += c; return *this; }
        template <typename T_> requires std::is_integral_v<T_> symx_os & operator<<(T_ v) { out += std::to_string(symx_concretize((ll)v)); return *this; }
        symx_os & operator<<(double) { out += "<float>"; return *this; }
        symx_os & operator<<(float) { out += "<float>"; return *this; }
    };
    static symx_os symx_cerr;
}
#define ostream symx_os
#define cerr symx_cerr
#include <gcs/constraint_id.hh>
#include <gcs/stats.hh>
#undef ostream
#include <gcs/constraints/cumulative/derived_cumulative_stats.hh>
#define ostream symx_os
#include STATS_CC
using namespace gcs;
namespace
{
    struct C : ComponentStats
    {
        std::string n;
        C(std::string s) : n(s) {}
        auto component_name() const -> std::string override { return n; }
        auto summary() const -> std::string override { return n + " summary"; }
        auto entries() const -> std::vector<StatsEntry> override { return {}; }
    };
}
extern "C" void harness_main()
{
    const StatsLevel levels[] = {StatsLevel::Debug, StatsLevel::Detailed, StatsLevel::General, StatsLevel::Important};
    std::cerr.out.clear();
    switch (choice("case", 0, 4)) {
    case 0: { // components
        Stats s;
        std::shared_ptr<const C> cs[3] = {std::make_shared<C>("a"), std::make_shared<C>("b"), nullptr};
        int order[5], n = choice("n", 0, 5);
        std::vector<const ComponentStats *> want;
        for (int i = 0; i < n; ++i) {
            order[i] = choice("which", 0, 2);
            s.add_component(cs[order[i]]);
            if (order[i] < 2 && std::find(want.begin(), want.end(), cs[order[i]].get()) == want.end())
                want.push_back(cs[order[i]].get());
        }
        symx_assert(s.components().size() == want.size(), "each component is kept once");
        for (std::size_t i = 0; i < want.size() && i < s.components().size(); ++i)
            symx_assert(s.components()[i].get() == want[i], "components are kept in the order given");
        std::symx_os o;
        o << s;
        std::size_t at = 0;
        for (auto * w : want) {
            at = o.out.find(w->component_name() + ": " + w->summary() + "\n", at);
            symx_assert(at != std::string::npos, "the report shows every component");
            if (at == std::string::npos)
                symx_stop();
        }
        break;
    }
    case 1: { // notes
        Stats s;
        int calls = 0;
        std::string heard;
        bool handler = choice("handler", 0, 1);
        if (handler)
            s.set_report_handler([&](const StatsNote & n) { ++calls; heard += n.text; });
        int n = choice("n", 0, 3);
        std::string all, shown;
        for (int i = 0; i < n; ++i) {
            int l = choice("level", 0, 3);
            std::string text(1, (char)('p' + i));
            s.report(StatsNote{levels[l], "comp", std::nullopt, text});
            all += text;
            if (l >= 2)
                shown += render(StatsNote{levels[l], "comp", std::nullopt, text}) + "\n";
        }
        symx_assert(calls == (handler ? n : 0) && (! handler || heard == all), "every note is passed on, once, in order");
        symx_assert(s.notes().size() == (unsigned)n, "every note is kept");
        std::string kept;
        for (auto & x : s.notes())
            kept += x.text;
        symx_assert(kept == all, "every note is kept");
        std::symx_os o;
        o << s;
        symx_assert(o.out.size() >= shown.size() && o.out.substr(o.out.size() - shown.size()) == shown, "the report shows the notes of general interest");
        symx_assert(shown.size() != 0 || o.out.find("comp") == std::string::npos, "the report does not show detailed notes");
        break;
    }
    case 2: { // rendering
        int l = choice("level", 0, 3), comp = choice("component", 0, 1), con = choice("constraint", 0, 1);
        StatsNote n{levels[l], comp ? "Comp" : "", std::nullopt, "text"};
        if (con)
            n.constraint = ConstraintID{NamedConstraint{"named"}};
        auto r = render(n);
        symx_assert(r == std::string{(l != 3 && comp) ? "Comp: " : ""} + "text" + (con ? " (" + as_string(*n.constraint) + ")" : ""), "a note is rendered with its component and constraint");
        break;
    }
    case 3: { // the default report's threshold
        int l = choice("level", 0, 3), at = choice("threshold", 0, 4);
        auto cb = at < 4 ? default_stats_report(levels[at]) : default_stats_report();
        StatsNote n{levels[l], "c", std::nullopt, "text"};
        cb(n);
        symx_assert(std::cerr.out == (l >= (at < 4 ? at : 3) ? render(n) + "\n" : std::string{}), "the default report shows notes from its level up");
        std::cerr.out.clear();
        silent_stats_report()(n);
        symx_assert(std::cerr.out.empty(), "the silent report shows nothing");
        break;
    }
    case 4: { // counters
        Stats s;
        s.recursions = 11, s.failures = 12, s.propagations = 13, s.effectful_propagations = 14, s.contradicting_propagations = 15, s.solutions = 16, s.max_depth = 17, s.restarts = 18, s.learned_nogoods = 19, s.n_propagators = 20;
        s.idempotence_downgrades = choice("downgrades", 0, 1) ? 21 : 0;
        s.solve_time = std::chrono::microseconds{2500000};
        std::symx_os o;
        o << s;
        for (const char * w : {"propagators: 20\n", "recursions: 11\n", "failures: 12\n", "propagations: 13 14 15\n", "max depth:  17\n", "restarts: 18\n", "learned nogoods: 19\n", "solutions: 16\n"})
            symx_assert(o.out.find(w) != std::string::npos, "the report shows every counter");
        symx_assert((o.out.find("idempotence downgrades: 21\n") != std::string::npos) == (s.idempotence_downgrades != 0), "downgrades are shown when there are any");
        DerivedCumulativeStats d;
        d.constraints = (std::size_t)any("constraints"), d.donors = (std::size_t)any("donors"), d.capacity_rows = (std::size_t)any("rows"), d.makespan_bounds_posted = (std::size_t)any("bounds");
        std::vector<StatsEntry> e{{"before", 1}};
        d.add_entries_to(e, "p_");
        symx_assert(e.size() == 5 && e[0].name == "before", "entries are added to those there");
        auto has = [&](const char * n, std::size_t v) {
            int k = 0;
            for (auto & x : e)
                if (x.name == n) {
                    ++k;
                    symx_assert(x.value == (ll)v, "an entry holds its counter");
                }
            symx_assert(k == 1, "every counter has one entry");
        };
        has("p_constraints", d.constraints), has("p_donors", d.donors), has("p_capacity_rows", d.capacity_rows), has("p_makespan_bounds_posted", d.makespan_bounds_posted);
        break;
    }
    }
    symx_reach("done");
}
