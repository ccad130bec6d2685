# What each property's check runs. A unit is one harness with the repository sources it needs.
COMMON_ASSUMPTIONS = [
    "clang++-20's translation of the C++ source to LLVM IR (-O1) is trusted, as are z3 and MiniSat; gch::small_vector, which is not installed, is replaced by a vector-backed stand-in (shim/)",
    "formatted output is not interpreted unless the property is about it (shim_fmt/)",
]
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,enum", "-fsanitize-trap=all", "-fsanitize-ignorelist=" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness/ubsan.ignore")]
PROPERTIES = {}


def prop(pid, units, **kw):
    PROPERTIES[pid] = dict(units=units, **kw)


def unit(name, src, **kw):
    return dict(name=name, src=src, **kw)


prop("A01", [unit("operators", "h_integer.cc", repo=["gcs/innards/integer_overflow.cc", "gcs/exception.cc"], flags=UBSAN, j=4, reach=["representable", "not representable"],
                  bounds="all pairs of 64-bit operands, every operator")])

ARITH = ["gcs/innards/integer_overflow.cc", "gcs/exception.cc"]
prop("A02", [unit("powers", "h_power.cc", repo=ARITH + ["gcs/innards/power.cc"], flags=UBSAN, j=4, reach=["power representable", "power not representable", "power of two representable"],
                  bounds="squares of every 64-bit base; bases -12..12 and within 2 of the largest representable base for exponents to 66; every 64-bit exponent for bases -1..1 and 8 larger ones; every negative exponent; power of two for every 64-bit exponent")])
prop("A03", [unit("divisions", "h_products.cc", repo=ARITH, flags=UBSAN, defs=["CASE_LO=0", "CASE_HI=1", "ISQRT_MAX=1"], j=2, reach=["divisions"], bounds="numerators within 1000 and divisors within 60, and 150 pairs at and near the 64-bit limits"),
             unit("roots", "h_products.cc", repo=ARITH, flags=UBSAN, defs=["CASE_LO=2", "CASE_HI=3", "ISQRT_MAX=2000"], j=2, reach=["roots"], bounds="every n to 2000, and around each power of two to 2^63",
                  thorough=dict(defs=["CASE_LO=2", "CASE_HI=3", "ISQRT_MAX=100000"])),
             unit("filters", "h_products.cc", repo=ARITH, flags=UBSAN, defs=["CASE_LO=4", "CASE_HI=9", "ISQRT_MAX=1"], j=4, reach=["products", "roots filtered", "quotients bounded"],
                  bounds="product boxes within [-7,7], roots within [-9,9] and squares to 90, divisors within [-12,12] and products within [-30,30]; representability of products for all 64-bit operands")])
prop("A04", [unit("encoding", "h_bits.cc", repo=ARITH + ["gcs/innards/power.cc", "gcs/innards/proofs/bits_encoding.cc"], flags=UBSAN, j=4, reach=["encoded"], bounds="every 64-bit range")])
VARS = ARITH + ["gcs/variable_id.cc", "gcs/innards/variable_id_utils.cc"]
prop("A05", [unit("handles", "h_varids.cc", repo=VARS, flags=UBSAN, j=4, reach=["handle arithmetic"], bounds="every 64-bit value, offset and amount; chains of three operations with amounts to a million")])
prop("A06", [unit("conditions", "h_conditions.cc", repo=VARS, flags=UBSAN, j=4, reach=["condition built"], bounds="every 64-bit bound, value and offset, every kind of handle")])
prop("A07", [unit("expressions", "h_expression.cc", repo=VARS, flags=UBSAN, j=4, reach=["relation", "refused"], bounds="to 3 terms plus one on the right; variable values and coefficients within 1000; separately one coefficient, the right-hand coefficient and the constant any 64-bit value at unit assignments")])
prop("A09", [unit("tree", "h_interval_tree.cc", repo=ARITH, defs=["NMAX=3"], j=4, reach=["visited"], bounds="to 3 insertions and one query, any 64-bit ends", thorough=dict(defs=["NMAX=4"], t=700))])
prop("A10", [unit("arrays", "h_array_param.cc", repo=ARITH, reach=["done"], bounds="arrays of two, every 64-bit element")])
prop("A11", [unit("text", "h_s_expr.cc", repo=["gcs/innards/s_expr.cc"] + ARITH, defs=["MODE=0", "LEN=4"], j=6, reach=["parsed", "rejected"], bounds="every text of to 4 bytes", thorough=dict(defs=["MODE=0", "LEN=6"], t=700)),
             unit("round trip", "h_s_expr.cc", repo=["gcs/innards/s_expr.cc"] + ARITH, defs=["MODE=1", "LEN=0"], j=2, reach=["round trip"], bounds="trees to depth 2 of lists of none or two, atoms of one or two arbitrary bytes")])
RX = ARITH + ["gcs/constraints/regular/regex.cc"]
prop("A12", [unit("syntax", "h_regex.cc", repo=RX, flags=UBSAN, defs=["MODE=0", "TLEN=3", "BUDGET=1", "SLEN=1"], j=4, reach=["rejected", "accepted", "not accepted"], bounds="every text of to 3 bytes, sequences of to one value", thorough=dict(defs=["MODE=0", "TLEN=4", "BUDGET=1", "SLEN=1"], t=700)),
             unit("language", "h_regex.cc", repo=RX, flags=UBSAN, defs=["MODE=1", "TLEN=3", "BUDGET=4", "SLEN=2"], j=8, reach=["accepted", "not accepted"], bounds="expressions of to 4 operators and atoms, sequences of to two values 0..4", thorough=dict(defs=["MODE=1", "TLEN=3", "BUDGET=4", "SLEN=3"], t=700)),
             unit("nesting", "h_regex.cc", repo=RX, flags=UBSAN, defs=["MODE=1", "TLEN=3", "BUDGET=5", "SLEN=2", "ATOMS=2", "REPS=2"], j=8, reach=["accepted", "not accepted"], bounds="expressions over 1, 2, alternatives, sequences, * and + of to 5 operators and atoms, sequences of to two values 1..2", thorough=dict(defs=["MODE=1", "TLEN=3", "BUDGET=6", "SLEN=3", "ATOMS=2", "REPS=3"], t=700)),
             unit("numbers", "h_regex.cc", repo=RX, flags=UBSAN, defs=["MODE=2", "TLEN=3", "BUDGET=3", "SLEN=2"], j=2, reach=["number read"], bounds="numbers of 18 to 20 digits, two of them free, around the largest one")])
prop("A13", [unit("luby", "h_restarts.cc", repo=["gcs/restarts.cc"], defs=["TERMS=1023u"], reach=["done"], bounds="the first 1023 terms, every 64-bit scale", thorough=dict(defs=["TERMS=8191u"]))])
prop("A14", [unit("stats", "h_stats.cc", repo=["gcs/constraint.cc", "gcs/constraints/cumulative/derived_cumulative_stats.cc"] + ARITH, defs=['STATS_CC=<gcs/stats.cc>'], j=4, reach=["done"], bounds="to 5 components, 3 notes")])
prop("A15", [unit("presence", "h_task_presence.cc", repo=["gcs/constraints/innards/task_presence.cc"] + VARS, reach=["accepted"], bounds="every handle, every 64-bit constant")])
DIFF = ARITH + ["gcs/constraints/difference/difference_simplify.cc", "gcs/constraints/difference/difference_incremental.cc"]
prop("A18", [unit("simplify", "h_difference.cc", repo=DIFF, flags=UBSAN, defs=["MODE=0", "NODES=3", "EDGES=3"], j=8, reach=["contradiction", "removed", "condition fixed"], bounds="three nodes, to three edges, weights within [-3,3]", thorough=dict(defs=["MODE=0", "NODES=3", "EDGES=4"], t=800))])
prop("A19", [unit("potentials", "h_difference.cc", repo=DIFF, flags=UBSAN, defs=["MODE=1", "NODES=3", "EDGES=3"], j=4, reach=["potential"], bounds="three nodes, to three arcs, weights within [-4,4]", thorough=dict(defs=["MODE=1", "NODES=3", "EDGES=4"], t=800)),
             unit("repair", "h_difference.cc", repo=DIFF, flags=UBSAN, defs=["MODE=2", "NODES=3", "EDGES=3"], j=4, reach=["repaired", "negative cycle"], bounds="three nodes, to three arcs, any valid potentials within [-8,8]", thorough=dict(defs=["MODE=2", "NODES=3", "EDGES=4"], t=800)),
             unit("bounds", "h_difference.cc", repo=DIFF, flags=UBSAN, defs=["MODE=3", "NODES=3", "EDGES=2"], j=8, t=300, reach=["settled"], bounds="three nodes, to two arcs, any bounds and gate the invariants allow within [-8,8], two runs", thorough=dict(defs=["MODE=3", "NODES=3", "EDGES=3"], t=800))])
prop("A16", [unit("numbers", "h_dzn.cc", repo=ARITH, defs=["MODE=0", "LEN=3"], j=4, reach=["read"], bounds="every text of to 3 bytes, to 3 tokens, and numbers around the 64-bit limits", thorough=dict(defs=["MODE=0", "LEN=4"], t=600)),
             unit("booleans", "h_dzn.cc", repo=ARITH, defs=["MODE=1", "LEN=3"], j=4, reach=["read"], bounds="to 3 words, any byte in one place of each"),
             unit("matrices", "h_dzn.cc", repo=ARITH, defs=["MODE=2", "LEN=4"], j=4, reach=["read"], bounds="every text of to 3 bytes, to 4 tokens", thorough=dict(defs=["MODE=2", "LEN=5"], t=600)),
             unit("sets", "h_dzn.cc", repo=ARITH, defs=["MODE=3", "LEN=5"], j=4, reach=["read"], bounds="every text of to 3 bytes, to 5 tokens", thorough=dict(defs=["MODE=3", "LEN=6"], t=600)),
             unit("files", "h_dzn.cc", repo=ARITH, defs=["MODE=4", "LEN=5"], j=4, reach=["read"], bounds="every file of to 3 bytes, to 5 tokens", thorough=dict(defs=["MODE=4", "LEN=6"], t=600))])
prop("A17", [unit("sch files", "h_instances.cc", repo=ARITH, defs=["MODE=0"], j=4, reach=["read"], bounds="one real activity, to one resource, to four time lags, one-digit numbers and one unusual number or cut somewhere"),
             unit("rcpsp data files", "h_instances.cc", repo=ARITH, defs=["MODE=1"], j=4, reach=["read"], bounds="two tasks, to two resources, to three precedences, one-digit numbers and one unusual number, size or omission"),
             unit("table layout files", "h_instances.cc", repo=ARITH, defs=["MODE=2"], j=4, reach=["read"], bounds="to two rows, columns and configurations, one-digit sizes and one unusual dimension or size"),
             unit("p-dispersion files", "h_instances.cc", repo=ARITH, defs=["MODE=3"], j=4, reach=["read", "requirements"], bounds="to three sites and positions, few values for each number, one block out of the ordinary, ten headers (none whose pair counts overflow)")])
