# Source of properties.jsonl and MANIFEST.json (written by gen.py)
P = []


def p(id, title, statement, over, text, why, files, mech, note=None, level_note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


p("A01", "Integer arithmetic is exact or refused",
  "Every arithmetic operation, comparison and conversion on the solver's integers gives the mathematically exact result whenever that result is representable in 64 bits, and otherwise reports an overflow instead of wrapping, saturating or invoking undefined behaviour. Division and remainder round consistently (quotient * divisor + remainder equals the dividend), and division by zero is refused. Comparisons agree with the order of the values and hashing agrees with equality.",
  ["inputs"], "every pair of 64-bit operands, for every operator, including in-place and increment forms",
  "The tests try a handful of operand pairs; wrapping shows only at particular pairs out of 2^128.",
  ["gcs/integer.hh", "gcs/innards/integer_overflow.hh", "gcs/innards/integer_overflow.cc"],
  [("checked operators", "gcs/integer.hh"), ("overflow predicates", "gcs/innards/integer_overflow.hh")])
p("A02", "Powers are exact or refused",
  "Raising an integer to a power gives the exact value when it is representable and otherwise reports it as unrepresentable, never a wrapped value. Powers with negative exponents and of zero follow the documented convention, and a power of two is exact or refused.",
  ["inputs"], "every base and exponent", "Overflow in exponentiation shows only near the largest representable base for each exponent; the tests try a few.",
  ["gcs/innards/power.cc", "gcs/innards/power.hh"], [("checked power", "gcs/innards/power.cc")])
p("A03", "Bounds filters for products, quotients and roots lose no value",
  "Rounded divisions and integer square roots are exact or refused. Given ranges for the operands, the derived ranges for a product, a factor, a root or a quotient contain every value that some choice of operands from those ranges attains, and are as tight as documented.",
  ["inputs"], "every choice of operand ranges, including ranges with zero and of mixed sign",
  "Sign and zero cases multiply to thousands of combinations; tests sample them.",
  ["gcs/innards/product_bounds.hh", "gcs/innards/arithmetic_utils.hh"], [("product and quotient bounds", "gcs/innards/product_bounds.hh"), ("rounded division, integer root", "gcs/innards/arithmetic_utils.hh")])
p("A04", "The binary encoding of a range covers it exactly",
  "For every range of values, the binary encoding chosen for proof logging can represent every value of the range: the bit weights are distinct powers of two with a negative sign weight exactly when the range has negative values, and no fewer bits would do.",
  ["inputs"], "every 64-bit range", "Only ranges near a power of two or the 64-bit limits distinguish a wrong bit count.",
  ["gcs/innards/proofs/bits_encoding.cc"], [("encoding size and sign", "gcs/innards/proofs/bits_encoding.cc")])
p("A05", "Offset and negated variable handles denote the right value",
  "Adding to, subtracting from and negating a variable handle, in any order and repeatedly, yields a handle that denotes exactly that function of the underlying variable, or is refused on overflow. Equality, order and hashing of handles are consistent, and handles that differ are distinguishable.",
  ["inputs", "programs"], "every handle, every sequence of offsets and negations, every value of the underlying variable",
  "Compositions of negation and offset go wrong only in particular orders; tests exercise few.",
  ["gcs/variable_id.hh", "gcs/variable_id.cc"], [("view arithmetic", "gcs/variable_id.cc")])
p("A06", "Conditions on handles mean what they say",
  "A condition (equal, not equal, at least, less than, and the derived forms) on a variable, offset or negated handle or constant holds of exactly the values satisfying the written comparison, and its negation of exactly the others. Rewriting a condition on a view as one on the underlying variable preserves its meaning for every value.",
  ["inputs"], "every kind of handle, every comparison, every 64-bit bound and value",
  "Off-by-one errors under negation show only for particular mixtures of view, operator and bound.",
  ["gcs/variable_condition.hh", "gcs/innards/variable_id_utils.hh", "gcs/expression.hh"], [("condition construction and negation", "gcs/variable_condition.hh"), ("view resolution", "gcs/variable_id.hh")])
p("A07", "Linear expressions denote the arithmetic they spell",
  "Building a linear expression with the overloaded operators, and a linear relation by comparing two of them, gives an object denoting exactly the written arithmetic, with constants moved to the right-hand side with the right sign. An expression whose constants cannot be represented is refused.",
  ["inputs", "programs"], "every combination of operators, coefficients, constants and variable values",
  "Sign mistakes in rarely combined operators evade samples.",
  ["gcs/expression.hh", "gcs/expression.cc"], [("expression operators", "gcs/expression.hh")])
p("A09", "Interval tree queries return exactly the matching intervals",
  "After any sequence of insertions, asking for the stored intervals containing, or contained in, a given interval visits every match, nothing else, and each once.",
  ["histories", "inputs"], "every insertion history and query", "Tree rotations and subtree bounds only matter for particular insertion orders.",
  ["gcs/innards/interval_tree.hh"], [("treap insertion and pruned search", "gcs/innards/interval_tree.hh")])
p("A10", "Constant arrays behave as the sequence they were given",
  "A constant array of one or two dimensions passed to a constraint, whether borrowed or owned, is read back element for element, with the right sizes, after any copying or moving.",
  ["inputs"], "every content and every way of passing it", "Ownership mistakes show only after copy or move in one of the two modes.",
  ["gcs/array_param.hh"], [("owned-or-borrowed array", "gcs/array_param.hh")])
p("A11", "Structured text is read and written faithfully",
  "Writing a nested list of atoms and reading it back gives the same list. Reading any text either gives the lists it spells or reports an error with its position; it never crashes, loses an atom or accepts unbalanced text.",
  ["inputs"], "every text and every tree", "Text is unbounded; tests read a few well-formed files.",
  ["gcs/innards/s_expr.cc", "gcs/innards/s_expr.hh"], [("reader and printer", "gcs/innards/s_expr.cc")])
p("A12", "A regular expression accepts exactly its language",
  "The automaton built from a regular expression over integers accepts exactly the sequences the expression denotes, restricted to the given alphabet. Text that is not an expression, and numbers too large to represent, are refused.",
  ["inputs"], "every expression text and every sequence", "Operator nesting and empty-sequence handling interact; tests pair few expressions with few sequences.",
  ["gcs/constraints/regular/regex.cc", "gcs/constraints/regular/regex.hh"], [("tokenizer, parser and automaton construction", "gcs/constraints/regular/regex.cc")])
p("A13", "The restart sequence is the Luby sequence",
  "The restart schedule yields the Luby sequence multiplied by the requested scale, at every position. Asking for the current budget does not advance it, and schedules are independent of each other.",
  ["inputs", "histories"], "every position and scale", "The recurrence has special positions at every power of two.",
  ["gcs/restarts.cc"], [("sequence recurrence", "gcs/restarts.cc")])
p("A14", "Statistics report what was recorded",
  "Every component is kept once, in order, and every counter, component summary and note of general interest appears in the report with the value recorded; detailed notes are kept but not shown. Notes are passed on to the chosen reporter as they happen, once each, in order.",
  ["histories", "inputs"], "every set of components and counter values", "Reports are not checked by the tests.",
  ["gcs/stats.cc", "gcs/stats.hh", "gcs/constraints/cumulative/derived_cumulative_stats.cc"], [("registration and printing", "gcs/stats.cc")])
p("A15", "Whether a task is present is decided as documented",
  "A task's presence is taken to be certain, impossible or conditional exactly as its presence argument says: no argument or the constant 1 means always present, the constant 0 never, a variable conditionally, and any other constant is refused.",
  ["inputs"], "every kind of presence argument and every constant", "Views and constants beyond 0 and 1 are not sampled.",
  ["gcs/constraints/innards/task_presence.cc"], [("presence classification", "gcs/constraints/innards/task_presence.cc")])
p("A16", "Data files are read as written or refused",
  "Reading a data file of name = value items gives, for every item, exactly the integer, boolean, list, set or matrix the text spells, with ranges expanded, comments and layout ignored and entries in order. A value that is malformed, incomplete or too large to represent is refused rather than altered or silently dropped, and no text makes the reader crash.",
  ["inputs"], "every text of a data file", "Text is unbounded; the tests read a few well-formed files and a few malformed ones.",
  ["examples/dzn.hh"], [("dzn tokenizing and value readers", "examples/dzn.hh")])
p("A17", "Instance files are read as written or refused",
  "Reading a scheduling, table layout or p-dispersion instance gives exactly the tasks, resources, time lags, precedences, configurations, distances and requirements its text spells. A file that is incomplete, inconsistent or breaks a documented requirement is refused with an error naming it, and nothing read is invented, misplaced or dropped. Derived figures such as extents and the largest distance agree with what was read.",
  ["inputs"], "every instance file", "Files vary without limit in shape and in what is wrong with them; the examples read a few good ones.",
  ["examples/rcpsp/rcpsp_instance.hh", "examples/table_layout/table_layout_instance.hh", "examples/p_dispersion/p_dispersion_instance.hh"],
  [("instance readers", "examples/rcpsp/rcpsp_instance.hh"), ("table layout reader", "examples/table_layout/table_layout_instance.hh"), ("p-dispersion reader", "examples/p_dispersion/p_dispersion_instance.hh")])
p("A18", "Simplifying difference constraints preserves their solutions",
  "Simplifying a set of difference constraints, some of them guarded by conditions, preserves its solutions. A contradiction among the certain constraints is reported exactly when there is one. A constraint is removed exactly when the certain constraints kept already imply it, and a condition is fixed false exactly when its constraint contradicts the certain ones, with a genuine contradicting chain of certain constraints as witness. Groups of variables at a fixed distance are counted correctly.",
  ["inputs"], "every set of constraints, weights and conditions", "Redundancy and contradiction depend on cycles of weights; tests try a few graphs.",
  ["gcs/constraints/difference/difference_simplify.cc", "gcs/constraints/difference/difference_simplify.hh"], [("simplification", "gcs/constraints/difference/difference_simplify.cc")])
p("A19", "Incremental difference reasoning is exact",
  "Potentials computed for a set of difference constraints satisfy all of them, and are found exactly when there is no negative cycle. Repairing them after a constraint is activated succeeds exactly when the constraint closes no negative cycle, and otherwise leaves them as they were. Bounds propagated incrementally reach the same fixpoint as propagating everything afresh, each with the chain of active constraints that justifies it, and no run depends on leftovers of an earlier one.",
  ["inputs", "histories"], "every graph, every valid starting state and every added constraint or bound change",
  "Stale state shows only after particular sequences of updates; tests run a few.",
  ["gcs/constraints/difference/difference_incremental.cc", "gcs/constraints/difference/difference_incremental.hh"], [("potentials, repair, bound settling", "gcs/constraints/difference/difference_incremental.cc")])
