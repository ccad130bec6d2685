// Linear expressions: however a relation is written, what it stores is equivalent to what was written.
#include "hutil.h"
#include <gcs/expression.hh>
#include <gcs/innards/integer_overflow.hh>
using namespace gcs;
using namespace gcs::innards;
static ll xs[4]; // the variables' values
static i128 value(const IntegerVariableID & v)
{
    if (auto s = std::get_if<SimpleIntegerVariableID>(&v))
        return xs[s->index];
    if (auto w = std::get_if<ViewOfIntegerVariableID>(&v)) {
        ll x = xs[w->actual_variable.index];
        return (i128)(w->negate_first ? -x : x) + w->then_add.raw_value;
    }
    return std::get<ConstantIntegerVariableID>(v).const_value.raw_value;
}
static i128 sum(const WeightedSum & s)
{
    i128 r = 0;
    for (const auto & [c, v] : s.terms)
        r += (i128)c.raw_value * value(v);
    return r;
}
static bool holds(const SumLessThanEqual<Weighted<IntegerVariableID>> & s) { return sum(s.lhs) <= s.rhs.raw_value; }
static bool holds(const SumEquals<Weighted<IntegerVariableID>> & s) { return sum(s.lhs) == s.rhs.raw_value; }
extern "C" void harness_main()
{
    const ll V = 1000;
    int n = choice("terms", 0, 3), rel = choice("relation", 0, 6), extreme = choice("extreme", 0, 1);
    int unit = extreme ? choice("unit", 0, 8) : 0;
    for (int i = 0; i < 4; ++i)
        xs[i] = extreme ? (unit / 2 == i ? 1 - 2 * (unit % 2) : 0) : symx_range("x", -V, V);
    ll rhs = extreme ? any("rhs") : symx_range("rhs", -10000000, 10000000), rc = extreme ? any("rc") : symx_range("rc", -V, V);
    WeightedSum s;
    i128 meant = 0;
    bool has_min = false;
    for (int i = 0; i < n; ++i) {
        ll c = ! extreme ? symx_range("c", -V, V) : i == 0 ? any("c") : 5 - 3 * i;
        if (extreme && i == 0)
            has_min = symx_branch(c == LMIN);
        IntegerVariableID v = SimpleIntegerVariableID{(unsigned long long)i};
        if (i == 1)
            v = ViewOfIntegerVariableID{SimpleIntegerVariableID{1}, true, 5_i};
        if (i == 2)
            v = ConstantIntegerVariableID{12_i};
        if (i % 2)
            s += Integer{c} * v;
        else
            s = s + Integer{c} * v;
        meant += (i128)c * value(v);
    }
    symx_assert(s.terms.size() == (unsigned)n && sum(s) == meant, "a sum is the sum of its terms");
    bool neg_rhs_bad = rhs == LMIN, rc_bad = rc == LMIN;
    Weighted<IntegerVariableID> rt{Integer{rc}, SimpleIntegerVariableID{3}};
    i128 rv = (i128)rc * xs[3];
    try {
        switch (rel) {
        case 0: symx_assert(holds(s <= Integer{rhs}) == (meant <= rhs), "<= constant"); break;
        case 1: symx_assert(holds(s >= Integer{rhs}) == (meant >= rhs), ">= constant"); break;
        case 2: symx_assert(holds(s == Integer{rhs}) == (meant == rhs), "== constant"); break;
        case 3: symx_assert(holds(s <= rt) == (meant <= rv), "<= term"); break;
        case 4: symx_assert(holds(s >= rt) == (meant >= rv), ">= term"); break;
        case 5: symx_assert(holds(s == rt) == (meant == rv), "== term"); break;
        case 6: symx_assert(holds(negate_inequality(s <= Integer{rhs})) == ! (meant <= rhs), "negated inequality"); break;
        }
        symx_reach("relation");
    }
    catch (const IntegerOverflow &) {
        symx_reach("refused");
        // only what could not be written down: a coefficient or a bound that has no negation
        symx_assert((has_min && (rel == 1 || rel == 4 || rel == 6)) || (neg_rhs_bad && (rel == 1 || rel == 6)) || (rhs == LMAX && rel == 6) || (rc_bad && (rel == 3 || rel == 5)), "a relation is refused only when a negated number is not representable");
    }
}
