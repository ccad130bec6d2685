// Conditions on a variable: what each means, and that negation and the shorthand forms mean what they say.
#include "hutil.h"
#include <gcs/innards/integer_overflow.hh>
#include <gcs/variable_condition.hh>
#include <optional>
using namespace gcs;
using namespace gcs::innards;
template <typename V_>
static bool holds(const VariableConditionFrom<V_> & c, ll x)
{
    switch (c.op) {
        using enum VariableConditionOperator;
    case Equal: return x == c.value.raw_value;
    case NotEqual: return x != c.value.raw_value;
    case GreaterEqual: return x >= c.value.raw_value;
    case Less: return x < c.value.raw_value;
    case InRange: return (x >= c.value.raw_value) & (x <= c.upper_value.raw_value);
    case NotInRange: return (x < c.value.raw_value) | (x > c.upper_value.raw_value);
    }
    symx_assert(false, "a condition is one of the known kinds");
    return false;
}
template <typename V_>
static void run(const V_ & var)
{
    int op = choice("condition", 0, 7);
    ll k = any("k"), h = any("h"), x = any("x");
    std::optional<VariableConditionFrom<V_>> c;
    bool overflow = false, invalid = false, want = false;
    try {
        switch (op) {
        case 0: want = x == k; c = var == Integer{k}; break;
        case 1: want = x != k; c = var != Integer{k}; break;
        case 2: want = x < k; c = var < Integer{k}; break;
        case 3: want = x >= k; c = var >= Integer{k}; break;
        case 4: want = x <= k; c = var <= Integer{k}; break;
        case 5: want = x > k; c = var > Integer{k}; break;
        case 6: want = (k <= x) & (x <= h); c = in_range(var, Integer{k}, Integer{h}); break;
        case 7: want = (x < k) | (h < x); c = not_in_range(var, Integer{k}, Integer{h}); break;
        }
    }
    catch (const IntegerOverflow &) {
        overflow = true;
    }
    catch (const InvalidProblemDefinitionException &) {
        invalid = true;
    }
    symx_assert(overflow == ((op == 4 || op == 5) && k == LMAX), "a condition is refused exactly when its bound is not representable");
    symx_assert(invalid == ((op == 6 || op == 7) && k > h), "an empty range is refused");
    if (! c)
        symx_stop();
    symx_reach("condition built");
    symx_assert(c->var == var, "a condition is on its variable");
    symx_assert(holds(*c, x) == want, "a condition holds exactly where its notation says");
    auto n = ! *c;
    symx_assert(holds(n, x) == ! want, "the negation holds exactly where the condition does not");
    symx_assert(n.var == var && ! n == *c, "negating twice gives the condition back");
    symx_assert(! (n == *c), "a condition is not its own negation");
    if (op == 6 || op == 7)
        symx_assert(symx_branch(k == h) == (c->op == (op == 6 ? VariableConditionOperator::Equal : VariableConditionOperator::NotEqual)), "a one-value range is the plain condition");
    if constexpr (std::constructible_from<IntegerVariableID, V_>) {
        IntegerVariableCondition wide = *c;
        symx_assert(holds(wide, x) == want && wide.var == IntegerVariableID{var}, "widening a condition keeps its meaning");
        symx_assert(holds((IntegerVariableCondition)n, x) == ! want, "widening a negation keeps its meaning");
    }
}
extern "C" void harness_main()
{
    ll off = any("offset");
    SimpleIntegerVariableID s{3};
    switch (choice("on", 0, 4)) {
    case 0: run<SimpleIntegerVariableID>(s); break;
    case 1: run<ViewOfIntegerVariableID>(ViewOfIntegerVariableID{s, (bool)choice("negated", 0, 1), Integer{off}}); break;
    case 2: run<ConstantIntegerVariableID>(ConstantIntegerVariableID{Integer{off}}); break;
    case 3: run<IntegerVariableID>(IntegerVariableID{s}); break;
    case 4: run<IntegerVariableID>(IntegerVariableID{ViewOfIntegerVariableID{s, true, Integer{off}}}); break;
    }
}
