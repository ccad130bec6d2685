// Variable handles, views and constants: arithmetic on a handle is arithmetic on every value it can take.
#include "hutil.h"
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/innards/variable_id_utils.hh>
#include <gcs/variable_id.hh>
#include <memory>
using namespace gcs;
using namespace gcs::innards;
// The value a handle denotes when its underlying variable is x, modulo 2^64: offsets are 64 bits, and whether one is
// representable at all is asserted separately, so this loses nothing
typedef unsigned long long ull;
static ull eval(const IntegerVariableID & v, ll x)
{
    if (auto s = std::get_if<SimpleIntegerVariableID>(&v)) {
        symx_assert(s->index == 7, "the underlying variable is kept");
        return x;
    }
    if (auto w = std::get_if<ViewOfIntegerVariableID>(&v)) {
        symx_assert(w->actual_variable.index == 7, "the underlying variable is kept");
        return (symx_branch(w->negate_first) ? -(ull)x : (ull)x) + (ull)w->then_add.raw_value;
    }
    return std::get<ConstantIntegerVariableID>(v).const_value.raw_value;
}
static IntegerVariableID handle(int kind, ll c)
{
    SimpleIntegerVariableID s{7};
    switch (kind) {
    case 0: return s;
    case 1: return ViewOfIntegerVariableID{s, false, Integer{c}};
    case 2: return ViewOfIntegerVariableID{s, true, Integer{c}};
    default: return ConstantIntegerVariableID{Integer{c}};
    }
}
extern "C" void harness_main()
{
    int op = choice("op", 0, 5), kind = choice("handle", 0, 3);
    ll c = any("offset"), d = any("amount"), x = any("value");
    auto v = handle(kind, c);
    ull before = eval(v, x);
    auto apply = [&](const IntegerVariableID & a, int o, ll k) -> IntegerVariableID { return o == 0 ? a + Integer{k} : o == 1 ? a - Integer{k} : -a; };
    auto meant = [&](ull a, int o, ll k) -> ull { return o == 0 ? a + k : o == 1 ? a - k : -a; };
    switch (op) {
    case 0:
    case 1:
    case 2: {
        ll base = kind == 0 ? 0 : c;
        i128 off = op == 0 ? (i128)base + d : op == 1 ? (i128)base - d : -(i128)base;
        bool threw = false;
        ull got = 0;
        try {
            got = eval(apply(v, op, d), x);
        }
        catch (const IntegerOverflow &) {
            threw = true;
        }
        if (threw)
            symx_assert(! fits(off) || (kind == 0 && op == 1 && d == LMIN) || (op == 1 && ! fits(-(i128)d)), "handle arithmetic refuses only what it cannot represent");
        else {
            symx_assert(got == meant(before, op, d), "a shifted or negated handle denotes the shifted or negated value");
            symx_reach("handle arithmetic");
        }
        break;
    }
    case 3: { // three operations in a row
        ull want = before;
        IntegerVariableID w = v;
        try {
            for (int i = 0; i < 3; ++i) {
                int o = choice("step", 0, 2);
                ll k = symx_range("k", -1000000, 1000000);
                w = apply(w, o, k);
                want = meant(want, o, k);
            }
        }
        catch (const IntegerOverflow &) {
            symx_assert(! fits((i128)c + 3000000) || ! fits((i128)c - 3000000) || ! fits(-(i128)c + 3000000), "chained handle arithmetic refuses only near the limits");
            symx_stop();
        }
        symx_assert(eval(w, x) == want, "chained handle arithmetic denotes the chained value");
        symx_assert(is_constant_variable(w) == (kind == 3), "a handle to a variable stays one");
        break;
    }
    case 4: { // decompositions
        auto a = affine_of(v);
        symx_assert(a.var.has_value() == (kind != 3), "a handle decomposes to its variable, a constant to none");
        symx_assert(! a.var || a.coeff == 1_i || a.coeff == -1_i, "the coefficient is a unit");
        ull x0 = a.var ? (symx_branch(a.coeff == 1_i) ? (ull)x : -(ull)x) : 0;
        symx_assert(x0 + a.offset.raw_value == before, "a decomposed handle denotes the same value");
        if (a.var)
            symx_assert(a.var->index == 7, "the underlying variable is kept");
        symx_assert(is_constant_variable(v) == (kind == 3), "only constants are constant");
        if (kind == 3)
            symx_assert(constant_value_of(v).raw_value == c, "a constant handle holds its value");
        symx_assert(constant_value_of(constant_variable(Integer{d})).raw_value == d, "a constant handle holds its value");
        auto cs = as_constant_variables({Integer{c}, Integer{d}, Integer{x}});
        symx_assert(cs.size() == 3 && constant_value_of(cs[0]).raw_value == c && constant_value_of(cs[1]).raw_value == d && constant_value_of(cs[2]).raw_value == x, "a list of constants keeps values and order");
        break;
    }
    case 5: { // equality, order, hashing; grouping by kind
        auto w = handle(choice("other", 0, 3), d);
        bool same = (v.index() == w.index()) & (kind == 0 || c == d);
        if (kind == 1 || kind == 2)
            same = same && std::holds_alternative<ViewOfIntegerVariableID>(w) && std::get<ViewOfIntegerVariableID>(v).negate_first == std::get<ViewOfIntegerVariableID>(w).negate_first;
        symx_assert((v == w) == same, "handles are equal exactly when they denote the same thing");
        symx_assert(((v < w) + (w < v) + (v == w)) == 1, "handles are totally ordered");
        if (symx_branch(v == w))
            symx_assert(std::hash<IntegerVariableID>{}(v) == std::hash<IntegerVariableID>{}(w), "equal handles hash equally");
        std::vector<IntegerVariableID> vs{v, w, v};
        auto h = as_homogeneous(vs);
        std::visit([&](const auto & g) {
            symx_assert(g.size() == 3, "grouping keeps every handle");
            for (std::size_t i = 0; i < 3; ++i)
                symx_assert(IntegerVariableID{g[i]} == vs[i], "grouping keeps every handle");
        }, h);
        symx_assert((h.index() == 3) == (v.index() != w.index()), "handles of one kind are grouped as that kind");
        break;
    }
    }
}
