// Integer arithmetic: exact, or throws. Every operator on arbitrary 64-bit operands.
#include "hutil.h"
#include <functional>
#include <gcs/integer.hh>
#include <gcs/innards/integer_overflow.hh>
using namespace gcs;
using namespace gcs::innards;
template <typename F_>
static void check(F_ f, bool want, ll value, const char * exact, const char * refuse)
{
    bool threw = false;
    ll r = 0;
    try {
        r = f();
    }
    catch (const IntegerOverflow &) {
        threw = true;
    }
    if (symx_branch(want)) {
        symx_reach("representable");
        symx_assert(! threw, exact);
        if (! threw)
            symx_assert(r == value, exact);
    }
    else {
        symx_reach("not representable");
        symx_assert(threw, refuse);
    }
}
extern "C" void harness_main()
{
    int op = choice("op", 0, 18);
    ll a = any("a"), b = any("b");
    Integer x{a}, y{b};
    switch (op) {
    case 0: check([&] { return (x + y).raw_value; }, fits((i128)a + b), (ll)((i128)a + b), "+ is exact", "+ refuses what it cannot represent"); break;
    case 1: check([&] { return (x - y).raw_value; }, fits((i128)a - b), (ll)((i128)a - b), "- is exact", "- refuses what it cannot represent"); break;
    case 2: check([&] { return (x * y).raw_value; }, fits((i128)a * b), (ll)((i128)a * b), "* is exact", "* refuses what it cannot represent"); break;
    case 3: check([&] { x += y; return x.raw_value; }, fits((i128)a + b), (ll)((i128)a + b), "+= is exact", "+= refuses what it cannot represent"); break;
    case 4: check([&] { x -= y; return x.raw_value; }, fits((i128)a - b), (ll)((i128)a - b), "-= is exact", "-= refuses what it cannot represent"); break;
    case 5: {
        bool ok = b != 0 && ! (a == LMIN && b == -1);
        ll v = 0;
        if (symx_branch(ok))
            v = a / b;
        check([&] { return (x / y).raw_value; }, ok, v, "/ is exact", "/ refuses what it cannot represent");
        break;
    }
    case 6: {
        bool ok = b != 0 && ! (a == LMIN && b == -1);
        ll v = 0;
        if (symx_branch(ok))
            v = a % b;
        check([&] { return (x % y).raw_value; }, ok, v, "% is exact", "% refuses what it cannot represent");
        break;
    }
    case 7: check([&] { return (-x).raw_value; }, fits(-(i128)a), (ll)-(i128)a, "unary - is exact", "unary - refuses what it cannot represent"); break;
    case 8: check([&] { return abs(x).raw_value; }, a != LMIN, (ll)(a < 0 ? -(i128)a : a), "abs is exact", "abs refuses what it cannot represent"); break;
    case 9: check([&] { auto r = ++x; symx_assert(r.raw_value == x.raw_value, "++x returns the new value"); return x.raw_value; }, a != LMAX, (ll)((i128)a + 1), "++ is exact", "++ refuses what it cannot represent"); break;
    case 10: check([&] { auto r = x++; symx_assert(r.raw_value == a, "x++ returns the old value"); return x.raw_value; }, a != LMAX, (ll)((i128)a + 1), "++ is exact", "++ refuses what it cannot represent"); break;
    case 11: check([&] { auto r = --x; symx_assert(r.raw_value == x.raw_value, "--x returns the new value"); return x.raw_value; }, a != LMIN, (ll)((i128)a - 1), "-- is exact", "-- refuses what it cannot represent"); break;
    case 12: check([&] { auto r = x--; symx_assert(r.raw_value == a, "x-- returns the old value"); return x.raw_value; }, a != LMIN, (ll)((i128)a - 1), "-- is exact", "-- refuses what it cannot represent"); break;
    case 13:
        symx_assert((x < y) == (a < b), "< compares values");
        symx_assert((x <= y) == (a <= b), "<= compares values");
        symx_assert((x > y) == (a > b), "> compares values");
        symx_assert((x >= y) == (a >= b), ">= compares values");
        symx_assert((x == y) == (a == b), "== compares values");
        symx_assert((x != y) == (a != b), "!= compares values");
        break;
    case 14: check([&] { return (x + x).raw_value; }, fits((i128)a + a), (ll)((i128)a + a), "+ with itself is exact", "+ refuses what it cannot represent"); break;
    case 15: check([&] { x += x; return x.raw_value; }, fits((i128)a + a), (ll)((i128)a + a), "+= with itself is exact", "+= refuses what it cannot represent"); break;
    case 16:
        if (symx_branch(a == b))
            symx_assert(std::hash<Integer>{}(x) == std::hash<Integer>{}(y), "equal values hash equally");
        symx_assert(format_as(x) == a, "formats as its value");
        symx_assert(Integer{a}.raw_value == a, "holds the value it was made from");
        symx_assert(Integer::min_value().raw_value == LMIN && Integer::max_value().raw_value == LMAX, "limits are the 64-bit ones");
        break;
    case 17:
        symx_assume(a >= 0);
        symx_assert(operator""_i((unsigned long long)a).raw_value == a, "a literal has its value");
        symx_assert((long long)x.as_index() == a, "as_index is the value");
        break;
    case 18: {
        // the non-throwing building blocks
        ll r;
        symx_assert(add_overflows(a, b, &r) == ! fits((i128)a + b), "add_overflows says so");
        symx_assert(sub_overflows(a, b, &r) == ! fits((i128)a - b), "sub_overflows says so");
        symx_assert(mul_overflows(a, b, &r) == ! fits((i128)a * b), "mul_overflows says so");
        break;
    }
    }
}
