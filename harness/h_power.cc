// Integer powers: exact, or refused; the conventions for zero bases and negative exponents.
#include "hutil.h"
#include <gcs/exception.hh>
#include <gcs/innards/power.hh>
using namespace gcs;
using namespace gcs::innards;
// base to the exp, or refused: by repeated multiplication, stopping once it leaves the range
static bool spec(ll b, ll e, ll & out)
{
    i128 r = 1;
    for (ll i = 0; i < e; ++i) {
        r *= b;
        if (symx_branch(! fits(r)))
            return false;
    }
    out = (ll)r;
    return true;
}
static void compare(ll b, ll e)
{
    ll want = 0;
    bool ok = spec(b, e, want);
    auto got = checked_integer_power(Integer{b}, Integer{e});
    if (ok) {
        symx_reach("power representable");
        symx_assert(got.has_value(), "a representable power is returned");
        if (got)
            symx_assert(got->raw_value == want, "a power is exact");
    }
    else {
        symx_reach("power not representable");
        symx_assert(! got.has_value(), "an unrepresentable power is refused");
    }
}
extern "C" void harness_main()
{
    switch (choice("case", 0, 6)) {
    case 0: { // any small base
        ll e = choice("exp", 0, 66), b = symx_range("base", -12, 12);
        compare(e <= 4 ? b : symx_concretize(b), e);
        break;
    }
    case 1: { // bases around the largest whose power is representable
        int e = choice("exp", 3, 40);
        ll root = 1;
        for (ll step = 1ll << 31; step > 0; step >>= 1) {
            i128 r = 1;
            bool ok = true;
            for (int i = 0; i < e && ok; ++i) {
                r *= root + step;
                ok = fits(r);
            }
            if (ok)
                root += step;
        }
        ll d = symx_concretize(symx_range("offset", -2, 2)), s = choice("negative", 0, 1);
        compare(s ? -(root + d) : root + d, e);
        break;
    }
    case 2: { // squares and lower, every base
        int e = choice("exp", 0, 2);
        ll b = any("base");
        compare(b, e);
        break;
    }
    case 3: { // unit and zero bases, every exponent
        int b = choice("base", -1, 1);
        ll e = any("exp");
        auto got = checked_integer_power(Integer{b}, Integer{e});
        if (b == 0) {
            if (symx_branch(e < 0))
                symx_assert(! got.has_value(), "0 to a negative power is undefined");
            else
                symx_assert(got.has_value() && got->raw_value == symx_ite(e == 0, 1, 0), "0 to the 0 is 1, 0 to a positive power is 0");
        }
        else
            symx_assert(got.has_value() && got->raw_value == (b == 1 ? 1 : symx_ite((e & 1) == 0, 1, -1)), "powers of a unit are units");
        break;
    }
    case 4: { // negative exponents
        ll b = any("base"), e = symx_range("exp", LMIN, -1);
        symx_assume((b < -1) | (b > 1));
        auto got = checked_integer_power(Integer{b}, Integer{e});
        symx_assert(got.has_value() && got->raw_value == 0, "a negative power of a larger base truncates to 0");
        break;
    }
    case 5: { // huge exponents
        static const ll bases[] = {2, -2, 3, -3, 10, 3037000499ll, LMAX, LMIN};
        ll b = bases[choice("base", 0, SIZEOF(bases) - 1)], e = symx_range("exp", 64, LMAX);
        symx_assert(! checked_integer_power(Integer{b}, Integer{e}).has_value(), "a huge power is refused");
        break;
    }
    case 6: { // powers of two
        ll e = any("exp");
        bool threw = false;
        ll r = 0;
        try {
            r = power2(Integer{e}).raw_value;
        }
        catch (const UnimplementedException &) {
            threw = true;
        }
        if (symx_branch((e >= 0) & (e <= 62))) {
            symx_reach("power of two representable");
            symx_assert(! threw, "a representable power of two is returned");
            ll c = symx_concretize(e);
            symx_assert(r == (1ll << c), "a power of two is exact");
        }
        else
            symx_assert(threw, "an unrepresentable power of two is refused");
        break;
    }
    }
}
