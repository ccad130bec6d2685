// The binary encoding of a variable: covers its range, as tightly as the width rule says, and knows when it fits.
#include "hutil.h"
#include <gcs/exception.hh>
#include <gcs/innards/proofs/bits_encoding.hh>
using namespace gcs;
using namespace gcs::innards;
extern "C" void harness_main()
{
    ll lo = any("lower"), hi = any("upper");
    symx_assume(lo <= hi);
    // what the encoding needs: magnitude bits to reach the upper bound, and to bring the sign bit up to -1
    ll need = 0; // bits
    {
        bool neg = symx_branch(lo < 0);
        unsigned long long m = neg ? (unsigned long long)-(lo + 1) : (unsigned long long)hi;
        if (neg && symx_branch(hi > (ll)m))
            m = (unsigned long long)hi;
        while (need < 63 && symx_branch((m >> need) != 0))
            ++need;
    }
    bool representable = lo != LMIN && ! (lo < 0 && need >= 63);
    bool fit = bits_encoding_fits(Integer{lo}, Integer{hi});
    symx_assert(fit == symx_branch(representable), "reports exactly whether an encoding exists");
    bool threw = false;
    ll shift = 0, coeff = 0, sign = 0;
    try {
        auto [a, b, c] = get_bits_encoding_coeffs(Integer{lo}, Integer{hi});
        shift = a.raw_value;
        coeff = b.raw_value;
        sign = c.raw_value;
    }
    catch (const std::exception &) {
        threw = true;
    }
    symx_assert(threw == ! fit, "an encoding is produced exactly when reported to fit");
    if (threw)
        symx_stop();
    symx_reach("encoded");
    symx_assert(shift == need - 1, "magnitude bits are exactly those the range needs");
    ll n = symx_concretize(shift);
    symx_assert(coeff == (n < 0 ? 0 : 1ll << n), "the top magnitude coefficient is its power of two");
    i128 top = ((i128)1 << (n + 1)) - 1, bottom = sign;
    symx_assert((sign == 0) == (lo >= 0), "a sign bit exactly when a value can be negative");
    if (symx_branch(lo < 0))
        symx_assert(sign == (ll)(-top - 1), "the sign coefficient is minus the next power of two");
    // every value of the range has bits: bottom + magnitude, magnitude in [0, top]
    symx_assert((bottom <= lo) & (hi <= top), "every value of the range is encoded");
}
