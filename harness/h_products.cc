// Rounding division, square roots, and the bounds the multiplication propagators filter with.
#include "hutil.h"
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/innards/product_bounds.hh>
#include <gcs/innards/integer_overflow.hh>
using namespace gcs;
using namespace gcs::innards;
#ifndef W
#define W 7
#endif
#ifndef DIV_A
#define DIV_A 1000
#define DIV_B 60
#endif
static void same(bool cond, const char * m) { symx_assert(cond, m); }
extern "C" void harness_main()
{
    switch (choice("case", CASE_LO, CASE_HI)) {
    case 0: { // div_floor, div_ceil on the whole range of operands, against truncating division
        ll a = symx_range("a", -DIV_A, DIV_A), b = symx_range("b", -DIV_B, DIV_B);
        symx_assume(b != 0);
        ll q = a / b, r = a % b;
        bool inexact = r != 0, neg = (a < 0) != (b < 0);
        same(div_floor(Integer{a}, Integer{b}).raw_value == q - (inexact & neg), "floor division rounds towards minus infinity");
        same(div_ceil(Integer{a}, Integer{b}).raw_value == q + (inexact & ! neg), "ceiling division rounds towards plus infinity");
        symx_reach("divisions");
        break;
    }
    case 1: { // at the extremes: exact or refused
        static const ll as[] = {LMIN, LMIN + 1, LMIN + 2, LMIN + 3, -1, 0, 1, LMAX - 2, LMAX - 1, LMAX}, bs[] = {LMIN, LMIN + 1, -3037000500ll, -7, -3, -2, -1, 0, 1, 2, 3, 10, 4294967296ll, LMAX - 1, LMAX};
        ll a = as[choice("a", 0, SIZEOF(as) - 1)], b = bs[choice("b", 0, SIZEOF(bs) - 1)];
        for (int c = 0; c < 2; ++c) {
            try {
                ll r = (c ? div_ceil(Integer{a}, Integer{b}) : div_floor(Integer{a}, Integer{b})).raw_value;
                same(b != 0, "division by zero is refused");
                i128 lhs = (i128)r * b, prev = ((i128)r + (c ? -1 : 1)) * b;
                if (b > 0)
                    same(c ? (lhs >= a && prev < a) : (lhs <= a && prev > a), "rounded division is exact at the extremes");
                else
                    same(c ? (lhs <= a && prev > a) : (lhs >= a && prev < a), "rounded division is exact at the extremes");
            }
            catch (const IntegerOverflow &) {
                same(b == 0 || a == LMIN || b == LMIN, "rounded division refuses only what it cannot represent");
            }
        }
        break;
    }
    case 2: { // square roots
        ll n = symx_range("n", -4, ISQRT_MAX);
        if (symx_branch(n < 0)) {
            bool threw = false;
            try { (void)isqrt(Integer{n}); }
            catch (const UnexpectedException &) { threw = true; }
            same(threw, "no square root of a negative");
        }
        else {
            ll r = isqrt(Integer{n}).raw_value, c = ceil_isqrt(Integer{n}).raw_value;
            same(r >= 0, "square root is not negative");
            same((i128)r * r <= n, "square root rounds down");
            same((i128)(r + 1) * (r + 1) > n, "square root is the largest");
            same((i128)c * c >= n, "ceiling square root rounds up");
            same(c == 0 || (i128)(c - 1) * (c - 1) < n, "ceiling square root is the smallest");
            symx_reach("roots");
        }
        break;
    }
    case 3: { // square roots near every power of two, and at the limits
        int k = choice("k", 2, 62);
        ll base = k == 62 ? (choice("top", 0, 1) ? LMAX - 1 : 1ll << 62) : 1ll << k, n = base + choice("d", -1, 1);
        ll r = 0;
        try {
            r = isqrt(Integer{n}).raw_value;
        }
        catch (const IntegerOverflow &) {
            same(n == LMAX, "only the largest number of all has its square root refused");
            symx_stop();
        }
        same((i128)r * r <= n && (i128)(r + 1) * (r + 1) > n, "square root is exact near powers of two");
        if (n < 9223372030926249001ll) { // the ceiling is squared to compare: that fits
            ll c = ceil_isqrt(Integer{n}).raw_value;
            same((i128)c * c >= n && (i128)(c - 1) * (c - 1) < n, "ceiling square root is exact near powers of two");
        }
        break;
    }
    case 4: { // bounds of a product: sound and tight over the box
        ll xl = symx_range("xl", -W, W), xh = symx_range("xh", -W, W), yl = symx_range("yl", -W, W), yh = symx_range("yh", -W, W);
        ll x = symx_range("x", -W, W), y = symx_range("y", -W, W);
        symx_assume((xl <= xh) & (yl <= yh) & (xl <= x) & (x <= xh) & (yl <= y) & (y <= yh));
        auto [lo, hi] = product_bounds(Integer{xl}, Integer{xh}, Integer{yl}, Integer{yh});
        same(lo.raw_value <= x * y, "every product lies in the product bounds");
        same(x * y <= hi.raw_value, "every product lies in the product bounds");
        same((lo.raw_value == xl * yl) | (lo.raw_value == xl * yh) | (lo.raw_value == xh * yl) | (lo.raw_value == xh * yh), "the lower product bound is attained");
        same((hi.raw_value == xl * yl) | (hi.raw_value == xl * yh) | (hi.raw_value == xh * yl) | (hi.raw_value == xh * yh), "the upper product bound is attained");
        symx_reach("products");
        break;
    }
    case 5: { // bounds of a square
        ll xl = symx_range("xl", -W, W), xh = symx_range("xh", -W, W), x = symx_range("x", -W, W);
        symx_assume((xl <= xh) & (xl <= x) & (x <= xh));
        auto [lo, hi] = square_bounds(Integer{xl}, Integer{xh});
        same((lo.raw_value <= x * x) & (x * x <= hi.raw_value), "every square lies in the square bounds");
        same((hi.raw_value == xl * xl) | (hi.raw_value == xh * xh), "the upper square bound is attained");
        same((lo.raw_value == xl * xl) | (lo.raw_value == xh * xh) | ((xl <= 0) & (xh >= 0) & (lo.raw_value == 0)), "the lower square bound is attained");
        break;
    }
    case 6: { // the hull of the roots
        ll xl = symx_range("xl", -9, 9), xh = symx_range("xh", -9, 9), zl = symx_range("zl", -3, 90), zh = symx_range("zh", -3, 90), x = symx_range("x", -9, 9);
        symx_assume((xl <= xh) & (zl <= zh));
        auto [lo, hi] = square_filter(Integer{xl}, Integer{xh}, Integer{zl}, Integer{zh});
        bool supported = (xl <= x) & (x <= xh) & (zl <= x * x) & (x * x <= zh);
        same((! supported) | ((lo.raw_value <= x) & (x <= hi.raw_value)), "every supported root lies in the filtered bounds");
        if (symx_branch(lo.raw_value <= hi.raw_value)) {
            // if anything is supported the ends are; if nothing is, both ends are unsupported
            ll l = lo.raw_value, h = hi.raw_value;
            bool ls = (xl <= l) & (l <= xh) & (zl <= l * l) & (l * l <= zh), hs = (xl <= h) & (h <= xh) & (zl <= h * h) & (h * h <= zh);
            same(! supported | (ls & hs), "the filtered bounds are themselves supported");
            symx_reach("roots filtered");
        }
        break;
    }
    case 7: { // quotients: every x with x * y = z survives
        ll yl = symx_range("yl", -12, 12), yh = symx_range("yh", -12, 12), zl = symx_range("zl", -30, 30), zh = symx_range("zh", -30, 30);
        ll x = symx_range("x", -60, 60), y = symx_range("y", -12, 12);
        symx_assume((yl <= yh) & (zl <= zh) & (yl <= y) & (y <= yh));
        ll z = x * y;
        symx_assume((zl <= z) & (z <= zh));
        auto f = quotient_filter(Integer{yl}, Integer{yh}, Integer{zl}, Integer{zh});
        symx_assert(f.kind != QuotientFilter::Kind::EmptyBecauseYZero, "a supported quotient is not reported empty");
        if (f.kind == QuotientFilter::Kind::Bounds) {
            symx_reach("quotients bounded");
            same((f.lo.raw_value <= x) & (x <= f.hi.raw_value), "every supported quotient lies in the filtered bounds");
        }
        break;
    }
    case 8: { // products that may not be representable
        ll a = any("a"), b = any("b");
        auto r = product_if_representable(Integer{a}, Integer{b});
        bool ok = fits((i128)a * b);
        same(r.has_value() == ok, "a product is returned exactly when it is representable");
        if (r)
            same(r->raw_value == (ll)((i128)a * b), "a returned product is exact");
        break;
    }
    case 9: { // quotients with a one-sided divisor: each bound is within one division of the box
        ll yl = symx_range("yl", 1, 12), yh = symx_range("yh", 1, 12), zl = symx_range("zl", -30, 30), zh = symx_range("zh", -30, 30);
        bool neg = choice("negative_divisor", 0, 1);
        symx_assume((yl <= yh) & (zl <= zh));
        auto f = neg ? quotient_filter(Integer{-yh}, Integer{-yl}, Integer{zl}, Integer{zh}) : quotient_filter(Integer{yl}, Integer{yh}, Integer{zl}, Integer{zh});
        symx_assert(f.kind == QuotientFilter::Kind::Bounds, "a sign-fixed divisor bounds the quotient");
        ll l = neg ? -f.hi.raw_value : f.lo.raw_value, h = neg ? -f.lo.raw_value : f.hi.raw_value;
        // the real quotients span [min(zl/yl, zl/yh), max(zh/yl, zh/yh)]: nothing outside, rounded inwards
        same(((l - 1) * yl < zl) | ((l - 1) * yh < zl), "the lower quotient bound is not loose");
        same(((l * yl >= zl) | (l * yh >= zl)), "the lower quotient bound is rounded up");
        same((h * yl <= zh) | (h * yh <= zh), "the upper quotient bound is rounded down");
        break;
    }
    }
}
