// Arithmetic constraints: solutions are exactly the assignments that satisfy the equation. Division truncates, the
// remainder takes the sign of the dividend, nothing is divisible by zero, and negative powers truncate towards zero.
#include "csp.h"
#include <gcs/constraints/abs.hh>
#include <gcs/constraints/divide.hh>
#include <gcs/constraints/minus.hh>
#include <gcs/constraints/modulus.hh>
#include <gcs/constraints/multiply.hh>
#include <gcs/constraints/plus.hh>
#include <gcs/constraints/power.hh>
#ifndef XLO
#define XLO -3
#endif
#ifndef XHI
#define XHI 3
#endif
#ifndef YLO
#define YLO XLO
#endif
#ifndef YHI
#define YHI XHI
#endif
#ifndef ZLO
#define ZLO XLO
#endif
#ifndef ZHI
#define ZHI XHI
#endif
#ifndef LEVELS
#define LEVELS 2
#endif
template <typename C_>
static void level(C_ & c, int l)
{
    if (l == 1)
        c.with_consistency(consistency::BC{});
    if (l == 2)
        c.with_consistency(consistency::Tabulated{});
}
static void body(Csp & c)
{
    auto & p = c.p;
#if OP == 0
    H x = c.any(XLO, XHI), y = c.any(YLO, YHI);
    p.post(Abs{x.id, y.id});
    c.check([=](const V & a) -> ll { ll v = x(a); return symx_ite(v < 0, -v, v) == y(a); });
#else
    H x = c.any(XLO, XHI), y = c.any(YLO, YHI), z = c.any(ZLO, ZHI);
    int l = choice("level", LEVELS < 0 ? -LEVELS : 0, LEVELS < 0 ? -LEVELS : LEVELS);
#if OP == 1
    Plus o{x.id, y.id, z.id};
    level(o, l), p.post(o);
    c.check([=](const V & a) -> ll { return x(a) + y(a) == z(a); });
#elif OP == 2
    Minus o{x.id, y.id, z.id};
    level(o, l), p.post(o);
    c.check([=](const V & a) -> ll { return x(a) - y(a) == z(a); });
#elif OP == 3
    Multiply o{x.id, y.id, z.id};
    level(o, l), p.post(o);
    c.check([=](const V & a) -> ll { return x(a) * y(a) == z(a); });
#elif OP == 4
    Divide o{x.id, y.id, z.id};
    level(o, l), p.post(o);
    // the quotient is rounded towards zero: |x| = |z| |y| + r with 0 <= r < |y|, signs as usual
    c.check([=](const V & a) -> ll {
        ll r = x(a) - z(a) * y(a), ay = symx_ite(y(a) < 0, -y(a), y(a)), ar = symx_ite(r < 0, -r, r);
        return symx_and(symx_and(y(a) != 0, ar < ay), symx_or(r == 0, (r < 0) == (x(a) < 0)));
    });
#elif OP == 5
    Modulus o{x.id, y.id, z.id};
    level(o, l), p.post(o);
    // the remainder: smaller than the divisor, with the sign of the dividend, and differing from it by a multiple
    c.check([=](const V & a) -> ll {
        ll r = z(a), d = x(a) - r, ay = symx_ite(y(a) < 0, -y(a), y(a)), ar = symx_ite(r < 0, -r, r), m = 0;
        for (ll k = -8; k <= 8; ++k)
            m = symx_or(m, d == k * y(a));
        return symx_and(symx_and(y(a) != 0, ar < ay), symx_and(symx_or(r == 0, (r < 0) == (x(a) < 0)), m));
    });
#elif OP == 6
    Power o{x.id, y.id, z.id};
    level(o, l), p.post(o);
    c.check([=](const V & a) -> ll {
        ll b = x(a), e = y(a), r = z(a), v = 1, ok = 0;
        for (ll k = 0; k <= 6; ++k, v *= b)
            ok = symx_or(ok, symx_and(e == k, r == v));
        // one over a power, rounded towards zero; nothing for zero
        ll odd = e & 1;
        ok = symx_or(ok, symx_and(e < 0, symx_ite(b == 0, 0, symx_ite(b == 1, r == 1, symx_ite(b == -1, r == 1 - 2 * odd, r == 0)))));
        return ok;
    });
#endif
#endif
}
