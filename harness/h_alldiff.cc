// All different and its relatives: solutions are exactly the assignments that satisfy the constraint.
#include "csp.h"
#include <gcs/constraints/all_different.hh>
#include <gcs/constraints/all_equal.hh>
#include <gcs/constraints/all_different/all_different_except.hh>
#include <gcs/constraints/all_different/symmetric_all_different.hh>
#ifndef VLO
#define VLO -1
#endif
#ifndef VHI
#define VHI 1
#endif
static void body(Csp & c)
{
    auto h = c.many(NV, VLO, VHI);
    auto ids = Csp::ids(h);
    auto distinct = [=](const V & a, const std::vector<ll> & except) {
        ll r = 1;
        for (int i = 0; i < NV; ++i)
            for (int j = 0; j < i; ++j) {
                ll free = 0;
                for (ll e : except)
                    free = symx_or(free, h[i](a) == e);
                r = symx_and(r, symx_or(h[i](a) != h[j](a), free));
            }
        return r;
    };
#if OP == 0
    AllDifferent d{ids};
#ifdef USE_VC
    d.with_consistency(consistency::VC{});
#endif
    c.p.post(d);
    c.check([=](const V & a) -> ll { return distinct(a, {}); });
#elif OP == 1
    std::vector<ll> except{VLO};
    switch (choice("excluded", 0, 3)) {
    case 0: c.p.post(AllDifferentExceptZero{ids}); except = {0}; break;
    case 1: c.p.post(AllDifferentExcept{ids, {Integer{VLO}}}); break;
    case 2: c.p.post(AllDifferentExcept{ids, {Integer{VHI}, Integer{VLO}, Integer{VHI}}}); except = {VHI, VLO}; break;
    case 3: c.p.post(AllDifferentExcept{ids, {}}); except = {}; break;
    }
    c.check([=](const V & a) -> ll { return distinct(a, except); });
#elif OP == 2
    ll start = choice("start", -1, 1);
    c.p.post(SymmetricAllDifferent{ids, Integer{start}});
    c.check([=](const V & a) -> ll {
        ll r = 1;
        for (int i = 0; i < NV; ++i) {
            ll x = h[i](a), back = 0;
            for (int j = 0; j < NV; ++j)
                back = symx_or(back, symx_and(x == j + start, h[j](a) == i + start));
            r = symx_and(r, back);
        }
        return r;
    });
#elif OP == 3
    c.p.post(AllEqual{ids});
    c.check([=](const V & a) -> ll {
        ll r = 1;
        for (int i = 1; i < NV; ++i)
            r = symx_and(r, h[i](a) == h[0](a));
        return r;
    });
#endif
}
