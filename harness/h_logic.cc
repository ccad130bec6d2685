// And, or, parity and membership: solutions are exactly the assignments that satisfy the constraint.
#include "csp.h"
#include <gcs/constraints/in.hh>
#include <gcs/constraints/logical.hh>
#include <gcs/constraints/parity.hh>
using namespace gcs::innards;
#ifndef NV
#define NV 2
#endif
#ifndef VLO
#define VLO -1
#endif
#ifndef VHI
#define VHI 1
#endif
static void body(Csp & c)
{
#if OP <= 2
    bool any = OP == 1;
#ifdef LITERALS
    // conditions, always true and always false
    Literals lits;
    std::vector<Meaning> hold;
    for (int i = 0; i < NV; ++i) {
        int k = choice("literal", 0, 2);
        if (k == 0) {
            lits.push_back(TrueLiteral{});
            hold.push_back([](const V &) -> ll { return 1; });
        }
        else if (k == 1) {
            lits.push_back(FalseLiteral{});
            hold.push_back([](const V &) -> ll { return 0; });
        }
        else {
            auto [d, m] = c.condition(1);
            lits.push_back(d);
            hold.push_back(m);
        }
    }
#else
    auto h = c.many(NV, VLO, VHI);
    auto ids = Csp::ids(h);
    std::vector<Meaning> hold;
    for (auto & x : h)
        hold.push_back([=](const V & a) -> ll { return x(a) != 0; });
#endif
    auto value = [=](const V & a) {
        ll r = OP == 0 ? 1 : 0;
        for (auto & f : hold)
            r = OP == 0 ? symx_and(r, f(a)) : OP == 1 ? symx_or(r, f(a)) : (ll)(r != f(a));
        return r;
    };
#if OP == 2
#ifdef LITERALS
    c.p.post(ParityOdd{lits});
#else
    c.p.post(ParityOdd{ids});
#endif
    c.check(value);
#else
#ifdef LITERALS
    auto [d, m] = c.condition(1);
    if (any)
        c.p.post(Or{lits, d});
    else
        c.p.post(And{lits, d});
    c.check([=, m = m](const V & a) -> ll { return value(a) == m(a); });
#else
    if (choice("reified", 0, 1)) {
        H r = c.any(VLO, VHI);
        if (any)
            c.p.post(Or{ids, r.id});
        else
            c.p.post(And{ids, r.id});
        c.check([=](const V & a) -> ll { return value(a) == (ll)(r(a) != 0); });
    }
    else {
        if (any)
            c.p.post(Or{ids});
        else
            c.p.post(And{ids});
        c.check(value);
    }
#endif
#endif
#else
    H x = c.any(VLO, VHI);
    auto h = c.many(choice("variables", 0, NV), VLO, VHI);
    std::vector<Integer> vals;
    V vv;
    for (int i = choice("values", 0, 2); i; --i) {
        vv.push_back(choice("value", VLO, VHI + 1));
        vals.push_back(Integer{vv.back()});
    }
    if (h.empty() && choice("values only", 0, 1))
        c.p.post(In{x.id, vals});
    else if (vals.empty() && choice("variables only", 0, 1))
        c.p.post(In{x.id, Csp::ids(h)});
    else
        c.p.post(In{x.id, Csp::ids(h), vals});
    c.check([=](const V & a) -> ll {
        ll r = 0;
        for (ll v : vv)
            r = symx_or(r, x(a) == v);
        for (auto & y : h)
            r = symx_or(r, x(a) == y(a));
        return r;
    });
#endif
}
