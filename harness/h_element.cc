// Element and minimum or maximum: solutions are exactly the assignments that satisfy the constraint; indices outside the
// array satisfy nothing.
#include "csp.h"
#include <gcs/constraints/element.hh>
#include <gcs/constraints/min_max.hh>
#ifndef NV
#define NV 2
#endif
#ifndef BOUND
#define BOUND 1
#endif
static void body(Csp & c)
{
#if OP <= 3
    int level = choice("level", 0, 2);
    auto set = [&](auto & e) {
        if (level == 1)
            e.with_consistency(consistency::GAC{});
        if (level == 2)
            e.with_consistency(consistency::BC{});
#ifdef GACONLY
        e.with_consistency(consistency::GAC{});
#endif
        c.p.post(e);
    };
#endif
#if OP == 0
    std::vector<Integer> t;
    V v;
    for (int i = 0; i < NV; ++i) {
        v.push_back(choice("entry", -BOUND, BOUND));
        t.push_back(Integer{v.back()});
    }
    ll start = choice("start", -1, 1);
    H r = c.any(-BOUND - 1, BOUND + 1), x = c.any(start - 1, start + NV);
    if (start == 0 && choice("plain", 0, 1)) {
        ElementConstantArray e{r.id, x.id, t};
        set(e);
    }
    else {
        ElementConstantArray e{r.id, std::pair{x.id, Integer{start}}, t};
        set(e);
    }
    c.check([=](const V & a) -> ll {
        ll ok = 0;
        for (int i = 0; i < NV; ++i)
            ok = symx_or(ok, symx_and(x(a) == start + i, r(a) == v[i]));
        return ok;
    });
#elif OP == 1
    auto v = c.many(NV, -BOUND, BOUND);
    ll start = choice("start", -1, 1);
    H r = c.any(-BOUND, BOUND), x = c.any(start - 1, start + NV);
    if (start == 0 && choice("plain", 0, 1)) {
        Element e{r.id, x.id, Csp::ids(v)};
        set(e);
    }
    else {
        Element e{r.id, std::pair{x.id, Integer{start}}, Csp::ids(v)};
        set(e);
    }
    c.check([=](const V & a) -> ll {
        ll ok = 0;
        for (int i = 0; i < NV; ++i)
            ok = symx_or(ok, symx_and(x(a) == start + i, r(a) == v[i](a)));
        return ok;
    });
#elif OP == 2
    V v;
    std::vector<std::vector<Integer>> t(2, std::vector<Integer>(NV, 0_i));
    for (int i = 0; i < 2 * NV; ++i) {
        v.push_back(choice("entry", 0, 1));
        t[i / NV][i % NV] = Integer{v.back()};
    }
    ll s1 = choice("start", -1, 1), s2 = choice("start", 0, 1);
    H r = c.any(-1, 2), x = c.any(s1 - 1, s1 + 2), y = c.any(s2 - 1, s2 + NV);
    Element2DConstantArray e{r.id, std::pair{x.id, Integer{s1}}, std::pair{y.id, Integer{s2}}, t};
    set(e);
    c.check([=](const V & a) -> ll {
        ll ok = 0;
        for (int i = 0; i < 2 * NV; ++i)
            ok = symx_or(ok, symx_and(symx_and(x(a) == s1 + i / NV, y(a) == s2 + i % NV), r(a) == v[i]));
        return ok;
    });
#elif OP == 3
    auto v = c.many(2 * NV, 0, 1);
    std::vector<std::vector<IntegerVariableID>> t(2);
    for (int i = 0; i < 2 * NV; ++i)
        t[i / NV].push_back(v[i].id);
    ll s1 = choice("start", 0, 1), s2 = choice("start", 0, 1);
    H r = c.any(0, 1), x = c.any(s1, s1 + 1), y = c.any(s2 - 1, s2 + NV);
    Element2D e{r.id, std::pair{x.id, Integer{s1}}, std::pair{y.id, Integer{s2}}, t};
    set(e);
    c.check([=](const V & a) -> ll {
        ll ok = 0;
        for (int i = 0; i < 2 * NV; ++i)
            ok = symx_or(ok, symx_and(symx_and(x(a) == s1 + i / NV, y(a) == s2 + i % NV), r(a) == v[i](a)));
        return ok;
    });
#else
    auto v = c.many(NV, -BOUND, BOUND);
    H r = c.any(-BOUND, BOUND);
    bool min = choice("minimum", 0, 1);
    if (NV == 2 && choice("two", 0, 1)) {
        if (min)
            c.p.post(Min{v[0].id, v[1].id, r.id});
        else
            c.p.post(Max{v[0].id, v[1].id, r.id});
    }
    else if (min)
        c.p.post(ArrayMin{Csp::ids(v), r.id});
    else
        c.p.post(ArrayMax{Csp::ids(v), r.id});
    c.check([=](const V & a) -> ll {
        ll all = 1, one = 0;
        for (auto & x : v) {
            all = symx_and(all, min ? x(a) >= r(a) : x(a) <= r(a));
            one = symx_or(one, x(a) == r(a));
        }
        return symx_and(all, one);
    });
#endif
}
