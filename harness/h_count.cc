// Counting constraints: solutions are exactly the assignments that satisfy the constraint.
#include "csp.h"
#include <gcs/constraints/among.hh>
#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/count.hh>
#include <gcs/constraints/global_cardinality.hh>
#include <gcs/constraints/n_value.hh>
#ifndef NV
#define NV 3
#endif
#ifndef VLO
#define VLO 0
#endif
#ifndef VHI
#define VHI 2
#endif
static void body(Csp & c)
{
    auto h = c.many(NV, VLO, VHI);
    auto ids = Csp::ids(h);
#if OP == 0
    H n = c.any(-1, NV + 1);
    int w = choice("values", 0, 5);
    static const std::vector<ll> sets[] = {{}, {1}, {2, 0}, {0, 1, 2}, {1, 5, 1}, {-3}};
    std::vector<Integer> vals;
    for (ll v : sets[w])
        vals.push_back(Integer{v});
    c.p.post(Among{ids, vals, n.id});
    c.check([=](const V & a) -> ll {
        ll k = 0;
        for (auto & x : h) {
            ll in = 0;
            for (ll v : sets[w])
                in = symx_or(in, x(a) == v);
            k += in;
        }
        return k == n(a);
    });
#elif OP == 1
    H v = c.any(VLO - 1, VHI), n = c.any(-1, NV + 1);
    c.p.post(Count{ids, v.id, n.id});
    c.check([=](const V & a) -> ll {
        ll k = 0;
        for (auto & x : h)
            k += x(a) == v(a);
        return k == n(a);
    });
#elif OP == 2
    H v = c.any(VLO - 1, VHI);
    if (choice("smart table", 0, 1))
        c.p.post(AtMostOneSmartTable{ids, v.id});
    else
        c.p.post(AtMostOne{ids, v.id});
    c.check([=](const V & a) -> ll {
        ll k = 0;
        for (auto & x : h)
            k += x(a) == v(a);
        return k <= 1;
    });
#elif OP == 3
    H n = c.any(-1, NV + 1);
    c.p.post(NValue{n.id, ids});
    c.check([=](const V & a) -> ll {
        ll k = 0;
        for (int i = 0; i < NV; ++i) {
            ll first = 1;
            for (int j = 0; j < i; ++j)
                first = symx_and(first, h[j](a) != h[i](a));
            k += first;
        }
        return k == n(a);
    });
#elif OP == 4
    static const std::vector<ll> covers[] = {{0, 1, 2}, {2, 0}, {1}, {7, 1}};
    int w = choice("cover", 0, 3);
    auto & cover = covers[w];
    std::vector<Integer> vals;
    for (ll v : cover)
        vals.push_back(Integer{v});
    auto n = c.many((int)cover.size(), 0, COUNTS);
    GlobalCardinality g{ids, vals, Csp::ids(n)};
    bool closed = choice("closed", 0, 1);
    if (closed)
        g.with_closed();
#ifdef GACONLY
    g.with_consistency(consistency::GAC{});
    c.must = h;
#else
    if (choice("gac", 0, 1))
        g.with_consistency(consistency::GAC{});
#endif
    c.p.post(g);
    c.check([=](const V & a) -> ll {
        ll ok = 1;
        for (size_t i = 0; i < covers[w].size(); ++i) {
            ll k = 0;
            for (auto & x : h)
                k += x(a) == covers[w][i];
            ok = symx_and(ok, k == n[i](a));
        }
        if (closed)
            for (auto & x : h) {
                ll in = 0;
                for (ll v : covers[w])
                    in = symx_or(in, x(a) == v);
                ok = symx_and(ok, in);
            }
        return ok;
    });
#endif
}
