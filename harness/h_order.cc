// Lexicographic order, chains, precedence, inverses and sorting: solutions are exactly the satisfying assignments.
#include "csp.h"
#include <gcs/constraints/increasing.hh>
#include <gcs/constraints/inverse.hh>
#include <gcs/constraints/lex.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <gcs/constraints/seq_precede_chain.hh>
#include <gcs/constraints/sort.hh>
#include <gcs/constraints/value_precede.hh>
#ifndef NV
#define NV 3
#endif
#ifndef VLO
#define VLO 0
#endif
#ifndef VHI
#define VHI 2
#endif
static void body(Csp & c)
{
    auto & p = c.p;
#if OP <= 1
    int n = choice("first length", 1, NV), m = choice("second length", 1, NV);
    if (n + m > NV + 2)
        symx_stop();
    auto x = c.many(n, VLO, VHI), y = c.many(m, VLO, VHI);
    auto X = Csp::ids(x), Y = Csp::ids(y);
    auto greater = [=](const V & a, bool equal) {
        ll r = n > m || (equal && n == m);
        for (int i = std::min(n, m) - 1; i >= 0; --i)
            r = symx_or(x[i](a) > y[i](a), symx_and(x[i](a) == y[i](a), r));
        return r;
    };
    auto less = [=](const V & a, bool equal) { return (ll)! greater(a, ! equal); };
#endif
#if OP == 0
    int w = choice("relation", 0, n == m ? 4 : 3);
    switch (w) {
    case 0: p.post(LexGreaterThan{X, Y}); break;
    case 1: p.post(LexGreaterEqual{X, Y}); break;
    case 2: p.post(LexLessThan{X, Y}); break;
    case 3: p.post(LexLessThanEqual{X, Y}); break;
    case 4: p.post(LexSmartTable{X, Y}); break;
    }
    c.check([=](const V & a) -> ll { return w == 0 || w == 4 ? greater(a, false) : w == 1 ? greater(a, true) : w == 2 ? less(a, false) : less(a, true); });
#elif OP == 1
    auto [d, holds] = c.condition(1);
    int w = choice("relation", 0, 3);
    bool iff = choice("both ways", 0, 1);
    if (iff)
        switch (w) {
        case 0: p.post(LexGreaterThanIff{X, Y, d}); break;
        case 1: p.post(LexGreaterEqualIff{X, Y, d}); break;
        case 2: p.post(LexLessThanIff{X, Y, d}); break;
        case 3: p.post(LexLessThanEqualIff{X, Y, d}); break;
        }
    else
        switch (w) {
        case 0: p.post(LexGreaterThanIf{X, Y, d}); break;
        case 1: p.post(LexGreaterEqualIf{X, Y, d}); break;
        case 2: p.post(LexLessThanIf{X, Y, d}); break;
        case 3: p.post(LexLessThanEqualIf{X, Y, d}); break;
        }
    c.check([=, holds = holds](const V & a) -> ll {
        ll r = w == 0 ? greater(a, false) : w == 1 ? greater(a, true) : w == 2 ? less(a, false) : less(a, true), t = holds(a);
        return iff ? (ll)(r == t) : symx_or(! t, r);
    });
#elif OP == 2
    auto x = c.many(NV, VLO, VHI);
    auto X = Csp::ids(x);
    int w = choice("order", 0, 3);
    switch (w) {
    case 0: p.post(Increasing{X}); break;
    case 1: p.post(StrictlyIncreasing{X}); break;
    case 2: p.post(Decreasing{X}); break;
    case 3: p.post(StrictlyDecreasing{X}); break;
    }
    c.check([=](const V & a) -> ll {
        ll r = 1;
        for (int i = 1; i < NV; ++i) {
            ll s = x[i - 1](a), t = x[i](a);
            r = symx_and(r, w == 0 ? s <= t : w == 1 ? s < t : w == 2 ? s >= t : s > t);
        }
        return r;
    });
#elif OP == 3
    auto x = c.many(NV, VLO, VHI);
    auto X = Csp::ids(x);
    static const std::vector<ll> chains[] = {{1, 2}, {2, 1}, {0, 1, 2}, {2, 0, 1}, {1, 2, 1}, {1}, {}, {1, 7}, {7, 1}, {1, 1}};
    int w = choice("chain", 0, 11);
    std::vector<ll> chain;
    if (w == 11) {
        p.post(SeqPrecedeChain{X});
        chain = {};
    }
    else {
        chain = w == 10 ? std::vector<ll>{0, 2} : chains[w];
        if (w == 10)
            p.post(ValuePrecede{0_i, 2_i, X});
        else {
            std::vector<Integer> C;
            for (ll v : chain)
                C.push_back(Integer{v});
            p.post(ValuePrecede{C, X});
        }
    }
    c.check([=](const V & a) -> ll {
        ll r = 1;
        auto precede = [&](ll s, ll t) {
            ll seen = 0;
            for (int i = 0; i < NV; ++i) {
                r = symx_and(r, symx_or(x[i](a) != t, seen));
                seen = symx_or(seen, x[i](a) == s);
            }
        };
        if (w == 11)
            for (ll v = 2; v <= VHI; ++v)
                precede(v - 1, v);
        else
            for (size_t j = 1; j < chain.size(); ++j)
                precede(chain[j - 1], chain[j]);
        return r;
    });
#elif OP == 4
    ll s = choice("start", -1, 1), t = choice("other start", 0, 1);
    auto x = c.many(NV, t - 1, t + NV), y = c.many(NV, s, s + NV - 1);
    p.post(Inverse{Csp::ids(x), Csp::ids(y), Integer{s}, Integer{t}});
    c.check([=](const V & a) -> ll {
        // x[i] = j exactly if y[j] = i, whichever of the two arrays is counted from where
        ll r = 1;
        for (int i = 0; i < NV; ++i) {
            ll back = 0;
            for (int j = 0; j < NV; ++j)
                back = symx_or(back, symx_and(x[i](a) == j + t, y[j](a) == i + s));
            r = symx_and(r, back);
        }
        return r;
    });
#elif OP == 5
    auto x = c.many(NV, VLO, VHI), y = c.many(NV, VLO, VHI);
    p.post(Sort{Csp::ids(x), Csp::ids(y)});
    c.check([=](const V & a) -> ll {
        ll r = 1;
        for (int i = 1; i < NV; ++i)
            r = symx_and(r, y[i - 1](a) <= y[i](a));
        for (ll v = VLO - 4; v <= VHI + 4; ++v) {
            ll d = 0;
            for (int i = 0; i < NV; ++i)
                d += (ll)(x[i](a) == v) - (ll)(y[i](a) == v);
            r = symx_and(r, d == 0);
        }
        return r;
    });
#elif OP == 6
    ll off = choice("offset", -1, 1);
    auto x = c.many(NV, VLO, VHI), q = c.many(NV, off - 1, off + NV - 1);
    p.post(ArgSort{Csp::ids(x), Csp::ids(q), Integer{off}});
    c.check([=](const V & a) -> ll {
        // position of i: how many come before it
        ll r = 1;
        for (int i = 0; i < NV; ++i) {
            ll before = 0, here = 0;
            for (int k = 0; k < NV; ++k)
                if (k != i)
                    before += k < i ? x[k](a) <= x[i](a) : x[k](a) < x[i](a);
            for (int j = 0; j < NV; ++j)
                here = symx_or(here, symx_and(before == j, q[j](a) == i + off));
            r = symx_and(r, here);
        }
        return r;
    });
#endif
}
