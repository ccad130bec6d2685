// Linear constraints: solutions are exactly the assignments that satisfy the relation, whatever the reification.
#include "csp.h"
#include <gcs/constraints/linear.hh>
#ifndef NVARS
#define NVARS 2
#endif
#ifndef BOUND
#define BOUND 8
#endif
static void body(Csp & c)
{
    // unit coefficients, mixed signs, a common factor, none of one variable
    static const int shapes[][3] = {{1, 1, 1}, {1, -1, -1}, {2, 3, -2}, {-3, 1, 2}, {-2, -4, 2}, {0, -2, 3}};
    int shape = choice("coefficients", 0, 5);
    std::vector<H> h;
    V co;
    WeightedSum sum;
    for (int i = 0; i < NVARS; ++i) {
        h.push_back(c.any(-BOUND, BOUND));
        co.push_back(shapes[shape][i]);
        sum += Integer{co.back()} * h.back().id;
    }
    ll k = symx_range("value", -4 * BOUND, 4 * BOUND);
    auto lhs = [=](const V & a) {
        ll r = 0;
        for (int i = 0; i < NVARS; ++i)
            r += co[i] * h[i](a);
        return r;
    };
#if MODE == 0 // plain
    int w = choice("relation", 0, 4);
    switch (w) {
    case 0: c.p.post(LinearEquality{sum, Integer{k}}); break;
    case 1: {
        auto e = LinearEquality{sum, Integer{k}};
        e.with_consistency(consistency::Tabulated{});
        c.p.post(e);
        break;
    }
    case 2: c.p.post(LinearNotEquals{sum, Integer{k}}); break;
    case 3: c.p.post(LinearLessThanEqual{sum, Integer{k}, choice("incremental", 0, 1) ? std::optional<size_t>{1} : std::nullopt}); break;
    case 4: c.p.post(LinearGreaterThanEqual{sum, Integer{k}, choice("incremental", 0, 1) ? std::optional<size_t>{1} : std::nullopt}); break;
    }
    c.check([=](const V & a) -> ll { ll l = lhs(a); return w < 2 ? l == k : w == 2 ? l != k : w == 3 ? l <= k : l >= k; });
#else
    auto [cond, holds] = c.condition();
    int w = choice("relation", 0, 3), iff = choice("both ways", 0, 1);
    Integer K{k};
    if (iff)
        switch (w) {
        case 0: c.p.post(LinearEqualityIff{sum, K, cond}); break;
        case 1: c.p.post(LinearNotEqualsIff{sum, K, cond}); break;
        case 2: c.p.post(LinearLessThanEqualIff{sum, K, cond}); break;
        case 3: c.p.post(LinearGreaterThanEqualIff{sum, K, cond}); break;
        }
    else
        switch (w) {
        case 0: c.p.post(LinearEqualityIf{sum, K, cond}); break;
        case 1: c.p.post(LinearNotEqualsIf{sum, K, cond}); break;
        case 2: c.p.post(LinearLessThanEqualIf{sum, K, cond}); break;
        case 3: c.p.post(LinearGreaterThanEqualIf{sum, K, cond}); break;
        }
    c.check([=, holds = holds](const V & a) -> ll {
        ll l = lhs(a), r = w == 0 ? l == k : w == 1 ? l != k : w == 2 ? l <= k : l >= k, t = holds(a);
        return iff ? (ll)(r == t) : symx_or(! t, r);
    });
#endif
}
