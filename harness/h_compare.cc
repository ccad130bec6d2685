// Comparisons and equality, plain or reified: solutions are exactly the assignments that satisfy the relation.
#include "csp.h"
#include <gcs/constraints/comparison.hh>
#include <gcs/constraints/equals.hh>
#ifndef CTOP
#define CTOP 2
#endif
#ifndef BOUND
#define BOUND 3
#endif
static void body(Csp & c)
{
    H x = c.any(-BOUND, BOUND), y = c.any(-BOUND, BOUND);
    int w = choice("relation", 0, 5);
    auto rel = [=](const V & a) -> ll { ll p = x(a), q = y(a); return w == 0 ? p < q : w == 1 ? p <= q : w == 2 ? p > q : w == 3 ? p >= q : w == 4 ? p == q : p != q; };
    auto & p = c.p;
#if MODE == 0
    switch (w) {
    case 0: p.post(LessThan{x.id, y.id}); break;
    case 1: p.post(LessThanEqual{x.id, y.id}); break;
    case 2: p.post(GreaterThan{x.id, y.id}); break;
    case 3: p.post(GreaterThanEqual{x.id, y.id}); break;
    case 4: p.post(Equals{x.id, y.id}); break;
    case 5: p.post(NotEquals{x.id, y.id}); break;
    }
    c.check(rel);
#else
    auto [d, holds] = c.condition(CTOP);
    bool iff = choice("both ways", 0, 1);
    if (iff)
        switch (w) {
        case 0: p.post(LessThanIff{x.id, y.id, d}); break;
        case 1: p.post(LessThanEqualIff{x.id, y.id, d}); break;
        case 2: p.post(GreaterThanIff{x.id, y.id, d}); break;
        case 3: p.post(GreaterThanEqualIff{x.id, y.id, d}); break;
        case 4: p.post(EqualsIff{x.id, y.id, d}); break;
        case 5: p.post(NotEqualsIff{x.id, y.id, d}); break;
        }
    else
        switch (w) {
        case 0: p.post(LessThanIf{x.id, y.id, d}); break;
        case 1: p.post(LessThanEqualIf{x.id, y.id, d}); break;
        case 2: p.post(GreaterThanIf{x.id, y.id, d}); break;
        case 3: p.post(GreaterThanEqualIf{x.id, y.id, d}); break;
        case 4: p.post(EqualsIf{x.id, y.id, d}); break;
        case 5: p.post(NotEqualsIf{x.id, y.id, d}); break;
        }
    c.check([=, holds = holds](const V & a) -> ll { ll r = rel(a), t = holds(a); return iff ? (ll)(r == t) : symx_or(! t, r); });
#endif
}
