// The interval tree: a query visits exactly the matching stored intervals, once each, in order.
#include "hutil.h"
#include <gcs/innards/interval_tree.hh>

#include <vector>
using namespace gcs;
using namespace gcs::innards;
// only the order matters, but the ends may be far apart
static ll end(const char * name, bool wide)
{
    ll x = symx_range(name, -8, 7);
    return wide ? x * (1ll << 60) : x;
}
extern "C" void harness_main()
{
    int n = choice("n", 0, NMAX);
    bool wide = choice("wide", 0, 1);
    ll lo[8], hi[8];
    IntervalTree t;
    for (int i = 0; i < n; ++i) {
        lo[i] = end("lo", wide);
        hi[i] = end("hi", wide);
        symx_assume(lo[i] <= hi[i]);
        t.insert(Integer{lo[i]}, Integer{hi[i]});
    }
    ll ql = end("qlo", wide), qh = end("qhi", wide);
    symx_assume(ql <= qh);
    bool outer = choice("containing", 0, 1);
    std::vector<std::pair<ll, ll>> seen;
    auto visit = [&](Integer l, Integer h) { seen.emplace_back(l.raw_value, h.raw_value); };
    if (outer)
        t.for_each_containing(Integer{ql}, Integer{qh}, visit);
    else
        t.for_each_contained_in(Integer{ql}, Integer{qh}, visit);
    if (! seen.empty())
        symx_reach("visited");
    for (std::size_t i = 0; i < seen.size(); ++i) {
        auto [l, h] = seen[i];
        symx_assert(outer ? (l <= ql) & (h >= qh) : (l >= ql) & (h <= qh), "a visited interval matches the query");
        bool stored = false;
        for (int j = 0; j < n; ++j)
            stored |= (lo[j] == l) & (hi[j] == h);
        symx_assert(stored, "a visited interval was stored");
        for (std::size_t j = 0; j < i; ++j)
            symx_assert((seen[j].first < l) | ((seen[j].first == l) & (seen[j].second < h)), "intervals are visited once each, in order");
    }
    for (int j = 0; j < n; ++j) {
        bool match = outer ? (lo[j] <= ql) & (hi[j] >= qh) : (lo[j] >= ql) & (hi[j] <= qh), found = false;
        for (auto [l, h] : seen)
            found |= (l == lo[j]) & (h == hi[j]);
        symx_assert(! match | found, "every stored interval matching the query is visited");
    }
}
