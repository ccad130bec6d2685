// Difference graphs: simplification keeps the relation, and the incremental algorithms agree with their definitions.
#include "hutil.h"
#include <gcs/constraints/difference/difference_incremental.hh>
#include <gcs/constraints/difference/difference_simplify.hh>
#include <vector>
using namespace gcs;
using namespace gcs::innards;
namespace
{
    constexpr ll INF = 1000;
    ll pick(bool c, ll a, ll b) { return symx_ite(c, a, b); }
    ll least(ll a, ll b) { return pick(a < b, a, b); }
    struct E
    {
        unsigned from, to;
        ll d;
    };
    // shortest distances by Floyd-Warshall, without branching; neg is set when there is a negative cycle
    std::vector<std::vector<ll>> distances(unsigned n, const std::vector<E> & es, const std::vector<bool> & use, bool & neg)
    {
        std::vector<std::vector<ll>> D(n, std::vector<ll>(n, INF));
        for (unsigned i = 0; i < n; ++i)
            D[i][i] = 0;
        for (unsigned e = 0; e < es.size(); ++e)
            if (use[e])
                D[es[e].from][es[e].to] = least(D[es[e].from][es[e].to], es[e].d);
        for (unsigned k = 0; k < n; ++k)
            for (unsigned i = 0; i < n; ++i)
                for (unsigned j = 0; j < n; ++j)
                    D[i][j] = pick((D[i][k] < INF / 2) & (D[k][j] < INF / 2), least(D[i][j], D[i][k] + D[k][j]), D[i][j]);
        neg = false;
        for (unsigned i = 0; i < n; ++i)
            neg |= D[i][i] < 0;
        return D;
    }
    std::vector<E> graph(unsigned n, int m, int range)
    {
        std::vector<E> es;
        for (int i = 0; i < m; ++i) {
            unsigned from = 0, to = n > 1 ? 1 : 0;
            if (i > 0) {
                // the last edge may be a loop
                int c = choice("edge", 0, (i == m - 1) ? n * n - 1 : n * (n - 1) - 1);
                if (c < (int)(n * (n - 1))) {
                    from = c / (n - 1);
                    to = c % (n - 1);
                    to += to >= from;
                }
                else
                    from = to = c - n * (n - 1);
            }
            es.push_back({from, to, symx_range("d", -range, range)});
        }
        return es;
    }
}
extern "C" void harness_main()
{
    unsigned n = NODES;
#if MODE == 0
    int m = choice("edges", 1, EDGES);
    auto es = graph(n, m, 3);
    std::vector<DifferenceSimplifyEdge> ge;
    std::vector<DifferenceSimplifyRole> roles;
    std::vector<bool> base, live;
    for (auto & e : es) {
        ge.push_back({e.from, e.to, Integer{e.d}});
        int r = choice("role", 0, ge.size() == 1 ? 2 : 1);
        roles.push_back(r == 0 ? DifferenceSimplifyRole::Base : r == 1 ? DifferenceSimplifyRole::Candidate : DifferenceSimplifyRole::Ignored);
        base.push_back(r == 0);
    }
    auto o = simplify_difference_graph(n, ge, roles);
    bool neg;
    auto D = distances(n, es, base, neg);
    symx_assert(o.base_negative_cycle == symx_branch(neg), "a contradiction among the certain edges is reported exactly when there is one");
    if (neg) {
        symx_reach("contradiction");
        symx_stop();
    }
    symx_assert(o.remove.size() == es.size(), "every edge is decided");
    ll x[4];
    for (unsigned i = 0; i < n; ++i)
        x[i] = symx_range("x", -16, 16);
    bool kept_hold = true;
    for (unsigned e = 0; e < es.size(); ++e)
        if (base[e] && ! o.remove[e])
            kept_hold &= x[es[e].from] - x[es[e].to] <= es[e].d;
    for (unsigned e = 0; e < es.size(); ++e) {
        if (o.remove[e]) {
            symx_reach("removed");
            symx_assert(! kept_hold | (x[es[e].from] - x[es[e].to] <= es[e].d), "an edge that is dropped is implied by the certain edges kept");
            symx_assert(roles[e] != DifferenceSimplifyRole::Ignored, "an ignored edge is left alone");
        }
        else if (base[e]) {
            symx_assert(es[e].d <= D[es[e].from][es[e].to], "an edge a shorter path implies is dropped");
            for (unsigned f = 0; f < e; ++f)
                if (base[f] && ! o.remove[f] && es[f].from == es[e].from && es[f].to == es[e].to)
                    symx_assert(es[e].d != es[f].d, "one of several equal edges is kept");
        }
        else if (roles[e] == DifferenceSimplifyRole::Candidate)
            symx_assert(es[e].d < D[es[e].from][es[e].to], "a conditional edge that adds nothing is dropped");
    }
    std::vector<bool> fixed(es.size(), false);
    for (auto & [e, path] : o.fix) {
        symx_reach("condition fixed");
        symx_assert(e < es.size() && roles[e] == DifferenceSimplifyRole::Candidate && ! o.remove[e] && ! fixed[e], "a condition is fixed once, for a conditional edge kept");
        fixed[e] = true;
        symx_assert(! kept_hold | (x[es[e].from] - x[es[e].to] > es[e].d), "a condition is fixed false only if its edge contradicts the certain edges");
        ll total = es[e].d;
        unsigned at = es[e].to;
        for (auto p : path) {
            symx_assert(p < es.size() && base[p] && es[p].from == at, "the witness is a path of certain edges");
            at = es[p].to;
            total += es[p].d;
        }
        symx_assert(at == es[e].from, "the witness leads back to the start of the edge");
        symx_assert(total < 0, "the witness closes a negative cycle");
    }
    for (unsigned e = 0; e < es.size(); ++e)
        if (roles[e] == DifferenceSimplifyRole::Candidate && ! o.remove[e] && ! fixed[e])
            symx_assert(es[e].d + D[es[e].to][es[e].from] >= 0, "a condition that must be false is fixed");
    ll cycles = 0, nodes = 0;
    for (unsigned i = 0; i < n; ++i) {
        bool on = false, first = true;
        for (unsigned j = 0; j < n; ++j)
            if (j != i) {
                bool same = D[i][j] + D[j][i] == 0;
                on |= same;
                if (j < i)
                    first &= ! same;
            }
        nodes += on;
        cycles += on & first;
    }
    symx_assert(((ll)o.zero_weight_cycles == cycles) & ((ll)o.nodes_on_zero_weight_cycles == nodes), "groups of variables at fixed distances are counted");
#else
    int m = choice("arcs", 1, EDGES);
    auto es = graph(n, m, 4);
    std::vector<DifferenceArc> arcs;
    for (auto & e : es)
        arcs.push_back({e.from, e.to, Integer{e.d}, 0});
    for (bool tail : {false, true}) {
        auto a = build_difference_adjacency(n, arcs, tail);
        symx_assert(a.start.size() == n + 1 && a.arcs.size() == arcs.size() && a.start[0] == 0 && a.start[n] == arcs.size(), "the adjacency holds every arc");
        std::vector<int> seen(arcs.size(), 0);
        for (unsigned v = 0; v < n; ++v)
            for (auto i = a.start[v]; i < a.start[v + 1]; ++i) {
                symx_assert((tail ? arcs[a.arcs[i]].from : arcs[a.arcs[i]].to) == v, "an arc is found at its end");
                ++seen[a.arcs[i]];
            }
        for (auto s : seen)
            symx_assert(s == 1, "an arc is found once");
    }
    std::vector<char> active;
    std::vector<bool> use(m, true);
    if (choice("all_active", 0, 1) == 0)
        for (int i = 0; i < m; ++i)
            active.push_back(use[i] = (i == m - 1) ? true : choice("active", 0, 1));
    auto ok = [&](const std::vector<Integer> & p, bool last) {
        bool r = true;
        for (int i = 0; i < m; ++i)
            if (use[i] && (last || i < m - 1))
                r &= p[es[i].from].raw_value + es[i].d - p[es[i].to].raw_value >= 0;
        return r;
    };
#if MODE == 1
    bool neg;
    distances(n, es, use, neg);
    auto p = difference_initial_potential(n, arcs, active);
    symx_assert(p.has_value() == ! symx_branch(neg), "there are potentials exactly when there is no negative cycle");
    if (p) {
        symx_reach("potential");
        symx_assert(p->size() == n && ok(*p, true), "the potentials are valid for every active arc");
        symx_assert(! difference_invalid_potential_arc(arcs, active, *p), "valid potentials pass the audit");
    }
    std::vector<Integer> q;
    for (unsigned i = 0; i < n; ++i)
        q.push_back(Integer{symx_range("q", -8, 8)});
    auto bad = difference_invalid_potential_arc(arcs, active, q);
    symx_assert(! bad == ok(q, true), "invalid potentials are found out");
    symx_assert(! bad || (use[*bad] && q[es[*bad].from].raw_value + es[*bad].d - q[es[*bad].to].raw_value < 0), "the offending arc offends");
#elif MODE == 2
    // repair, from any potentials valid without the last arc; twice, to see that nothing is left behind
    std::vector<Integer> q;
    for (unsigned i = 0; i < n; ++i)
        q.push_back(Integer{symx_range("q", -8, 8)});
    symx_assume(ok(q, false));
    auto by_tail = build_difference_adjacency(n, arcs, true);
    DifferencePotentialWorkspace work;
    bool neg;
    distances(n, es, use, neg);
    auto p = q;
    bool r = difference_repair_potential(n, arcs, by_tail, active, p, m - 1, work);
    symx_assert(r == ! symx_branch(neg), "an arc is refused exactly when it closes a negative cycle");
    if (r) {
        symx_reach("repaired");
        symx_assert(ok(p, true), "repaired potentials are valid for every active arc");
    }
    else {
        symx_reach("negative cycle");
        bool same = true;
        for (unsigned i = 0; i < n; ++i)
            same &= p[i].raw_value == q[i].raw_value;
        symx_assert(same, "potentials are left alone when the arc is refused");
    }
    auto p2 = q;
    bool r2 = difference_repair_potential(n, arcs, by_tail, active, p2, m - 1, work);
    bool same = r2 == r;
    for (unsigned i = 0; i < n; ++i)
        same &= p2[i].raw_value == p[i].raw_value;
    symx_assert(same, "nothing of one repair is left over in the next");
#else
    // bounds: the least fixpoint above the given bounds, from any gate the previous run may have left
    bool by_tail = choice("by_tail", 0, 1);
    auto adj = build_difference_adjacency(n, arcs, by_tail);
    std::vector<Integer> pot, bound, gate;
    std::vector<char> forced(n, 0);
    for (unsigned i = 0; i < n; ++i) {
        // adding a constant to all of either changes nothing
        pot.push_back(Integer{i ? symx_range("q", -8, 8) : 0});
        bound.push_back(Integer{i ? symx_range("bound", -8, 8) : 0});
        gate.push_back(Integer{symx_range("gate", -8, 8)});
    }
    symx_assume(ok(pot, true));
    auto src = [&](int i) { return by_tail ? es[i].from : es[i].to; };
    auto dst = [&](int i) { return by_tail ? es[i].to : es[i].from; };
    if (! by_tail)
        for (auto & p : pot)
            p = -p;
    bool inv = true;
    for (unsigned i = 0; i < n; ++i)
        inv &= gate[i].raw_value <= bound[i].raw_value;
    bool new_arc = choice("just_activated", 0, 1);
    if (new_arc)
        forced[src(m - 1)] = 1;
    for (int i = 0; i < m; ++i)
        if (use[i] && ! (new_arc && i == m - 1))
            inv &= gate[dst(i)].raw_value >= gate[src(i)].raw_value - es[i].d;
    symx_assume(inv);
    DifferenceBoundsWorkspace work;
    std::vector<Integer> earlier;
    for (int round = 0; round < 2; ++round) {
        difference_incremental_bounds(n, arcs, adj, by_tail, active, pot, bound, gate, forced, work);
        auto result = bound;
        std::vector<int> at(n, -1);
        for (unsigned k = 0; k < work.settle_order.size(); ++k) {
            auto v = work.settle_order[k];
            symx_assert(v < n && at[v] == -1, "a node is settled once");
            at[v] = (int)k;
            result[v] = Integer{pick(work.settled_bound[v].raw_value > bound[v].raw_value, work.settled_bound[v].raw_value, bound[v].raw_value)};
            symx_reach("settled");
        }
        bool closed = true, justified = true;
        for (unsigned v = 0; v < n; ++v) {
            if (at[v] >= 0) {
                if (work.has_predecessor[v]) {
                    auto e = work.predecessor[v];
                    symx_assert(e < (unsigned)m && use[e] && dst(e) == v && at[src(e)] >= 0 && at[src(e)] < at[v], "a bound comes across an active arc from a node settled before");
                    justified &= work.settled_bound[v].raw_value == work.settled_bound[src(e)].raw_value - es[e].d;
                }
                else
                    justified &= work.settled_bound[v].raw_value == bound[v].raw_value;
            }
        }
        for (int i = 0; i < m; ++i)
            if (use[i])
                closed &= result[dst(i)].raw_value >= result[src(i)].raw_value - es[i].d;
        symx_assert(justified & closed, "every bound follows from those it came from, and no active arc can tighten them any more");
        if (round == 1) {
            bool same = true;
            for (unsigned v = 0; v < n; ++v)
                same &= result[v].raw_value == earlier[v].raw_value;
            symx_assert(same, "nothing of one run is left over in the next");
            break;
        }
        earlier = result;
        // what the caller does next
        bool i1 = true, i2 = true;
        auto g = gate;
        for (auto v : work.settle_order)
            g[v] = Integer{pick(work.settled_bound[v].raw_value > gate[v].raw_value, work.settled_bound[v].raw_value, gate[v].raw_value)};
        for (unsigned v = 0; v < n; ++v)
            i1 &= g[v].raw_value <= result[v].raw_value;
        for (int i = 0; i < m; ++i)
            if (use[i])
                i2 &= g[dst(i)].raw_value >= g[src(i)].raw_value - es[i].d;
        symx_assert(i1 & i2, "what the next run relies on holds");
    }
#endif
#endif
}
