// Small constraint problems with arbitrary constants, solved completely by the real solver and compared with the
// constraint's meaning at every assignment.
#pragma once
#include "hutil.h"
#include <functional>
#include <gcs/problem.hh>
#include <gcs/solve.hh>
#include <gcs/stats.hh>
#include <gcs/consistency.hh>
#include <gcs/current_state.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/restarts.hh>
#include <gcs/exception.hh>
#include <gcs/reification.hh>
#include <optional>
#include <vector>
using namespace gcs;
typedef std::vector<ll> V;
inline IntegerVariableCondition always_true() { return constant_variable(0_i) == 0_i; }
// A handle on a variable, and what it stands for
struct H
{
    IntegerVariableID id = constant_variable(0_i);
    int u = -1;
    ll sign = 1, off = 0;
};
enum Consistency { NOTHING, BOUNDS, DOMAIN };
struct Complete
{
    Problem p;
    std::vector<SimpleIntegerVariableID> vars;
    std::vector<V> dom;
    int odd = 0; // how many handles may be unusual
    bool proof = false;
    SolveCallbacks cb;
    Consistency consistency = NOTHING;
    std::vector<H> must; // handles whose domains are checked for consistency
    H make(V d, bool interval)
    {
        std::vector<Integer> vals;
        for (ll x : d)
            vals.push_back(Integer{x});
        vars.push_back(interval ? p.create_integer_variable(Integer{d.front()}, Integer{d.back()}) : p.create_integer_variable(vals));
        dom.push_back(d);
        return H{vars.back(), (int)vars.size() - 1, 1, 0};
    }
    H var(ll lo, ll hi)
    {
        V d;
        for (ll x = lo; x <= hi; ++x)
            d.push_back(x);
        return make(d, true);
    }
    H holed(ll lo, ll hi)
    {
        ll hole = choice("hole", lo + 1, hi - 1);
        V d;
        for (ll x = lo; x <= hi; ++x)
            if (x != hole)
                d.push_back(x);
        return make(d, false);
    }
    // An ordinary variable, or one with a hole, a view, a constant, or a handle already in use
    H any(ll lo, ll hi)
    {
        int k = odd > 0 ? choice("handle", 0, 5) : 0;
        if (k)
            --odd;
        if (k == 1 && hi - lo < 2)
            symx_stop();
        switch (k) {
        case 1: return holed(lo, hi);
        case 2: {
            H h = var(-hi, -lo);
            return H{-h.id, h.u, -1, 0};
        }
        case 3: {
            H h = var(lo, hi);
            ll o = symx_range("offset", -2, 2);
            return H{h.id + Integer{o}, h.u, 1, o};
        }
        case 4: {
            ll c = symx_range("constant", lo, hi);
            return H{constant_variable(Integer{c}), -1, 1, c};
        }
        case 5: {
            if (vars.empty())
                symx_stop();
            int u = choice("same as", 0, (int)vars.size() - 1);
            if (choice("negated", 0, 1))
                return H{-IntegerVariableID{vars[u]} + 1_i, u, -1, 1};
            return H{vars[u], u, 1, 0};
        }
        }
        return var(lo, hi);
    }
    // A condition to reify on, and whether it holds
    std::pair<IntegerVariableCondition, std::function<ll(const V &)>> condition()
    {
        H r = var(0, 2);
        int k = choice("condition", 0, 5);
        ll v = symx_range("condition value", -1, 3);
        if (k == 5) {
            ll w = symx_range("condition upper", -1, 3);
            symx_assume(w > v);
            return {in_range(r.id, Integer{v}, Integer{w}), [=](const V & a) { return symx_and(a[r.u] >= v, a[r.u] <= w); }};
        }
        IntegerVariableCondition c = k == 0 ? r.id == Integer{v} : k == 1 ? r.id != Integer{v} : k == 2 ? r.id < Integer{v} : k == 3 ? r.id >= Integer{v} : r.id > Integer{v};
        return {c, [=](const V & a) { ll x = a[r.u]; return (ll)(k == 0 ? x == v : k == 1 ? x != v : k == 2 ? x < v : k == 3 ? x >= v : x > v); }};
    }
    static ll val(const H & h, const V & a) { return h.u < 0 ? h.off : h.sign * a[h.u] + h.off; }
    size_t index(const V & a) const
    {
        size_t r = 0;
        for (size_t i = 0; i < vars.size(); ++i)
            r = r * (dom[i].back() - dom[i].front() + 1) + (a[i] - dom[i].front());
        return r;
    }
    bool first(V & a) const
    {
        a.clear();
        for (auto & d : dom)
            a.push_back(d[0]);
        return true;
    }
    bool next(V & a) const
    {
        for (size_t i = vars.size(); i-- > 0;) {
            size_t j = std::find(dom[i].begin(), dom[i].end(), a[i]) - dom[i].begin();
            if (j + 1 < dom[i].size()) {
                a[i] = dom[i][j + 1];
                return true;
            }
            a[i] = dom[i][0];
        }
        return false;
    }
    V assignment(const CurrentState & s)
    {
        V a;
        for (size_t i = 0; i < vars.size(); ++i) {
            symx_assert(s.has_single_value(vars[i]), "every variable has a value in a solution");
            a.push_back(symx_concretize(s(vars[i]).raw_value));
            symx_assert(std::find(dom[i].begin(), dom[i].end(), a.back()) != dom[i].end(), "values are in their domains");
        }
        return a;
    }
    // every value (or bound) left in a domain is part of some solution within the domains left
    template <typename F_>
    void check_consistency(const CurrentState & s, F_ meaning)
    {
        std::vector<V> live(vars.size());
        for (size_t i = 0; i < vars.size(); ++i)
            for (ll v : dom[i])
                if (s.in_domain(vars[i], Integer{v}))
                    live[i].push_back(v);
        std::vector<std::vector<ll>> support(vars.size());
        std::vector<std::vector<ll>> values(vars.size());
        for (size_t i = 0; i < vars.size(); ++i) {
            symx_assert(! live[i].empty(), "no domain is empty after propagation");
            if (live[i].empty())
                symx_stop();
            bool hull = consistency == BOUNDS;
            for (ll v = hull ? live[i].front() : 0; hull && v <= live[i].back(); ++v)
                values[i].push_back(v);
            if (! hull)
                values[i] = live[i];
            support[i].assign(values[i].size(), 0);
        }
        std::vector<size_t> at(vars.size(), 0);
        V a(vars.size());
        while (true) {
            for (size_t i = 0; i < vars.size(); ++i)
                a[i] = values[i][at[i]];
            ll m = meaning(a) != 0;
            for (size_t i = 0; i < vars.size(); ++i)
                support[i][at[i]] = symx_or(support[i][at[i]], m);
            size_t i = vars.size();
            while (i-- > 0) {
                if (++at[i] < values[i].size())
                    break;
                at[i] = 0;
            }
            if (i == (size_t)-1)
                break;
        }
        for (auto & h : must)
            if (h.u >= 0)
                for (size_t j = 0; j < values[h.u].size(); ++j)
                    if (consistency == DOMAIN || j == 0 || j + 1 == values[h.u].size())
                        symx_assert(support[h.u][j], consistency == DOMAIN ? "every value left has a support" : "every bound left has a support");
    }
    // Every assignment is found exactly as often as it should be: once if it satisfies the meaning, never otherwise.
    template <typename F_>
    void check(F_ meaning)
    {
        size_t total = 1;
        for (auto & d : dom)
            total *= d.back() - d.front() + 1;
        std::vector<int> found(total, 0);
        cb.stats_report = silent_stats_report();
        bool completed = false;
        cb.completed = [&] { completed = true; };
        cb.solution = [&](const CurrentState & s) {
            ++found[index(assignment(s))];
            return true;
        };
        if (consistency != NOTHING)
            cb.trace = [&](const CurrentState & s) {
                check_consistency(s, meaning);
                return true;
            };
        solve_with(p, cb);
        symx_assert(completed, "the search completes");
        V a;
        first(a);
        do {
            ll want = meaning(a);
            size_t n = index(a);
            if (found[n] > 1)
                symx_assert(0, "a solution is found once");
            else if (found[n])
                symx_assert(want, "every assignment found is a solution");
            else
                symx_assert(! want, "every solution is found");
        } while (next(a));
        symx_reach("solved");
    }
};
