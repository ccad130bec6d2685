// A constraint over variables with arbitrary domains, an arbitrary assignment of values from them, and a search that is
// led towards that assignment: it has to be reached as a solution exactly if it satisfies the constraint.
#pragma once
#include "hutil.h"
#include <functional>
#include <gcs/consistency.hh>
#include <gcs/current_state.hh>
#include <gcs/exception.hh>
#include <gcs/problem.hh>
#include <gcs/reification.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/solve.hh>
#include <gcs/stats.hh>
#include <optional>
#include <vector>
using namespace gcs;
typedef std::vector<ll> V;
// A handle on a variable, and what it stands for: sign * value + off
struct H
{
    IntegerVariableID id = constant_variable(0_i);
    int u = -1;
    ll sign = 1, off = 0;
    ll operator()(const V & a) const { return u < 0 ? off : sign * a[u] + off; }
};
typedef std::function<ll(const V &)> Meaning;
enum Consistency { NOTHING, BOUNDS, DOMAIN };
enum Kind { PLAIN, HOLED, NEGATED, OFFSET, CONSTANT, ALIAS };
struct Csp
{
    Problem p;
    std::vector<SimpleIntegerVariableID> vars;
    std::vector<std::pair<ll, ll>> hull; // concrete
    std::vector<std::function<ll(ll)>> inside;
    V a;
    int odd = 0;                             // how many handles may be unusual
    int kinds = 63;                          // which kinds those may be, besides ordinary ones
    bool concrete = false;                   // enumerate domain bounds rather than keep them symbolic
    bool fixed_bounds = false;               // domains are the whole hulls
    int partial = 0;                         // how many guesses narrow domains before values are guessed
    Consistency consistency = NOTHING;
    std::vector<H> must;
    Csp()
    {
#ifdef ODD
        odd = ODD;
#endif
#ifdef KINDS
        kinds = KINDS;
#endif
#ifdef PARTIAL
        partial = PARTIAL;
#endif
#ifdef CONCRETE
        concrete = CONCRETE;
#endif
#ifdef FIXED
        fixed_bounds = FIXED;
#endif
#ifdef CONSISTENCY
        consistency = CONSISTENCY;
#endif
    }
    ll some(const char * n, ll lo, ll hi)
    {
        if (lo >= hi)
            return lo;
        ll x = symx_range(n, lo, hi);
        return concrete ? symx_concretize(x) : x;
    }
    H make(ll lo, ll hi, bool holed = false)
    {
        ll l = fixed_bounds ? lo : some("lower", lo, hi), h = fixed_bounds ? hi : some("upper", lo, hi);
        symx_assume(l <= h);
        ll v = symx_range("value", lo, hi);
        symx_assume(symx_and(v >= l, v <= h));
        int u = (int)vars.size();
        if (holed) {
            l = symx_concretize(l);
            h = symx_concretize(h);
            if (h - l < 2)
                symx_stop();
            ll hole = choice("hole", l + 1, h - 1);
            symx_assume(v != hole);
            std::vector<Integer> vals;
            for (ll x = l; x <= h; ++x)
                if (x != hole)
                    vals.push_back(Integer{x});
            vars.push_back(p.create_integer_variable(vals));
            inside.push_back([=](ll x) { return symx_and(symx_and(x >= l, x <= h), x != hole); });
        }
        else {
            vars.push_back(p.create_integer_variable(Integer{l}, Integer{h}));
            inside.push_back([=](ll x) { return symx_and(x >= l, x <= h); });
        }
        hull.emplace_back(lo, hi);
        a.push_back(v);
        return H{vars.back(), u, 1, 0};
    }
    // An ordinary variable, or one with a hole, a view, a constant, or a handle already in use
    H any(ll lo, ll hi)
    {
        int k = odd > 0 ? choice("handle", 0, 5) : 0;
        if (k && ! (kinds >> k & 1))
            symx_stop();
        if (k)
            --odd;
        switch (k) {
        case HOLED: return make(lo, hi, true);
        case NEGATED: {
            H h = make(-hi, -lo);
            return H{-h.id, h.u, -1, 0};
        }
        case OFFSET: {
            H h = make(lo, hi);
            ll o = symx_range("offset", -2, 2);
            if (concrete)
                o = symx_concretize(o);
            return H{h.id + Integer{o}, h.u, 1, o};
        }
        case CONSTANT: {
            ll c = symx_range("constant", lo, hi);
            if (concrete)
                c = symx_concretize(c);
            return H{constant_variable(Integer{c}), -1, 1, c};
        }
        case ALIAS: {
            if (vars.empty())
                symx_stop();
            aliased = true;
            int u = choice("same as", 0, (int)vars.size() - 1);
            if (choice("negated", 0, 1))
                return H{-IntegerVariableID{vars[u]} + 1_i, u, -1, 1};
            return H{vars[u], u, 1, 0};
        }
        }
        return make(lo, hi);
    }
    std::vector<H> many(int n, ll lo, ll hi)
    {
        std::vector<H> r;
        for (int i = 0; i < n; ++i)
            r.push_back(any(lo, hi));
        return r;
    }
    static std::vector<IntegerVariableID> ids(const std::vector<H> & h)
    {
        std::vector<IntegerVariableID> r;
        for (auto & x : h)
            r.push_back(x.id);
        return r;
    }
    ll constant(const char * n, ll lo, ll hi)
    {
        return some(n, lo, hi);
    }
    // A condition to reify on, and whether it holds
    std::pair<IntegerVariableCondition, Meaning> condition(ll top = 2)
    {
        H r;
        if (odd > 0 && (kinds >> ALIAS & 1) && ! vars.empty() && choice("condition on a variable in use", 0, 1)) {
            --odd;
            aliased = true;
            r.u = choice("which", 0, (int)vars.size() - 1);
            r.id = vars[r.u];
        }
        else
            r = make(0, top);
        int k = choice("condition", 0, 5);
        ll v = some("condition value", -1, top + 1);
        if (k == 5) {
            ll w = some("condition upper", -1, top + 1);
            symx_assume(w > v);
            return {in_range(r.id, Integer{v}, Integer{w}), [=](const V & a) { return symx_and(a[r.u] >= v, a[r.u] <= w); }};
        }
        IntegerVariableCondition c = k == 0 ? r.id == Integer{v} : k == 1 ? r.id != Integer{v} : k == 2 ? r.id < Integer{v} : k == 3 ? r.id >= Integer{v} : r.id > Integer{v};
        return {c, [=](const V & a) -> ll { ll x = a[r.u]; return k == 0 ? x == v : k == 1 ? x != v : k == 2 ? x < v : k == 3 ? x >= v : x > v; }};
    }
    // every value (or bound) left in a domain is part of some solution within the domains left
    void check_consistency(const CurrentState & s, const Meaning & meaning)
    {
        size_t n = vars.size();
        std::vector<V> values(n), support(n);
        for (size_t i = 0; i < n; ++i) {
            auto [lo, hi] = hull[i];
            for (ll v = lo; v <= hi; ++v)
                if (s.in_domain(vars[i], Integer{v}))
                    values[i].push_back(v);
            symx_assert(! values[i].empty(), "no domain is empty after propagation");
            if (values[i].empty())
                symx_stop();
            if (consistency == BOUNDS) {
                ll f = values[i].front(), l = values[i].back();
                values[i].clear();
                for (ll v = f; v <= l; ++v)
                    values[i].push_back(v);
            }
            support[i].assign(values[i].size(), 0);
        }
        std::vector<size_t> at(n, 0);
        V b(n);
        while (true) {
            for (size_t i = 0; i < n; ++i)
                b[i] = values[i][at[i]];
            ll m = meaning(b) != 0;
            for (size_t i = 0; i < n; ++i)
                support[i][at[i]] = symx_or(support[i][at[i]], m);
            size_t i = n;
            while (i-- > 0) {
                if (++at[i] < values[i].size())
                    break;
                at[i] = 0;
            }
            if (i == (size_t)-1)
                break;
        }
        if (must.empty())
            for (size_t i = 0; i < n; ++i)
                must.push_back(H{vars[i], (int)i, 1, 0});
        for (auto & h : must)
            if (h.u >= 0)
                for (size_t j = 0; j < values[h.u].size(); ++j)
                    if (consistency == DOMAIN || j == 0 || j + 1 == values[h.u].size())
                        symx_assert(support[h.u][j], consistency == DOMAIN ? "every value left has a support" : "every bound left has a support");
    }
    bool aliased = false; // variables used twice may be refused
    void check(const Meaning & meaning)
    {
        size_t n = vars.size();
        ll want = meaning(a) != 0;
        bool reached = false, completed = false;
        // narrowing guesses, all true of the assignment
        std::vector<IntegerVariableCondition> narrow;
        std::vector<int> on;
        int g = partial && n ? choice("narrowing guesses", 0, partial) : 0;
        for (int k = 0; k < g; ++k) {
            int i = choice("narrowed", 0, (int)n - 1), how = choice("how", 0, 2);
            auto [lo, hi] = hull[i];
            if (lo == hi)
                symx_stop();
            ll x = some("guess", lo, hi);
            switch (how) {
            case 0: symx_assume(a[i] <= x); narrow.push_back(vars[i] <= Integer{x}); break;
            case 1: symx_assume(a[i] >= x); narrow.push_back(vars[i] >= Integer{x}); break;
            case 2: symx_assume(a[i] != x); narrow.push_back(vars[i] != Integer{x}); break;
            }
            on.push_back(i);
        }
        bool backwards = n > 1 && choice("last first", 0, 1);
        int depth = 0;
        SolveCallbacks cb;
        cb.stats_report = silent_stats_report();
        cb.completed = [&] { completed = true; };
        auto present = [&](const CurrentState & s) {
            // what satisfies the constraint is not lost
            for (size_t i = 0; i < n; ++i)
                if (! s.in_domain(vars[i], Integer{a[i]})) {
                    symx_assert(! want, "a solution is not lost");
                    symx_reach("not found");
                    symx_stop();
                }
        };
        cb.branch = [&](const Problem &, innards::State &, innards::Propagators &) -> BranchCallback {
            return [&](const CurrentState & s, const innards::Propagators &) -> std::generator<IntegerVariableCondition> {
                present(s);
                if (consistency != NOTHING) {
                    check_consistency(s, meaning);
                    if (depth == (int)narrow.size()) {
                        symx_reach("consistent");
                        symx_stop();
                    }
                }
                while (depth < (int)narrow.size()) {
                    auto c = narrow[depth];
                    ++depth;
                    if (s.has_single_value(vars[on[depth - 1]]))
                        continue;
                    co_yield c;
                    co_return;
                }
                for (size_t k = 0; k < n; ++k) {
                    size_t i = backwards ? n - 1 - k : k;
                    if (! s.has_single_value(vars[i])) {
                        co_yield vars[i] == Integer{a[i]};
                        co_return;
                    }
                }
            };
        };
        cb.solution = [&](const CurrentState & s) {
            symx_assert(! reached, "a solution is found once");
            reached = true;
            // every variable has one value, and the assignment's values have not been removed
            ll same = 1;
            for (size_t i = 0; i < n; ++i)
                same = symx_and(same, s(vars[i]).raw_value == a[i]);
            symx_assert(same, "what is found is what was guessed");
            symx_assert(want, "every assignment found is a solution");
            return true;
        };
        solve_with(p, cb);
        symx_assert(completed, "the search completes");
        symx_reach(reached ? "found" : "not found");
        if (! reached)
            symx_assert(! want, "every solution is found");
    }
};

static void body(Csp & c);
extern "C" void harness_main()
{
    Csp c;
    try {
        body(c);
    }
    catch (const InvalidProblemDefinitionException &) {
        symx_assert(c.aliased, "what can be stated is accepted");
        symx_reach("refused");
    }
}
