// Regular expressions: the automaton accepts exactly the described sequences; what is not an expression is rejected.
#include "hutil.h"
#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>
#include <gcs/innards/integer_overflow.hh>
#include <map>
#ifndef ATOMS
#define ATOMS 6
#define REPS 7
#endif
using namespace gcs;
using namespace gcs::innards;
// Reference: the text is read by a backtracking-free parser of our own into nodes; matching is by positions.
namespace
{
    struct Bad {};
    struct Node
    {
        enum { Empty, Sym, Cat, Alt, Rep } k;
        std::vector<std::pair<ll, ll>> ranges; // Sym
        bool any = false, negated = false;
        std::vector<Node> c;
        ll lo = 0, hi = -1; // Rep, hi < 0 unbounded
    };
    struct Ref
    {
        const std::string & s;
        std::size_t p = 0;
        void ws() { while (p < s.size() && symx_branch((s[p] == ' ') | (s[p] == '\t') | (s[p] == '\n'))) ++p; }
        bool is(char c) { ws(); return p < s.size() && symx_branch(s[p] == c); }
        bool eat(char c) { if (! is(c)) return false; ++p; return true; }
        bool digit() { ws(); return p < s.size() && symx_branch((s[p] >= '0') & (s[p] <= '9')); }
        ll number()
        {
            if (! digit())
                throw Bad{};
            ll v = 0;
            while (p < s.size() && symx_branch((s[p] >= '0') & (s[p] <= '9')))
                v = v * 10 + (s[p++] - '0');
            return v;
        }
        Node alt()
        {
            Node a = cat();
            if (! eat('|'))
                return a;
            Node n{Node::Alt};
            n.c.push_back(a);
            n.c.push_back(alt());
            return n;
        }
        Node cat()
        {
            Node n{Node::Cat};
            n.c.push_back(rep());
            while (digit() || is('.') || is('[') || is('('))
                n.c.push_back(rep());
            return n;
        }
        Node rep()
        {
            Node a = atom();
            Node n{Node::Rep};
            if (eat('*'))
                n.lo = 0;
            else if (eat('+'))
                n.lo = 1;
            else if (eat('?'))
                n.hi = 1;
            else if (eat('{')) {
                n.lo = n.hi = symx_concretize(number());
                if (eat(',')) {
                    n.hi = -1;
                    if (! is('}')) {
                        n.hi = symx_concretize(number());
                        if (! eat('}') || n.hi < n.lo)
                            throw Bad{};
                        n.c.push_back(a);
                        return n;
                    }
                }
                if (! eat('}'))
                    throw Bad{};
            }
            else
                return a;
            n.c.push_back(a);
            return n;
        }
        Node atom()
        {
            Node n{Node::Sym};
            if (eat('.')) {
                n.any = true;
                return n;
            }
            if (eat('(')) {
                Node a = alt();
                if (! eat(')'))
                    throw Bad{};
                return a;
            }
            if (eat('[')) {
                n.negated = eat('^');
                do {
                    ll a = number(), b = a;
                    if (eat('-'))
                        b = number();
                    if (symx_branch(b < a))
                        std::swap(a, b);
                    n.ranges.emplace_back(a, b);
                } while (digit());
                if (! eat(']'))
                    throw Bad{};
                return n;
            }
            ll v = number();
            n.ranges.emplace_back(v, v);
            return n;
        }
    };
    // whether a character can appear at all
    void legal(const std::string & s)
    {
        for (char c : s) {
            bool ok = (c == ' ') | (c == '\t') | (c == '\n') | ((c >= '0') & (c <= '9'));
            for (char d : {'|', '+', '*', '(', ')', '?', '{', '}', ',', '.', '[', ']', '-', '^'})
                ok |= c == d;
            if (! symx_branch(ok))
                throw Bad{};
        }
    }
    bool in(ll v, const std::vector<ll> & alphabet)
    {
        bool r = false;
        for (ll a : alphabet)
            r |= a == v;
        return r;
    }
    // e[i]: position i can be reached, as a formula; no forks
    typedef std::vector<bool> B;
    B match(const Node & n, const std::vector<ll> & q, const std::vector<ll> & alphabet, const B & from)
    {
        switch (n.k) {
        case Node::Empty: return from;
        case Node::Sym: {
            B r(q.size() + 1, false);
            for (std::size_t i = 0; i < q.size(); ++i) {
                bool m = n.any;
                for (auto [a, b] : n.ranges)
                    m |= (q[i] >= a) & (q[i] <= b);
                if (n.negated)
                    m = ! m;
                if (n.any || n.negated)
                    m &= in(q[i], alphabet);
                r[i + 1] = symx_branch(from[i]) && symx_branch(m);
            }
            return r;
        }
        case Node::Cat: {
            B r = from;
            for (auto & c : n.c)
                r = match(c, q, alphabet, r);
            return r;
        }
        case Node::Alt: {
            B a = match(n.c[0], q, alphabet, from), b = match(n.c[1], q, alphabet, from);
            for (std::size_t i = 0; i < a.size(); ++i)
                a[i] = a[i] || b[i];
            return a;
        }
        case Node::Rep: {
            B r(q.size() + 1, false), cur = from;
            ll rounds = n.hi >= 0 ? n.hi : n.lo + (ll)q.size() + 1;
            for (ll k = 0; k <= rounds; ++k) {
                if (k >= n.lo)
                    for (std::size_t i = 0; i < r.size(); ++i)
                        r[i] = r[i] || cur[i];
                if (k < rounds)
                    cur = match(n.c[0], q, alphabet, cur);
            }
            return r;
        }
        }
        return {};
    }
    bool run(const RegexNfa & a, const std::vector<ll> & q)
    {
        std::set<long> at{0};
        for (ll v : q) {
            std::set<long> next;
            for (long s : at)
                for (auto & [sym, to] : a.transitions.at(s))
                    if (symx_branch(sym.raw_value == v))
                        next.insert(to.begin(), to.end());
            at = next;
        }
        for (long f : a.final_states)
            if (at.count(f))
                return true;
        return false;
    }
    // an expression, written from the grammar
    std::string gen(int level, int budget)
    {
        // level 0: alternatives, 1: sequence, 2: repetition, 3: atom
        static const char * atoms[] = {"1", "2", ".", "[1 2]", "[^2]", "[3-2]"};
        static const char * reps[] = {"*", "+", "?", "{2}", "{1,}", "{0,2}", "{0}"};
        switch (level) {
        case 0: {
            int l = budget >= 2 ? choice("alt", 0, budget - 1) : 0;
            if (l)
                return gen(1, l) + "|" + gen(0, budget - l);
            return gen(1, budget);
        }
        case 1: {
            int l = budget >= 2 ? choice("cat", 0, budget - 1) : 0;
            if (l)
                return gen(2, l) + " " + gen(1, budget - l);
            return gen(2, budget);
        }
        case 2:
            if (budget >= 2 && choice("repeated", 0, 1))
                return gen(3, budget - 1) + reps[choice("rep", 0, REPS - 1)];
            return gen(3, budget);
        default:
            if (budget >= 2)
                return "(" + gen(0, budget - 1) + ")";
            return atoms[choice("atom", 0, ATOMS - 1)];
        }
    }
}
static void compare(const std::string & text, int maxlen)
{
    std::vector<ll> alphabet{1, 2, 3};
    std::vector<Integer> al{1_i, 2_i, 3_i};
    Node want{Node::Empty};
    bool bad = false;
    try {
        legal(text);
        Ref r{text};
        want = r.alt();
        r.ws();
        if (r.p != text.size())
            bad = true;
    }
    catch (const Bad &) {
        bad = true;
    }
    RegexNfa nfa;
    bool refused = throws<InvalidProblemDefinitionException>([&] { nfa = regex_to_nfa(text, al); });
    symx_assert(refused == bad, "a text is rejected exactly when it is not an expression");
    if (bad) {
        symx_reach("rejected");
        symx_stop();
    }
    symx_assert(nfa.num_states > 0 && nfa.transitions.size() == (std::size_t)nfa.num_states, "an automaton has the states it says");
    for (auto & t : nfa.transitions)
        for (auto & [s, to] : t)
            for (long x : to)
                symx_assert(x >= 0 && x < nfa.num_states, "transitions stay within the automaton");
    for (long f : nfa.final_states)
        symx_assert(f >= 0 && f < nfa.num_states, "final states are states");
    int len = choice("length", 0, maxlen);
    std::vector<ll> q;
    std::vector<Integer> qi;
    for (int i = 0; i < len; ++i) {
        q.push_back(symx_range("value", ATOMS == 6 ? 0 : 1, ATOMS == 6 ? 4 : 2));
        qi.push_back(Integer{q.back()});
    }
    B from(len + 1, false);
    from[0] = true;
    bool accepts = match(want, q, alphabet, from)[len];
    symx_reach(accepts ? "accepted" : "not accepted");
    symx_assert(run(nfa, q) == accepts, "the automaton accepts exactly the described sequences");
    symx_assert(regex_reference_accepts(text, al, qi) == accepts, "matching accepts exactly the described sequences");
}
extern "C" void harness_main()
{
    if (MODE == 0)
        compare(anytext("byte", choice("size", 0, TLEN)), 1);
    else if (MODE == 1)
        compare(gen(0, choice("budget", 1, BUDGET)), SLEN);
    else { // numbers at and past the end of the range: exact or refused
        int d = choice("digits", 18, 20);
        std::string t = "9223372036854775807";
        if (d == 18)
            t = "100000000000000000";
        for (int i : {d == 20 ? 0 : d - 2, d - 1})
            if (i < 19)
                t[i] = (char)symx_range("digit", '0', '9');
            else
                t += (char)symx_range("digit", '0', '9');
        i128 v = 0;
        for (char c : t)
            v = v * 10 + (c - '0');
        ll want = fits(v) ? (ll)v : 0;
        RegexNfa nfa;
        bool refused = throws<std::exception>([&] { nfa = regex_to_nfa(t, {Integer{want}}); });
        symx_assert(refused == ! fits(v), "a number is read exactly or refused");
        if (! refused) {
            symx_reach("number read");
            symx_assert(run(nfa, {want}), "a number is read exactly or refused");
        }
    }
}
