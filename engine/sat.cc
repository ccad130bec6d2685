// Bit-blasting of the expressions into MiniSat: the decision procedure for branch feasibility.
// One incremental solver holds the definitions of every expression seen; a query is a set of assumption
// literals, and only the variables in the cone of the query are decided on.
#include "sat.hh"
#include <minisat/core/Solver.h>
#include <unordered_set>

using namespace Minisat;

namespace
{
    typedef std::vector<Lit> Bits;
    struct Node { int a = -1, b = -1; }; // gate inputs (vars), for cones

    Solver * S = nullptr;
    std::unordered_map<Expr *, Bits> blasted;
    std::unordered_map<u64, Lit> gates;
    std::vector<Node> fan;
    std::unordered_map<uint32_t, Bits> inputs; // variable id -> bits
    Lit TRUE;
    std::vector<int> lastcone;
    std::vector<unsigned> stampv;
    unsigned stamp = 0;

    void reset()
    {
        delete S;
        S = new Solver();
        blasted.clear();
        gates.clear();
        fan.clear();
        inputs.clear();
        lastcone.clear();
        stampv.clear();
        Var t = S->newVar(l_Undef, false);
        fan.emplace_back();
        TRUE = mkLit(t);
        S->addClause(TRUE);
    }
    Lit F() { return ~TRUE; }
    Lit fresh(int a = -1, int b = -1)
    {
        Var v = S->newVar(l_Undef, false);
        fan.push_back({a, b});
        return mkLit(v);
    }
    Lit And(Lit a, Lit b)
    {
        if (a == F() || b == F() || a == ~b) return F();
        if (a == TRUE || a == b) return b;
        if (b == TRUE) return a;
        if (toInt(b) < toInt(a)) std::swap(a, b);
        u64 key = ((u64)toInt(a) << 32 | (u64)toInt(b)) * 2;
        auto it = gates.find(key);
        if (it != gates.end()) return it->second;
        Lit r = fresh(var(a), var(b));
        S->addClause(~r, a);
        S->addClause(~r, b);
        S->addClause(r, ~a, ~b);
        gates[key] = r;
        return r;
    }
    Lit Or(Lit a, Lit b) { return ~And(~a, ~b); }
    Lit Xor(Lit a, Lit b)
    {
        if (a == F()) return b;
        if (b == F()) return a;
        if (a == TRUE) return ~b;
        if (b == TRUE) return ~a;
        if (a == b) return F();
        if (a == ~b) return TRUE;
        bool neg = false;
        if (sign(a)) a = ~a, neg = ! neg;
        if (sign(b)) b = ~b, neg = ! neg;
        if (toInt(b) < toInt(a)) std::swap(a, b);
        u64 key = ((u64)toInt(a) << 32 | (u64)toInt(b)) * 2 + 1;
        auto it = gates.find(key);
        Lit r;
        if (it != gates.end()) r = it->second;
        else {
            r = fresh(var(a), var(b));
            S->addClause(~r, a, b);
            S->addClause(~r, ~a, ~b);
            S->addClause(r, ~a, b);
            S->addClause(r, a, ~b);
            gates[key] = r;
        }
        return neg ? ~r : r;
    }
    Lit Mux(Lit c, Lit t, Lit f)
    {
        if (c == TRUE || t == f) return t;
        if (c == F()) return f;
        if (t == TRUE) return Or(c, f);
        if (t == F()) return And(~c, f);
        if (f == TRUE) return Or(~c, t);
        if (f == F()) return And(c, t);
        if (t == ~f) return Xor(~c, t);
        return Or(And(c, t), And(~c, f));
    }
    Lit at(const Bits & b, size_t i) { return i < b.size() ? b[i] : b.back(); } // sign extension
    void add(const Bits & a, const Bits & b, Lit c, size_t n, Bits & out)
    {
        out.clear();
        for (size_t i = 0; i < n; ++i) {
            Lit x = at(a, i), y = at(b, i);
            Lit p = Xor(x, y);
            out.push_back(Xor(p, c));
            c = Or(And(x, y), And(p, c));
        }
    }
    Bits inv(const Bits & a)
    {
        Bits r;
        for (auto l : a) r.push_back(~l);
        return r;
    }
    Bits neg(const Bits & a, size_t n)
    {
        Bits r, z{F()};
        add(z, inv(a), TRUE, n, r);
        return r;
    }
    Bits mux(Lit c, const Bits & t, const Bits & f, size_t n)
    {
        Bits r;
        for (size_t i = 0; i < n; ++i) r.push_back(Mux(c, at(t, i), at(f, i)));
        return r;
    }
    Lit ult(const Bits & a, const Bits & b, size_t n, bool orEq)
    {
        Lit r = orEq ? TRUE : F();
        for (size_t i = 0; i < n; ++i) {
            Lit x = at(a, i), y = at(b, i);
            r = Mux(Xor(x, y), y, r);
        }
        return r;
    }
    Lit eq(const Bits & a, const Bits & b, size_t n)
    {
        Lit r = TRUE;
        for (size_t i = 0; i < n; ++i) r = And(r, ~Xor(at(a, i), at(b, i)));
        return r;
    }
    void mul(const Bits & a, const Bits & b, size_t n, Bits & out)
    {
        // shift and add, modulo 2^n; signed operands are handled by negating the top partial product
        out.assign(n, F());
        const Bits &x = a.size() <= b.size() ? a : b, &y = a.size() <= b.size() ? b : a;
        size_t m = std::min(x.size(), n);
        for (size_t i = 0; i < m; ++i) {
            bool top = i + 1 == x.size() && x.size() < n; // the sign bit has weight -2^i (when it is not the last bit, extension repeats it)
            if (x[i] == F()) continue;
            Bits p;
            for (size_t j = 0; i + j < n; ++j) p.push_back(And(x[i], at(y, j)));
            Bits hi(out.begin() + (long)i, out.end()), s;
            if (top) add(hi, inv(p), TRUE, n - i, s);
            else add(hi, p, F(), n - i, s);
            for (size_t j = 0; i + j < n; ++j) out[i + j] = s[j];
        }
    }
    void udivrem(const Bits & a, const Bits & b, size_t n, Bits & q, Bits & r)
    {
        // restoring division on n-bit unsigned values; division by zero gives all ones and the dividend
        q.assign(n, F());
        r.assign(n + 1, F());
        Bits d;
        for (size_t i = 0; i < n; ++i) d.push_back(at(b, i));
        d.push_back(F());
        for (size_t i = n; i-- > 0;) {
            for (size_t j = n; j > 0; --j) r[j] = r[j - 1];
            r[0] = at(a, i);
            Lit ge = ~ult(r, d, n + 1, false);
            Bits s;
            add(r, inv(d), TRUE, n + 1, s);
            for (size_t j = 0; j <= n; ++j) r[j] = Mux(ge, s[j], r[j]);
            q[i] = ge;
        }
        r.resize(n);
    }

    const Bits & blast(Expr * e);

    Bits build(Expr * e)
    {
        unsigned w = e->w;
        size_t n = std::max(1u, std::min(w, signed_bits(e)));
        Bits r;
        auto A = [&](int i) -> const Bits & { return blast(e->a[i]); };
        switch (e->k) {
        case K::Const:
            for (size_t i = 0; i < n; ++i) r.push_back((e->c >> i) & 1 ? TRUE : F());
            return r;
        case K::Var: {
            auto it = inputs.find(e->aux);
            if (it == inputs.end()) {
                Bits b;
                for (unsigned i = 0; i < w; ++i) b.push_back(fresh());
                it = inputs.emplace(e->aux, b).first;
            }
            return it->second;
        }
        case K::Add: add(A(0), A(1), F(), n, r); return r;
        case K::Sub: add(A(0), inv(A(1)), TRUE, n, r); return r;
        case K::Mul: mul(A(0), A(1), n, r); return r;
        case K::UDiv:
        case K::URem: {
            Bits q, m;
            udivrem(A(0), A(1), w, q, m);
            r = e->k == K::UDiv ? q : m;
            r.resize(n);
            return r;
        }
        case K::SDiv:
        case K::SRem: {
            Bits a = A(0), b = A(1);
            size_t k = std::min<size_t>(w, std::max(a.size(), b.size()) + 1);
            Lit sa = a.back(), sb = b.back();
            Bits ua = mux(sa, neg(a, k), a, k), ub = mux(sb, neg(b, k), b, k), q, m;
            udivrem(ua, ub, k, q, m);
            Bits res;
            Lit bz = eq(b, Bits{F()}, b.size());
            if (e->k == K::SDiv) {
                Lit s = Xor(sa, sb);
                q.push_back(k < w ? F() : q.back());
                if (k == w) q.pop_back();
                res = mux(s, neg(q, std::min<size_t>(k + 1, w)), q, std::min<size_t>(k + 1, w));
                // by zero: 1 for negative, -1 otherwise
                res = mux(bz, mux(sa, Bits{TRUE, F()}, Bits{TRUE}, res.size() + 0), res, res.size());
            }
            else {
                if (k < w) m.push_back(F());
                res = mux(sa, neg(m, m.size()), m, m.size());
                res = mux(bz, a, res, std::max(res.size(), a.size()));
            }
            for (size_t i = 0; i < n; ++i) r.push_back(at(res, i));
            return r;
        }
        case K::Shl:
        case K::LShr:
        case K::AShr: {
            Bits x;
            const Bits & a = A(0);
            for (unsigned i = 0; i < w; ++i) x.push_back(at(a, i));
            Lit fill = e->k == K::AShr ? x.back() : F();
            const Bits & s = A(1);
            Lit big = F();
            for (unsigned k = 0; k < w; ++k) {
                Lit sb = at(s, k);
                if (((u128)1 << k) >= w) {
                    big = Or(big, sb);
                    continue;
                }
                unsigned d = 1u << k;
                Bits y(w);
                for (unsigned i = 0; i < w; ++i) {
                    Lit from = e->k == K::Shl ? (i >= d ? x[i - d] : F()) : (i + d < w ? x[i + d] : fill);
                    y[i] = Mux(sb, from, x[i]);
                }
                x = y;
            }
            for (size_t i = 0; i < n; ++i) r.push_back(Mux(big, fill, x[i]));
            return r;
        }
        case K::And: for (size_t i = 0; i < n; ++i) r.push_back(And(at(A(0), i), at(A(1), i))); return r;
        case K::Or: for (size_t i = 0; i < n; ++i) r.push_back(Or(at(A(0), i), at(A(1), i))); return r;
        case K::Xor: for (size_t i = 0; i < n; ++i) r.push_back(Xor(at(A(0), i), at(A(1), i))); return r;
        case K::Not: for (size_t i = 0; i < n; ++i) r.push_back(~at(A(0), i)); return r;
        case K::ZExt:
            for (size_t i = 0; i < n; ++i) r.push_back(i < e->a[0]->w ? at(A(0), i) : F());
            return r;
        case K::SExt: for (size_t i = 0; i < n; ++i) r.push_back(at(A(0), std::min<size_t>(i, e->a[0]->w - 1))); return r;
        case K::Extract: for (size_t i = 0; i < n; ++i) r.push_back(at(A(0), i + e->aux)); return r;
        case K::Concat: {
            unsigned lw = e->a[1]->w;
            for (size_t i = 0; i < n; ++i) r.push_back(i < lw ? at(A(1), i) : at(A(0), i - lw));
            return r;
        }
        case K::Eq: r.push_back(eq(A(0), A(1), std::max(A(0).size(), A(1).size()))); return r;
        case K::Ult:
        case K::Ule: r.push_back(ult(A(0), A(1), std::max(A(0).size(), A(1).size()), e->k == K::Ule)); return r;
        case K::Slt:
        case K::Sle: {
            size_t m = std::max(A(0).size(), A(1).size());
            Bits a, b;
            for (size_t i = 0; i < m; ++i) a.push_back(at(A(0), i)), b.push_back(at(A(1), i));
            a.back() = ~a.back();
            b.back() = ~b.back();
            r.push_back(ult(a, b, m, e->k == K::Sle));
            return r;
        }
        case K::Ite: {
            Lit c = A(0)[0];
            return mux(c, A(1), A(2), n);
        }
        }
        abort();
    }
    const Bits & blast(Expr * e)
    {
        auto it = blasted.find(e);
        if (it != blasted.end()) return it->second;
        Bits b = build(e);
        return blasted.emplace(e, std::move(b)).first->second;
    }
    // deep expressions: children first, without recursion
    void blastAll(Expr * root)
    {
        std::vector<std::pair<Expr *, int>> st{{root, 0}};
        while (! st.empty()) {
            auto & [e, i] = st.back();
            if (i < 3 && e->a[i]) {
                Expr * c = e->a[i++];
                if (! blasted.count(c)) st.emplace_back(c, 0);
                continue;
            }
            Expr * x = e;
            st.pop_back();
            blast(x);
        }
    }
}

Res sat_query(const std::vector<Expr *> & q, const std::vector<uint32_t> & vars, std::vector<std::pair<uint32_t, u64>> & model, u64 conflicts)
{
    if (! S || S->nVars() > 15000)
        reset();
    vec<Lit> as;
    std::vector<int> cone;
    stampv.resize((size_t)S->nVars() + 1, 0);
    for (auto * e : q) {
        blastAll(e);
        Lit l = blasted.at(e)[0];
        if (l == F()) return Res::Unsat;
        if (l == TRUE) continue;
        as.push(l);
    }
    ++stamp;
    stampv.resize((size_t)S->nVars() + 1, 0);
    for (int i = 0; i < as.size(); ++i)
        if (stampv[(size_t)var(as[i])] != stamp) {
            stampv[(size_t)var(as[i])] = stamp;
            cone.push_back(var(as[i]));
        }
    for (size_t i = 0; i < cone.size(); ++i)
        for (int c : {fan[(size_t)cone[i]].a, fan[(size_t)cone[i]].b})
            if (c >= 0 && stampv[(size_t)c] != stamp) {
                stampv[(size_t)c] = stamp;
                cone.push_back(c);
            }
    for (int v : lastcone)
        S->setDecisionVar(v, false);
    for (int v : cone)
        S->setDecisionVar(v, true);
    lastcone = cone;
    S->setConfBudget((int64_t)conflicts);
    lbool r = S->solveLimited(as);
    if (r == l_Undef)
        return Res::Unknown;
    if (r == l_False)
        return Res::Unsat;
    for (auto v : vars) {
        u64 x = 0;
        auto it = inputs.find(v);
        if (it != inputs.end())
            for (size_t i = 0; i < it->second.size(); ++i)
                if (S->modelValue(it->second[i]) == l_True)
                    x |= (u64)1 << i;
        model.emplace_back(v, x);
    }
    return Res::Sat;
}
