// Self-test of the expression layer and the two solvers: random terms are built through the simplifying
// constructors while their values under a few random assignments are computed independently, then
//  - the simplified term must evaluate to those values, and its cached ranges must contain them;
//  - "inputs = assignment and term != value" must be unsat, "... and term = value" must be sat, for the bit-blaster
//    and for z3.
#include "solver.hh"
#include <random>
static std::mt19937_64 rg(12345);
static u64 rnd(u64 n) { return rg() % n; }
static u128 refbin(K k, u128 a, u128 b, unsigned w)
{
    u128 m = maskw(w);
    a &= m, b &= m;
    i128 sa = sextw(a, w), sb = sextw(b, w);
    switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? a / b : m;
    case K::URem: return b ? a % b : a;
    case K::SDiv: return b ? (u128)(sa / sb) & m : (sa < 0 ? 1 : m);
    case K::SRem: return b ? (u128)(sa % sb) & m : a;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: return (u128)(sa >> (b >= w ? w - 1 : (unsigned)b)) & m;
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sa < sb;
    case K::Sle: return sa <= sb;
    default: abort();
    }
}
struct T
{
    Expr * e;
    std::vector<u128> v;
};
static const int NV = 4, NA = 6;
int main(int argc, char ** argv)
{
    int rounds = argc > 1 ? atoi(argv[1]) : 300, bad = 0;
    long terms = 0, queries = 0;
    static const unsigned widths[] = {1, 8, 13, 32, 64};
    std::vector<T> vars;
    std::vector<std::vector<u64>> asg(NA);
    std::vector<unsigned> vw;
    for (int i = 0; i < NV; ++i)
        vw.push_back(widths[1 + i]);
    for (int i = 0; i < NV; ++i) {
        T t;
        t.e = mkvar("v" + std::to_string(i), vw[i]);
        vars.push_back(t);
    }
    static u64 gen = 1000000;
    for (int r = 0; r < rounds && ! bad; ++r) {
        for (int a = 0; a < NA; ++a) {
            asg[a].assign(g_vars.size(), 0);
            for (int i = 0; i < NV; ++i) {
                u64 x = rg();
                switch (rnd(6)) {
                case 0: x = 0; break;
                case 1: x = ~0ull; break;
                case 2: x = 1ull << (vw[i] - 1); break;
                case 3: x = (1ull << (vw[i] - 1)) - 1; break;
                case 4: x = rnd(5); break;
                }
                asg[a][i] = x & (u64)maskw(vw[i]);
            }
        }
        std::vector<T> pool = vars;
        for (int i = 0; i < NV; ++i) {
            pool[i].v.clear();
            for (int a = 0; a < NA; ++a)
                pool[i].v.push_back(asg[a][i]);
        }
        for (int n = 0; n < 40; ++n) {
            T t;
            T & x = pool[rnd(pool.size())];
            unsigned w = x.e->w;
            int op = rnd(26);
            if (op <= 17) {
                static const K ks[] = {K::Add, K::Sub, K::Mul, K::UDiv, K::SDiv, K::URem, K::SRem, K::Shl, K::LShr, K::AShr, K::And, K::Or, K::Xor, K::Eq, K::Ult, K::Ule, K::Slt, K::Sle};
                K k = ks[op];
                T y;
                std::vector<T *> c;
                for (auto & p : pool)
                    if (p.e->w == w)
                        c.push_back(&p);
                if (rnd(3) == 0) {
                    u128 v = rnd(2) ? rnd(9) : rg();
                    v &= maskw(w);
                    y.e = mkconst(v, w);
                    y.v.assign(NA, v);
                }
                else
                    y = *c[rnd(c.size())];
                T xx = x;
                if (rnd(2))
                    std::swap(xx, y);
                bool div = k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem;
                if (div) { // the engine never builds a division whose divisor may be zero
                    bool z = false;
                    for (auto v : y.v)
                        z = z || ! v;
                    if (z || ! y.e->isconst())
                        continue;
                    if ((k == K::SDiv || k == K::SRem) && y.e->c == maskw(w))
                        continue;
                }
                if (w > 32 && k == K::Mul && ! y.e->isconst() && ! xx.e->isconst())
                    continue;
                t.e = mkbin(k, xx.e, y.e);
                for (int a = 0; a < NA; ++a)
                    t.v.push_back(refbin(k, xx.v[a], y.v[a], w));
            }
            else if (op == 18) {
                t.e = mknot(x.e);
                for (auto v : x.v)
                    t.v.push_back(~v & maskw(w));
            }
            else if (op <= 20) {
                unsigned nw = w + 1 + rnd(64 - std::min(w, 63u));
                if (nw > 64)
                    continue;
                t.e = op == 19 ? mkzext(x.e, nw) : mksext(x.e, nw);
                for (auto v : x.v)
                    t.v.push_back(op == 19 ? v : (u128)sextw(v, w) & maskw(nw));
            }
            else if (op <= 22) {
                unsigned lo = rnd(w), nw = 1 + rnd(w - lo);
                t.e = mkextract(x.e, lo, nw);
                for (auto v : x.v)
                    t.v.push_back((v >> lo) & maskw(nw));
            }
            else if (op == 23) {
                T & y = pool[rnd(pool.size())];
                if (w + y.e->w > 64)
                    continue;
                t.e = mkconcat(x.e, y.e);
                for (int a = 0; a < NA; ++a)
                    t.v.push_back(x.v[a] << y.e->w | y.v[a]);
            }
            else {
                std::vector<T *> c, b;
                for (auto & p : pool) {
                    if (p.e->w == w)
                        c.push_back(&p);
                    if (p.e->w == 1)
                        b.push_back(&p);
                }
                if (b.empty())
                    continue;
                T & y = *c[rnd(c.size())];
                T & z = *b[rnd(b.size())];
                t.e = mkite(z.e, x.e, y.e);
                for (int a = 0; a < NA; ++a)
                    t.v.push_back(z.v[a] ? x.v[a] : y.v[a]);
            }
            ++terms;
            for (int a = 0; a < NA; ++a) {
                u128 g = evalexpr(t.e, asg[a], ++gen);
                if (g != t.v[a]) {
                    printf("eval mismatch: %s\n", show(t.e).c_str());
                    ++bad;
                }
                if (t.v[a] < t.e->ulo || t.v[a] > t.e->uhi || sextw(t.v[a], t.e->w) < t.e->slo || sextw(t.v[a], t.e->w) > t.e->shi) {
                    printf("range unsound: %s\n", show(t.e).c_str());
                    ++bad;
                }
            }
            pool.push_back(t);
        }
        // solver agreement on the last terms
        for (int q = 0; q < 3; ++q) {
            T & t = pool[pool.size() - 1 - rnd(std::min<size_t>(10, pool.size()))];
            int a = rnd(NA);
            std::vector<Expr *> pc;
            for (int i = 0; i < NV; ++i)
                pc.push_back(mkbin(K::Eq, vars[i].e, mkconst(asg[a][i], vw[i])));
            ModelP base = mkmodel(asg[a]), out;
            Expr * eq = mkbin(K::Eq, t.e, mkconst(t.v[a], t.e->w));
            for (int fin = 0; fin < 2; ++fin) {
                g_lia_first = rnd(2);
                ++queries;
                if (! eq->isconst()) {
                    if (solve_query(pc, mknot(eq), base, out, fin) != Res::Unsat)
                        printf("expected unsat (final=%d): %s\n", fin, show(t.e).c_str()), ++bad;
                    // sat side without a hint: the negated equality over free inputs must agree between the solvers
                    ModelP o1, o2;
                    Res r1 = solve_query({}, mknot(eq), mkmodel(std::vector<u64>(g_vars.size(), 0)), o1, false);
                    Res r2 = solve_query({}, mknot(eq), mkmodel(std::vector<u64>(g_vars.size(), 1)), o2, true);
                    if (r1 != Res::Unknown && r2 != Res::Unknown && r1 != r2)
                        printf("solvers disagree: %s\n", show(t.e).c_str()), ++bad;
                }
                else if (! eq->c)
                    printf("constant false equality\n"), ++bad;
            }
        }
    }
    printf("{\"terms\":%ld,\"queries\":%ld,\"bad\":%d,\"satcalls\":%llu,\"z3calls\":%llu,\"lia\":%llu}\n", terms, queries, bad, (unsigned long long)g_sstats.satcalls, (unsigned long long)g_sstats.z3calls, (unsigned long long)g_sstats.liacalls);
    return bad != 0;
}
