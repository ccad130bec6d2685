#include "solver.hh"
#include "sat.hh"
#include <z3.h>
#include <chrono>
#include <list>
#include <set>
#include <unordered_set>
#include <unistd.h>

SolverStats g_sstats;
u64 g_rlimit = 40000000;
std::string g_dump_dir;
bool g_lia_first = false; // for the self-test
bool g_crosscheck = false; // every answer of the bit-blaster is repeated with Z3
static const u64 SATCONFLICTS = 300000, SATPROBE = 200;
static u64 g_gen = 0, g_easy = 0;

ModelP mkmodel(std::vector<u64> v)
{
    auto m = std::make_shared<Model>();
    m->v = std::move(v);
    m->gen = ++g_gen;
    return m;
}

static Z3_context ctx = nullptr;
static Z3_solver slv = nullptr;
static std::unordered_map<u64, Z3_ast> xl;           // (expr id, width) -> ast
static std::unordered_map<Expr *, Z3_ast> lits;      // constraint -> assumption literal
static std::unordered_map<uint32_t, Z3_ast> zvars;
static std::unordered_map<Expr *, Z3_ast> ints, ibools; // the same over the integers; null if it cannot be said there
static std::unordered_map<uint32_t, Z3_ast> ivars;

static void err(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(70);
}

static void reset()
{
    if (ctx) {
        Z3_solver_dec_ref(ctx, slv);
        Z3_del_context(ctx);
    }
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); // not reference counted: asts live as long as the context
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, err);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)(g_rlimit / 8));
    Z3_solver_set_params(ctx, slv, p);
    Z3_params_dec_ref(ctx, p);
    xl.clear();
    lits.clear();
    zvars.clear();
    ints.clear();
    ibools.clear();
    ivars.clear();
}

static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }

static Z3_ast num(u128 v, unsigned w)
{
    // decimal string of v
    char buf[64];
    int n = 63;
    buf[n] = 0;
    v &= maskw(w);
    if (v == 0)
        buf[--n] = '0';
    while (v) {
        buf[--n] = (char)('0' + (int)(v % 10));
        v /= 10;
    }
    return Z3_mk_numeral(ctx, buf + n, bvs(w));
}

static Z3_ast tobool(Expr * e);

// The low w bits of e (w <= e->w), as a bit-vector of width w.
static Z3_ast low(Expr * e, unsigned w)
{
    u64 key = ((u64)e->id << 8) | w;
    auto it = xl.find(key);
    if (it != xl.end())
        return it->second;
    Z3_ast r = nullptr;
    // widen-from-narrow: when every value of e fits in n < w signed bits, encode n bits and sign extend
    auto full = [&](Expr * x) { return low(x, x->w); };
    unsigned n = signed_bits(e);
    if (e->k == K::Const)
        r = num(e->c, w);
    else if (n < w)
        r = Z3_mk_sign_ext(ctx, w - n, low(e, n));
    else
        switch (e->k) {
        case K::Var: {
            Z3_ast v;
            auto vi = zvars.find(e->aux);
            if (vi == zvars.end()) {
                std::string nm = "v" + std::to_string(e->aux);
                v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), bvs(e->w));
                zvars[e->aux] = v;
            }
            else
                v = vi->second;
            r = w == e->w ? v : Z3_mk_extract(ctx, w - 1, 0, v);
            break;
        }
        case K::Add: r = Z3_mk_bvadd(ctx, low(e->a[0], w), low(e->a[1], w)); break;
        case K::Sub: r = Z3_mk_bvsub(ctx, low(e->a[0], w), low(e->a[1], w)); break;
        case K::Mul: r = Z3_mk_bvmul(ctx, low(e->a[0], w), low(e->a[1], w)); break;
        case K::And: r = Z3_mk_bvand(ctx, low(e->a[0], w), low(e->a[1], w)); break;
        case K::Or: r = Z3_mk_bvor(ctx, low(e->a[0], w), low(e->a[1], w)); break;
        case K::Xor: r = Z3_mk_bvxor(ctx, low(e->a[0], w), low(e->a[1], w)); break;
        case K::Not: r = Z3_mk_bvnot(ctx, low(e->a[0], w)); break;
        case K::ZExt:
            if (w <= e->a[0]->w)
                r = low(e->a[0], w);
            else
                r = Z3_mk_zero_ext(ctx, w - e->a[0]->w, full(e->a[0]));
            break;
        case K::SExt:
            if (w <= e->a[0]->w)
                r = low(e->a[0], w);
            else
                r = Z3_mk_sign_ext(ctx, w - e->a[0]->w, full(e->a[0]));
            break;
        case K::Extract:
            if (e->aux == 0)
                r = low(e->a[0], w);
            else
                r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, full(e->a[0]));
            break;
        case K::Concat:
            if (w <= e->a[1]->w)
                r = low(e->a[1], w);
            else
                r = Z3_mk_concat(ctx, low(e->a[0], w - e->a[1]->w), full(e->a[1]));
            break;
        case K::Ite: r = Z3_mk_ite(ctx, tobool(e->a[0]), low(e->a[1], w), low(e->a[2], w)); break;
        case K::UDiv:
        case K::URem:
        case K::SDiv:
        case K::SRem: {
            // at the width both operands (as signed numbers) and the quotient need
            unsigned k = std::max(std::max(signed_bits(e->a[0]), signed_bits(e->a[1])) + 1, w);
            bool uns = e->k == K::UDiv || e->k == K::URem;
            if (uns && (e->a[0]->slo < 0 || e->a[1]->slo < 0))
                k = e->w;
            if (k > e->w)
                k = e->w;
            Z3_ast x = low(e->a[0], k), y = low(e->a[1], k);
            Z3_ast q = e->k == K::UDiv ? Z3_mk_bvudiv(ctx, x, y) : e->k == K::URem ? Z3_mk_bvurem(ctx, x, y) : e->k == K::SDiv ? Z3_mk_bvsdiv(ctx, x, y) : Z3_mk_bvsrem(ctx, x, y);
            // division by zero: only reachable as a "don't care" (the engine checks divisors), so the narrow value may differ
            r = k == w ? q : Z3_mk_extract(ctx, w - 1, 0, q);
            break;
        }
        case K::Shl:
            if (e->a[1]->isconst() && e->a[1]->c < w) {
                unsigned s = (unsigned)e->a[1]->c;
                r = Z3_mk_concat(ctx, low(e->a[0], w - s), num(0, s));
            }
            else if (e->a[1]->isconst())
                r = num(0, w);
            else {
                r = Z3_mk_bvshl(ctx, full(e->a[0]), full(e->a[1]));
                if (w != e->w)
                    r = Z3_mk_extract(ctx, w - 1, 0, r);
            }
            break;
        case K::LShr:
        case K::AShr:
            r = e->k == K::LShr ? Z3_mk_bvlshr(ctx, full(e->a[0]), full(e->a[1])) : Z3_mk_bvashr(ctx, full(e->a[0]), full(e->a[1]));
            if (w != e->w)
                r = Z3_mk_extract(ctx, w - 1, 0, r);
            break;
        case K::Eq:
        case K::Ult:
        case K::Ule:
        case K::Slt:
        case K::Sle: r = Z3_mk_ite(ctx, tobool(e), num(1, 1), num(0, 1)); break;
        default: abort();
        }
    xl[key] = r;
    return r;
}

static Z3_ast tobool(Expr * e)
{
    u64 key = ((u64)e->id << 8) | 255;
    auto it = xl.find(key);
    if (it != xl.end())
        return it->second;
    Z3_ast r;
    switch (e->k) {
    case K::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K::Not: r = Z3_mk_not(ctx, tobool(e->a[0])); break;
    case K::And:
    case K::Or: {
        Z3_ast x[2] = {tobool(e->a[0]), tobool(e->a[1])};
        r = e->k == K::And ? Z3_mk_and(ctx, 2, x) : Z3_mk_or(ctx, 2, x);
        break;
    }
    case K::Xor: r = Z3_mk_xor(ctx, tobool(e->a[0]), tobool(e->a[1])); break;
    case K::Ite: r = Z3_mk_ite(ctx, tobool(e->a[0]), tobool(e->a[1]), tobool(e->a[2])); break;
    case K::Eq:
    case K::Ult:
    case K::Ule:
    case K::Slt:
    case K::Sle: {
        Expr *a = e->a[0], *b = e->a[1];
        if (a->w == 1) {
            Z3_ast x = tobool(a), y = tobool(b);
            if (e->k == K::Eq) {
                r = Z3_mk_iff(ctx, x, y);
                break;
            }
        }
        unsigned n = std::min<unsigned>(std::max(signed_bits(a), signed_bits(b)), a->w);
        // Both sides sign extend from n bits, which preserves equality, the signed order
        // and also the unsigned order (sign extension is monotone for it).
        Z3_ast x = low(a, n), y = low(b, n);
        r = e->k == K::Eq ? Z3_mk_eq(ctx, x, y)
            : e->k == K::Ult ? Z3_mk_bvult(ctx, x, y)
            : e->k == K::Ule ? Z3_mk_bvule(ctx, x, y)
            : e->k == K::Slt ? Z3_mk_bvslt(ctx, x, y)
                             : Z3_mk_bvsle(ctx, x, y);
        break;
    }
    default: r = Z3_mk_eq(ctx, low(e, 1), num(1, 1)); break;
    }
    xl[key] = r;
    return r;
}

// The signed value of e as an integer term: only where no operation can wrap, and linear. Null otherwise.
static Z3_ast ibool(Expr * e);

static Z3_ast inum(i128 v)
{
    char buf[64];
    int n = 63;
    buf[n] = 0;
    bool neg = v < 0;
    u128 u = neg ? -(u128)v : (u128)v;
    if (u == 0)
        buf[--n] = '0';
    while (u) {
        buf[--n] = (char)('0' + (int)(u % 10));
        u /= 10;
    }
    if (neg)
        buf[--n] = '-';
    return Z3_mk_numeral(ctx, buf + n, Z3_mk_int_sort(ctx));
}

static bool within(i128 lo, i128 hi, unsigned w) { return lo >= -((i128)1 << (w - 1)) && hi < ((i128)1 << (w - 1)); }

static Z3_ast intof(Expr * e)
{
    auto it = ints.find(e);
    if (it != ints.end())
        return it->second;
    Z3_ast r = nullptr;
    auto two = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[]), i128 lo, i128 hi) -> Z3_ast {
        if (! within(lo, hi, e->w))
            return nullptr;
        Z3_ast x[2] = {intof(e->a[0]), intof(e->a[1])};
        return x[0] && x[1] ? f(ctx, 2, x) : nullptr;
    };
    auto *a = e->a[0], *b = e->a[1];
    if (e->w == 1) {
        Z3_ast c = ibool(e);
        r = c ? Z3_mk_ite(ctx, c, inum(-1), inum(0)) : nullptr;
    }
    else if (e->w <= 64)
        switch (e->k) {
        case K::Const: r = inum(sextw(e->c, e->w)); break;
        case K::Var: {
            auto & v = ivars[e->aux];
            if (! v)
                v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("i" + std::to_string(e->aux)).c_str()), Z3_mk_int_sort(ctx));
            r = v;
            break;
        }
        case K::Add: r = two(Z3_mk_add, a->slo + b->slo, a->shi + b->shi); break;
        case K::Sub: r = two(Z3_mk_sub, a->slo - b->shi, a->shi - b->slo); break;
        case K::Mul:
            if (a->isconst() || b->isconst()) {
                i128 c = sextw((a->isconst() ? a : b)->c, e->w);
                Expr * o = a->isconst() ? b : a;
                if (c > -((i128)1 << 60) && c < ((i128)1 << 60) && o->slo > -((i128)1 << 62) && o->shi < ((i128)1 << 62))
                    r = two(Z3_mk_mul, std::min(c * o->slo, c * o->shi), std::max(c * o->slo, c * o->shi));
            }
            break;
        case K::Shl:
            if (b->isconst() && b->c < 40 && a->slo > -((i128)1 << 62) && a->shi < ((i128)1 << 62) && within(a->slo << (unsigned)b->c, a->shi << (unsigned)b->c, e->w)) {
                Z3_ast x[2] = {inum((i128)1 << (unsigned)b->c), intof(a)};
                r = x[1] ? Z3_mk_mul(ctx, 2, x) : nullptr;
            }
            break;
        case K::Not:
            if (Z3_ast x = intof(a)) {
                Z3_ast y[2] = {inum(-1), x};
                r = Z3_mk_sub(ctx, 2, y);
            }
            break;
        case K::SExt: r = intof(a); break;
        case K::ZExt:
            if (Z3_ast x = intof(a)) {
                if (a->slo >= 0)
                    r = x;
                else {
                    Z3_ast y[2] = {x, inum((i128)1 << a->w)};
                    r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, inum(0)), Z3_mk_add(ctx, 2, y), x);
                }
            }
            break;
        case K::Extract:
            if (e->aux == 0 && a->w <= 64 && within(a->slo, a->shi, e->w))
                r = intof(a);
            break;
        case K::Ite: {
            Z3_ast c = ibool(a), x = c ? intof(b) : nullptr, y = x ? intof(e->a[2]) : nullptr;
            r = y ? Z3_mk_ite(ctx, c, x, y) : nullptr;
            break;
        }
        default: break;
        }
    ints[e] = r;
    return r;
}

static Z3_ast ibool(Expr * e)
{
    auto it = ibools.find(e);
    if (it != ibools.end())
        return it->second;
    Z3_ast r = nullptr;
    Expr *a = e->a[0], *b = e->a[1];
    switch (e->k) {
    case K::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K::Not:
        if (Z3_ast x = ibool(a))
            r = Z3_mk_not(ctx, x);
        break;
    case K::And:
    case K::Or:
    case K::Xor: {
        Z3_ast x[2] = {ibool(a), ibool(b)};
        if (x[0] && x[1])
            r = e->k == K::And ? Z3_mk_and(ctx, 2, x) : e->k == K::Or ? Z3_mk_or(ctx, 2, x) : Z3_mk_xor(ctx, x[0], x[1]);
        break;
    }
    case K::Ite: {
        Z3_ast c = ibool(a), x = c ? ibool(b) : nullptr, y = x ? ibool(e->a[2]) : nullptr;
        r = y ? Z3_mk_ite(ctx, c, x, y) : nullptr;
        break;
    }
    case K::Eq:
    case K::Ult:
    case K::Ule:
    case K::Slt:
    case K::Sle: {
        if (a->w == 1) {
            if (e->k == K::Eq) {
                Z3_ast x = ibool(a), y = ibool(b);
                r = x && y ? Z3_mk_iff(ctx, x, y) : nullptr;
            }
            break;
        }
        Z3_ast x = intof(a), y = x ? intof(b) : nullptr;
        if (! y)
            break;
        r = e->k == K::Eq ? Z3_mk_eq(ctx, x, y) : (e->k == K::Ult || e->k == K::Slt) ? Z3_mk_lt(ctx, x, y) : Z3_mk_le(ctx, x, y);
        if ((e->k == K::Ult || e->k == K::Ule) && (a->slo < 0 || b->slo < 0)) {
            Z3_ast nx = Z3_mk_lt(ctx, x, inum(0)), ny = Z3_mk_lt(ctx, y, inum(0));
            r = Z3_mk_ite(ctx, Z3_mk_iff(ctx, nx, ny), r, ny);
        }
        break;
    }
    case K::Extract:
        break;
    default: break;
    }
    if (! r && e->k == K::Var) {
        Z3_ast & v = ivars[e->aux];
        if (! v)
            v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("i" + std::to_string(e->aux)).c_str()), Z3_mk_int_sort(ctx));
        r = Z3_mk_lt(ctx, v, inum(0)); // one bit: the values are 0 and -1
    }
    ibools[e] = r;
    return r;
}

// Decides a conjunction by linear integer arithmetic, if it can be said there
static Z3_lbool lia(const std::vector<Expr *> & q, const std::vector<uint32_t> & qv, u64 rlimit, std::vector<std::pair<uint32_t, u64>> & mv)
{
    auto t0 = std::chrono::steady_clock::now();
    std::vector<Z3_ast> f;
    for (auto * e : q) {
        Z3_ast x = ibool(e);
        if (! x) {
            if (getenv("SYMX_SHOW"))
                fprintf(stderr, "not linear: %s\n", show(e).c_str());
            return Z3_L_UNDEF;
        }
        f.push_back(x);
    }
    ++g_sstats.z3calls;
    ++g_sstats.liacalls;
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)rlimit);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (auto x : f)
        Z3_solver_assert(ctx, s, x);
    for (auto v : qv) {
        auto it = ivars.find(v);
        if (it == ivars.end())
            continue;
        unsigned w = g_vars[v].w;
        Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, it->second, inum(-((i128)1 << (w - 1)))));
        Z3_solver_assert(ctx, s, Z3_mk_lt(ctx, it->second, inum((i128)1 << (w - 1))));
    }
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (getenv("SYMX_SHOW")) {
        fprintf(stderr, "lia: %d in %.2f s\n", (int)r, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
        if (r == Z3_L_UNDEF)
            fprintf(stderr, "%s\n%s\n", Z3_solver_get_reason_unknown(ctx, s), Z3_solver_to_string(ctx, s));
    }
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (auto v : qv) {
            int64_t x = 0;
            auto it = ivars.find(v);
            Z3_ast o;
            if (it != ivars.end() && Z3_model_eval(ctx, m, it->second, true, &o))
                Z3_get_numeral_int64(ctx, o, &x);
            mv.emplace_back(v, (u64)x & (u64)maskw(g_vars[v].w));
        }
        Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_dec_ref(ctx, s);
    return r;
}

static void set_rlimit(Z3_solver s, u64 n)
{
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)n);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "max_conflicts"), (unsigned)(n / 100));
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
}

static Z3_ast litof(Expr * e)
{
    auto it = lits.find(e);
    if (it != lits.end())
        return it->second;
    std::string nm = "p" + std::to_string(e->id);
    Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), Z3_mk_bool_sort(ctx));
    Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, p, tobool(e)));
    lits[e] = p;
    return p;
}

struct CacheEnt
{
    Res r;
    bool final; // decided by Z3
    std::vector<std::pair<uint32_t, u64>> m;
};
static std::unordered_map<u64, std::vector<std::pair<std::vector<Expr *>, CacheEnt>>> qcache;
static std::list<ModelP> recent;

void solver_after_fork() {}

static ModelP patched(const ModelP & base, const std::vector<std::pair<uint32_t, u64>> & m)
{
    std::vector<u64> v = base->v;
    for (auto & [i, x] : m) {
        if (v.size() <= i)
            v.resize(i + 1, 0);
        v[i] = x;
    }
    return mkmodel(std::move(v));
}

Res solve_query(const std::vector<Expr *> & pc, Expr * cond, const ModelP & base, ModelP & out, bool final)
{
    ++g_sstats.queries;
    if (cond->isconst()) {
        if (! cond->c)
            return Res::Unsat;
        out = base;
        return Res::Sat;
    }
    if (evalexpr(cond, base->v, base->gen)) {
        out = base;
        return Res::Sat;
    }
    // independence: the constraints connected to cond through shared variables
    std::vector<uint32_t> vs = varsof(cond);
    std::vector<char> in(pc.size(), 0);
    std::vector<char> mark(g_vars.size(), 0);
    for (auto v : vs)
        mark[v] = 1;
    bool again = true;
    while (again) {
        again = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (in[i])
                continue;
            auto & s = varsof(pc[i]);
            bool hit = false;
            for (auto v : s)
                if (mark[v]) {
                    hit = true;
                    break;
                }
            if (hit) {
                in[i] = 1;
                for (auto v : s)
                    if (! mark[v]) {
                        mark[v] = 1;
                        again = true;
                    }
            }
        }
    }
    std::vector<Expr *> q;
    for (size_t i = 0; i < pc.size(); ++i)
        if (in[i])
            q.push_back(pc[i]);
    q.push_back(cond);
    std::sort(q.begin(), q.end(), [](Expr * a, Expr * b) { return a->id < b->id; });
    q.erase(std::unique(q.begin(), q.end()), q.end());
    u64 h = 1469598103934665603ull;
    for (auto * e : q)
        h = (h ^ e->id) * 1099511628211ull;
    auto & bucket = qcache[h];
    for (auto & [k, ent] : bucket)
        if (k == q && (ent.final || ! final || ent.r == Res::Sat)) {
            ++g_sstats.cachehits;
            if (ent.r == Res::Sat)
                out = patched(base, ent.m);
            return ent.r;
        }
    auto collect = [&](const Model & m) {
        std::vector<std::pair<uint32_t, u64>> r;
        for (size_t v = 0; v < mark.size(); ++v)
            if (mark[v])
                r.emplace_back((uint32_t)v, v < m.v.size() ? m.v[v] : 0);
        return r;
    };
    for (auto it = recent.begin(); it != recent.end(); ++it) {
        bool ok = evalexpr(cond, (*it)->v, (*it)->gen) != 0;
        for (size_t i = 0; ok && i < q.size(); ++i)
            ok = evalexpr(q[i], (*it)->v, (*it)->gen) != 0;
        if (ok) {
            ++g_sstats.modelhits;
            auto m = collect(**it);
            out = patched(base, m);
            bucket.push_back({q, {Res::Sat, true, m}});
            recent.splice(recent.begin(), recent, it);
            return Res::Sat;
        }
    }
    std::vector<uint32_t> qv;
    for (size_t v = 0; v < mark.size(); ++v)
        if (mark[v])
            qv.push_back((uint32_t)v);
    bool sampled = false;
    auto good = [&]() {
        if (sampled) {
            fprintf(stderr, "engine: bit-blaster and z3 disagree\n");
            _exit(72);
        }
        for (auto * e : q)
            if (! evalexpr(e, out->v, out->gen)) {
                fprintf(stderr, "engine: solver model does not satisfy %s\n", show(e).c_str());
                _exit(71);
            }
        recent.push_front(out);
        if (recent.size() > 16)
            recent.pop_back();
    };
    if (! final) {
        std::vector<std::pair<uint32_t, u64>> mv;
        auto t0 = std::chrono::steady_clock::now();
        Res r = g_lia_first ? Res::Unknown : sat_query(q, qv, mv, SATPROBE);
        if (r == Res::Unknown) {
            if (! ctx || lits.size() > 3000 || ints.size() > 200000)
                reset();
            Z3_lbool l = lia(q, qv, g_rlimit / 4, mv);
            if (l == Z3_L_UNDEF) {
                mv.clear();
                r = sat_query(q, qv, mv, SATCONFLICTS);
            }
            else
                r = l == Z3_L_TRUE ? Res::Sat : Res::Unsat;
        }
        g_sstats.sattime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        ++g_sstats.satcalls;
        if (r == Res::Sat) {
            out = patched(base, mv);
            good(); // the model is evaluated: a wrong "satisfiable" cannot go unnoticed
            bucket.push_back({q, {Res::Sat, true, mv}});
            return r;
        }
        if (r == Res::Unsat && ! g_crosscheck) {
            bucket.push_back({q, {Res::Unsat, false, {}}});
            return r;
        }
        if (r == Res::Unsat) {
            ModelP o2;
            if (solve_query(pc, cond, base, o2, true) == Res::Sat) {
                fprintf(stderr, "engine: bit-blaster and z3 disagree\n");
                _exit(72);
            }
            ++g_sstats.crosschecked;
            return r;
        }
    }
    if (! ctx || lits.size() > 3000 || ints.size() > 200000)
        reset();
    auto t0 = std::chrono::steady_clock::now();
    // hard for the bit-blaster: first as integer arithmetic, if it can be said there
    std::vector<std::pair<uint32_t, u64>> pm;
    Res probe = final ? sat_query(q, qv, pm, SATPROBE) : Res::Sat;
    if (final) {
        g_sstats.sattime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        ++g_sstats.satcalls;
        t0 = std::chrono::steady_clock::now();
    }
    if (final && probe == Res::Sat) {
        out = patched(base, pm);
        good();
        bucket.push_back({q, {Res::Sat, true, pm}});
        return Res::Sat;
    }
    // easy for the bit-blaster: one in 512 of its answers is repeated with z3
    if (final && probe == Res::Unsat && ! g_crosscheck && ++g_easy % 512 != 1) {
        bucket.push_back({q, {Res::Unsat, true, {}}});
        return Res::Unsat;
    }
    sampled = final && probe == Res::Unsat;
    g_sstats.crosschecked += sampled;
    Z3_lbool r = Z3_L_UNDEF;
    auto tryz3 = [&](u64 limit) {
        std::vector<Z3_ast> as;
        for (auto * e : q)
            as.push_back(litof(e));
        ++g_sstats.z3calls;
        set_rlimit(slv, limit);
        return Z3_solver_check_assumptions(ctx, slv, (unsigned)as.size(), as.data());
    };
    for (int turn = 0; turn < 2 && r == Z3_L_UNDEF; ++turn) {
        std::vector<std::pair<uint32_t, u64>> mv;
        Z3_lbool l = lia(q, qv, turn == 0 ? g_rlimit / 40 : g_rlimit / 4, mv);
        if (l != Z3_L_UNDEF) {
            g_sstats.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (l == Z3_L_FALSE) {
                ++g_sstats.unsat;
                bucket.push_back({q, {Res::Unsat, true, {}}});
                return Res::Unsat;
            }
            ++g_sstats.sat;
            out = patched(base, mv);
            good();
            bucket.push_back({q, {Res::Sat, true, mv}});
            return Res::Sat;
        }
        r = tryz3(turn == 0 ? g_rlimit / 100 : g_rlimit / 8);
    }
    Z3_solver used = slv;
    if (r == Z3_L_UNDEF) {
        // hard for the incremental solver: from scratch, with full preprocessing
        ++g_sstats.z3calls;
        Z3_tactic tac = Z3_mk_tactic(ctx, "qfbv");
        Z3_tactic_inc_ref(ctx, tac);
        used = Z3_mk_solver_from_tactic(ctx, tac);
        Z3_solver_inc_ref(ctx, used);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)g_rlimit);
        Z3_solver_set_params(ctx, used, p);
        Z3_params_dec_ref(ctx, p);
        for (auto * e : q)
            Z3_solver_assert(ctx, used, tobool(e));
        r = Z3_solver_check(ctx, used);
    }
    g_sstats.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (! g_dump_dir.empty()) {
        static unsigned n = 0;
        std::string fn = g_dump_dir + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2";
        std::vector<Z3_ast> fs;
        for (auto * e : q)
            fs.push_back(tobool(e));
        const char * s = Z3_benchmark_to_smtlib_string(ctx, "q", "QF_BV", r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown", "", (unsigned)fs.size() - 1, fs.data(), fs.back());
        if (FILE * f = fopen(fn.c_str(), "w")) {
            fputs(s, f);
            fclose(f);
        }
    }
    if (r == Z3_L_UNDEF) {
        ++g_sstats.unknown;
        reset();
        return Res::Unknown;
    }
    if (r == Z3_L_FALSE) {
        if (used != slv)
            reset();
        ++g_sstats.unsat;
        bucket.push_back({q, {Res::Unsat, true, {}}});
        return Res::Unsat;
    }
    ++g_sstats.sat;
    Z3_model m = Z3_solver_get_model(ctx, used);
    Z3_model_inc_ref(ctx, m);
    std::vector<std::pair<uint32_t, u64>> mv;
    for (size_t v = 0; v < mark.size(); ++v)
        if (mark[v]) {
            u64 x = 0;
            auto zi = zvars.find((uint32_t)v);
            if (zi != zvars.end()) {
                Z3_ast o;
                if (Z3_model_eval(ctx, m, zi->second, true, &o))
                    Z3_get_numeral_uint64(ctx, o, (uint64_t *)&x);
            }
            mv.emplace_back((uint32_t)v, x);
        }
    Z3_model_dec_ref(ctx, m);
    if (used != slv)
        reset();
    out = patched(base, mv);
    good();
    bucket.push_back({q, {Res::Sat, true, mv}});
    return Res::Sat;
}
