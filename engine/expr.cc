#include "expr.hh"
#include <unordered_set>

std::vector<VarInfo> g_vars;
static std::unordered_set<Expr *, ExprHash, ExprEq> g_table;
static uint32_t g_next_id = 1;

static const i128 BIG = (i128)1 << 126;

static i128 smin_of(unsigned w) { return w >= 127 ? -BIG : -((i128)1 << (w - 1)); }
static i128 smax_of(unsigned w) { return w >= 127 ? BIG : ((i128)1 << (w - 1)) - 1; }

// transfer between the unsigned and the signed view of a range
void tighten(Rng & e, unsigned w)
{
    u128 m = maskw(w);
    // transfer between the two views
    for (int i = 0; i < 2; ++i) {
        u128 half = (u128)1 << (w - 1);
        if (e.uhi < half) {
            e.slo = std::max(e.slo, (i128)e.ulo);
            e.shi = std::min(e.shi, (i128)e.uhi);
        }
        else if (e.ulo >= half) {
            e.slo = std::max(e.slo, sextw(e.ulo, w));
            e.shi = std::min(e.shi, sextw(e.uhi, w));
        }
        if (e.slo >= 0) {
            e.ulo = std::max(e.ulo, (u128)e.slo);
            e.uhi = std::min(e.uhi, (u128)e.shi);
        }
        else if (e.shi < 0) {
            e.ulo = std::max(e.ulo, (u128)e.slo & m);
            e.uhi = std::min(e.uhi, (u128)e.shi & m);
        }
    }
}

Rng rangeFrom(Expr * x, const Rng * ch)
{
    Rng res;
    Rng * e = &res;
    unsigned w = x->w;
    u128 m = maskw(w);
    e->ulo = 0;
    e->uhi = m;
    e->slo = smin_of(w);
    e->shi = smax_of(w);
    if (w > 100)
        return res;
    bool haveu = false, haves = false;
    auto setu = [&](u128 lo, u128 hi) { e->ulo = std::max(e->ulo, lo); e->uhi = std::min(e->uhi, hi); haveu = true; };
    auto sets = [&](i128 lo, i128 hi) { e->slo = std::max(e->slo, lo); e->shi = std::min(e->shi, hi); haves = true; };
    const Rng *a = &ch[0], *b = &ch[1];
    unsigned aw = x->a[0] ? x->a[0]->w : 0, bw = x->a[1] ? x->a[1]->w : 0;
    switch (x->k) {
    case K::Const:
        setu(x->c, x->c);
        sets(sextw(x->c, w), sextw(x->c, w));
        break;
    case K::Var: break;
    case K::Add: {
        i128 lo = a->slo + b->slo, hi = a->shi + b->shi;
        if (lo >= smin_of(w) && hi <= smax_of(w))
            sets(lo, hi);
        u128 ulo = a->ulo + b->ulo, uhi = a->uhi + b->uhi;
        if (uhi <= m)
            setu(ulo, uhi);
        break;
    }
    case K::Sub: {
        i128 lo = a->slo - b->shi, hi = a->shi - b->slo;
        if (lo >= smin_of(w) && hi <= smax_of(w))
            sets(lo, hi);
        if (a->ulo >= b->uhi)
            setu(a->ulo - b->uhi, a->uhi - b->ulo);
        break;
    }
    case K::Mul: {
        // signed product bounds in 128 bits, when the operands are at most 62 bits
        i128 lim = (i128)1 << 62;
        if (a->slo > -lim && a->shi < lim && b->slo > -lim && b->shi < lim) {
            i128 p[4] = {a->slo * b->slo, a->slo * b->shi, a->shi * b->slo, a->shi * b->shi};
            i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
            if (lo >= smin_of(w) && hi <= smax_of(w))
                sets(lo, hi);
        }
        if (a->uhi < ((u128)1 << 62) && b->uhi < ((u128)1 << 62) && a->uhi * b->uhi <= m)
            setu(a->ulo * b->ulo, a->uhi * b->uhi);
        break;
    }
    case K::UDiv:
        if (b->ulo > 0)
            setu(a->ulo / b->uhi, a->uhi / b->ulo);
        break;
    case K::URem:
        if (b->ulo > 0)
            setu(0, std::min(a->uhi, b->uhi - 1));
        break;
    case K::SDiv:
        if (b->slo > 0 || b->shi < 0) {
            i128 p[4] = {a->slo / b->slo, a->slo / b->shi, a->shi / b->slo, a->shi / b->shi};
            i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
            if (a->slo <= 0 && a->shi >= 0) {
                lo = std::min(lo, (i128)0);
                hi = std::max(hi, (i128)0);
            }
            if (lo >= smin_of(w) && hi <= smax_of(w))
                sets(lo, hi);
        }
        break;
    case K::SRem:
        if (b->slo > 0 || b->shi < 0) {
            i128 mb = std::max(b->shi < 0 ? -b->shi : b->shi, b->slo < 0 ? -b->slo : b->slo) - 1;
            sets(a->slo >= 0 ? 0 : -std::min(mb, -a->slo), a->shi <= 0 ? 0 : std::min(mb, a->shi));
        }
        break;
    case K::Shl:
        if (b->ulo == b->uhi && b->ulo < w) {
            unsigned s = (unsigned)b->ulo;
            if (s < 62 && a->uhi < ((u128)1 << 62) && (a->uhi << s) <= m)
                setu(a->ulo << s, a->uhi << s);
            i128 lim = (i128)1 << 62;
            if (s < 62 && a->slo > -lim && a->shi < lim) {
                i128 lo = a->slo * ((i128)1 << s), hi = a->shi * ((i128)1 << s);
                if (lo >= smin_of(w) && hi <= smax_of(w))
                    sets(lo, hi);
            }
        }
        break;
    case K::LShr:
        if (b->ulo == b->uhi && b->ulo < w)
            setu(a->ulo >> (unsigned)b->ulo, a->uhi >> (unsigned)b->ulo);
        else
            setu(0, a->uhi);
        break;
    case K::AShr:
        if (b->ulo == b->uhi && b->ulo < w)
            sets(a->slo >> (unsigned)b->ulo, a->shi >> (unsigned)b->ulo);
        else
            sets(std::min(a->slo, (i128)0) , std::max(a->shi, (i128)0));
        break;
    case K::And: setu(0, std::min(a->uhi, b->uhi)); break;
    case K::Or: {
        u128 h = a->uhi | b->uhi;
        for (int s = 1; s < 128; s <<= 1)
            h |= h >> s;
        setu(std::max(a->ulo, b->ulo), h);
        break;
    }
    case K::Xor: {
        u128 h = a->uhi | b->uhi;
        for (int s = 1; s < 128; s <<= 1)
            h |= h >> s;
        setu(0, h);
        break;
    }
    case K::Not: setu(m - a->uhi, m - a->ulo); break;
    case K::ZExt: setu(a->ulo, a->uhi); break;
    case K::SExt: sets(a->slo, a->shi); break;
    case K::Extract:
        if (x->aux == 0) {
            if (a->uhi <= m)
                setu(a->ulo, a->uhi);
            if (aw <= 100 && a->slo >= smin_of(w) && a->shi <= smax_of(w))
                sets(a->slo, a->shi);
        }
        else if (aw <= 100 && x->aux + w == aw)
            setu(a->ulo >> x->aux, a->uhi >> x->aux);
        break;
    case K::Concat:
        setu((a->ulo << bw) + b->ulo, (a->uhi << bw) + b->uhi);
        break;
    case K::Ite:
        if (a->ulo == a->uhi) {
            const Rng & p = a->ulo ? ch[1] : ch[2];
            setu(p.ulo, p.uhi);
            sets(p.slo, p.shi);
            break;
        }
        setu(std::min(ch[1].ulo, ch[2].ulo), std::max(ch[1].uhi, ch[2].uhi));
        sets(std::min(ch[1].slo, ch[2].slo), std::max(ch[1].shi, ch[2].shi));
        break;
    case K::Eq:
        if (a->ulo > b->uhi || b->ulo > a->uhi || a->slo > b->shi || b->slo > a->shi)
            setu(0, 0);
        else if (a->ulo == a->uhi && b->ulo == b->uhi && a->ulo == b->ulo)
            setu(1, 1);
        break;
    case K::Ult:
        if (a->uhi < b->ulo) setu(1, 1);
        else if (a->ulo >= b->uhi) setu(0, 0);
        break;
    case K::Ule:
        if (a->uhi <= b->ulo) setu(1, 1);
        else if (a->ulo > b->uhi) setu(0, 0);
        break;
    case K::Slt:
        if (aw > 100) break;
        if (a->shi < b->slo) setu(1, 1);
        else if (a->slo >= b->shi) setu(0, 0);
        break;
    case K::Sle:
        if (aw > 100) break;
        if (a->shi <= b->slo) setu(1, 1);
        else if (a->slo > b->shi) setu(0, 0);
        break;
    default: break;
    }
    tighten(res, w);
    (void)haveu;
    (void)haves;
    return res;
}

static void ranges(Expr * e)
{
    Rng ch[3];
    for (int i = 0; i < 3; ++i)
        if (e->a[i])
            ch[i] = {e->a[i]->ulo, e->a[i]->uhi, e->a[i]->slo, e->a[i]->shi};
    Rng r = rangeFrom(e, ch);
    e->ulo = r.ulo;
    e->uhi = r.uhi;
    e->slo = r.slo;
    e->shi = r.shi;
}

static Expr * intern(K k, unsigned w, Expr * a = nullptr, Expr * b = nullptr, Expr * c = nullptr, uint32_t aux = 0, u128 cv = 0)
{
    Expr t;
    t.k = k;
    t.w = (uint16_t)w;
    t.aux = aux;
    t.id = 0;
    t.a[0] = a;
    t.a[1] = b;
    t.a[2] = c;
    t.c = cv;
    auto it = g_table.find(&t);
    if (it != g_table.end())
        return *it;
    Expr * e = new Expr(t);
    e->id = g_next_id++;
    ranges(e);
    g_table.insert(e);
    // An expression whose range is a single value is that constant.
    return e;
}

Expr * mkconst(u128 v, unsigned w) { return intern(K::Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }

Expr * mkvar(const std::string & name, unsigned w)
{
    uint32_t id = (uint32_t)g_vars.size();
    g_vars.push_back({name, w});
    return intern(K::Var, w, nullptr, nullptr, nullptr, id);
}

static Expr * fin(Expr * e)
{
    if (e->k != K::Const && e->w <= 100 && e->ulo == e->uhi)
        return mkconst(e->ulo, e->w);
    return e;
}

static Expr * T() { static Expr * t = mkconst(1, 1); return t; }
static Expr * F() { static Expr * f = mkconst(0, 1); return f; }

static u128 foldbin(K k, u128 a, u128 b, unsigned w)
{
    u128 m = maskw(w);
    switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b == 0 ? m : a / b;
    case K::URem: return b == 0 ? a : a % b;
    case K::SDiv: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if (y == 0)
            return x < 0 ? 1 : m;
        if (y == -1)
            return (u128)(-(u128)x) & m;
        return (u128)(x / y) & m;
    }
    case K::SRem: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if (y == 0)
            return a;
        if (y == -1)
            return 0;
        return (u128)(x % y) & m;
    }
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: {
        i128 x = sextw(a, w);
        return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sextw(a, w) < sextw(b, w);
    case K::Sle: return sextw(a, w) <= sextw(b, w);
    default: abort();
    }
}

Expr * mknot(Expr * a)
{
    if (a->isconst())
        return mkconst(~a->c, a->w);
    if (a->k == K::Not)
        return a->a[0];
    if (a->w == 1) {
        switch (a->k) {
        case K::Ult: return mkbin(K::Ule, a->a[1], a->a[0]);
        case K::Ule: return mkbin(K::Ult, a->a[1], a->a[0]);
        case K::Slt: return mkbin(K::Sle, a->a[1], a->a[0]);
        case K::Sle: return mkbin(K::Slt, a->a[1], a->a[0]);
        default: break;
        }
    }
    return fin(intern(K::Not, a->w, a));
}

static bool iscmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle; }
static bool commutes(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }

// Linear normal form modulo 2^w: accumulates mul * e into the atoms and the constant. Sums under an extension are
// opened when their ranges show that they do not wrap.
struct Lin
{
    unsigned w;
    u128 c = 0;
    std::vector<std::pair<Expr *, u128>> atoms;
    int budget = 48;
    void atom(Expr * e, u128 mul)
    {
        for (auto & [x, m] : atoms)
            if (x == e) {
                m += mul;
                return;
            }
        atoms.emplace_back(e, mul);
    }
    void add(Expr * e, u128 mul)
    {
        if (e->isconst()) {
            c += mul * e->c;
            return;
        }
        if (--budget > 0) {
            if (e->k == K::Add || e->k == K::Sub) {
                add(e->a[0], mul);
                add(e->a[1], e->k == K::Add ? mul : -mul);
                return;
            }
            if (e->k == K::Mul && e->a[1]->isconst()) {
                add(e->a[0], mul * e->a[1]->c);
                return;
            }
            if (e->k == K::Shl && e->a[1]->isconst() && e->a[1]->c < w) {
                add(e->a[0], mul << (unsigned)e->a[1]->c);
                return;
            }
            if ((e->k == K::SExt || e->k == K::ZExt) && e->a[0]->w <= 100 && (e->a[0]->k == K::Add || e->a[0]->k == K::Sub || e->a[0]->k == K::Mul)) {
                Expr *i = e->a[0], *x = i->a[0], *y = i->a[1];
                bool sum = i->k == K::Add, mulk = i->k == K::Mul;
                if (e->k == K::SExt || i->shi <= ((i128)1 << (i->w - 1)) - 1) {
                    i128 lim = (i128)1 << (i->w - 1), lo, hi;
                    if (mulk) {
                        if (i->w > 60 && ! (x->slo > -((i128)1 << 60) && x->shi < ((i128)1 << 60) && y->slo > -((i128)1 << 60) && y->shi < ((i128)1 << 60)))
                            goto leaf;
                        i128 p[4] = {x->slo * y->slo, x->slo * y->shi, x->shi * y->slo, x->shi * y->shi};
                        lo = std::min(std::min(p[0], p[1]), std::min(p[2], p[3]));
                        hi = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
                    }
                    else {
                        lo = sum ? x->slo + y->slo : x->slo - y->shi;
                        hi = sum ? x->shi + y->shi : x->shi - y->slo;
                    }
                    if (lo >= -lim && hi < lim && (e->k == K::SExt || lo >= 0)) {
                        if (mulk) {
                            if (y->isconst()) {
                                add(mksext(x, w), mul * (u128)sextw(y->c, y->w));
                                return;
                            }
                        }
                        else {
                            add(mksext(x, w), mul);
                            add(mksext(y, w), sum ? mul : -mul);
                            return;
                        }
                    }
                }
            }
        }
leaf:
        atom(e, mul);
    }
};
// Whether a - b is the same constant everywhere, by linear reasoning alone
static bool linDiff(Expr * a, Expr * b, u128 & d)
{
    auto lin = [](Expr * e) { return e->k == K::Add || e->k == K::Sub || e->k == K::Mul || e->k == K::Shl || ((e->k == K::SExt || e->k == K::ZExt) && (e->a[0]->k == K::Add || e->a[0]->k == K::Sub || e->a[0]->k == K::Mul)); };
    if (a->w < 8 || ! lin(a) || ! (lin(b) || b->isconst()))
        if (! (a->w >= 8 && lin(b)))
            return false;
    Lin l{a->w};
    l.add(a, 1);
    l.add(b, -(u128)1);
    u128 m = maskw(a->w);
    for (auto & [x, c] : l.atoms)
        if (c & m)
            return false;
    d = l.c & m;
    return true;
}

// Integer polynomials. An expression's signed value is opened into a polynomial over atoms as far as ranges show that
// nothing wraps; comparisons are then rebuilt from a canonical form, so that equivalent ones become the same expression.
bool g_canon = true;
static bool inCanon = false;
struct Poly
{
    std::vector<std::pair<std::vector<Expr *>, i128>> m; // sorted by monomial
    i128 c = 0, lo = 0, hi = 0;
};
static const i128 POLYLIM = (i128)1 << 110;
static bool monoLess(const std::vector<Expr *> & a, const std::vector<Expr *> & b)
{
    if (a.size() != b.size())
        return a.size() > b.size();
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i]->id != b[i]->id)
            return a[i]->id < b[i]->id;
    return false;
}
static bool mulok(i128 a, i128 b, i128 & r)
{
    if (__builtin_mul_overflow(a, b, &r))
        return false;
    return r < POLYLIM && r > -POLYLIM;
}
static bool padd(const Poly & a, const Poly & b, i128 f, Poly & r)
{
    i128 t;
    if (! mulok(b.c, f, t))
        return false;
    r.c = a.c + t;
    i128 bl, bh;
    if (! mulok(f > 0 ? b.lo : b.hi, f, bl) || ! mulok(f > 0 ? b.hi : b.lo, f, bh))
        return false;
    r.lo = a.lo + bl;
    r.hi = a.hi + bh;
    size_t i = 0, j = 0;
    while (i < a.m.size() || j < b.m.size()) {
        if (j == b.m.size() || (i < a.m.size() && monoLess(a.m[i].first, b.m[j].first)))
            r.m.push_back(a.m[i++]);
        else if (i == a.m.size() || monoLess(b.m[j].first, a.m[i].first)) {
            if (! mulok(b.m[j].second, f, t))
                return false;
            r.m.emplace_back(b.m[j++].first, t);
        }
        else {
            if (! mulok(b.m[j].second, f, t))
                return false;
            t += a.m[i].second;
            if (t != 0)
                r.m.emplace_back(a.m[i].first, t);
            ++i, ++j;
        }
    }
    return r.c < POLYLIM && r.c > -POLYLIM && r.m.size() <= 24;
}
static bool polyOf(Expr * e, Poly & r, int & budget)
{
    auto atom = [&]() {
        if (e->w > 100)
            return false;
        r = Poly{};
        r.lo = e->slo;
        r.hi = e->shi;
        r.m.push_back({{e}, 1});
        return true;
    };
    if (e->isconst()) {
        r = Poly{};
        r.c = r.lo = r.hi = sextw(e->c, e->w);
        return r.c < POLYLIM && r.c > -POLYLIM;
    }
    if (--budget < 0)
        return atom();
    if (e->k == K::SExt)
        return polyOf(e->a[0], r, budget);
    if (e->k == K::ZExt) {
        Expr * i = e->a[0];
        if (i->w <= 100 && i->w > 1 && i->slo >= 0)
            return polyOf(i, r, budget);
        if (e->w == i->w + 1)
            return atom();
        e = mkzext(i, i->w + 1);
        return atom();
    }
    if (e->k == K::Add || e->k == K::Sub || e->k == K::Mul || (e->k == K::Shl && e->a[1]->isconst() && e->a[1]->c < e->w && e->a[1]->c < 100)) {
        Poly x, y, z;
        bool ok = polyOf(e->a[0], x, budget) && polyOf(e->a[1], y, budget);
        if (ok) {
            if (e->k == K::Add || e->k == K::Sub)
                ok = padd(x, y, e->k == K::Add ? 1 : -1, z);
            else {
                if (e->k == K::Shl) {
                    y = Poly{};
                    y.c = y.lo = y.hi = (i128)1 << (unsigned)e->a[1]->c;
                }
                i128 p[4];
                ok = mulok(x.lo, y.lo, p[0]) && mulok(x.lo, y.hi, p[1]) && mulok(x.hi, y.lo, p[2]) && mulok(x.hi, y.hi, p[3]) && x.m.size() * y.m.size() <= 16;
                for (auto & t : y.m)
                    for (auto & u : x.m)
                        ok = ok && t.first.size() + u.first.size() <= 3;
                Poly acc;
                if (ok)
                    ok = padd(acc, x, y.c, z);
                if (ok && y.c == 0)
                    z = Poly{};
                for (auto & t : y.m) {
                    if (! ok)
                        break;
                    Poly part;
                    for (auto & u : x.m) {
                        auto mono = t.first;
                        mono.insert(mono.end(), u.first.begin(), u.first.end());
                        std::sort(mono.begin(), mono.end(), [](Expr * a, Expr * b) { return a->id < b->id; });
                        i128 cc;
                        ok = ok && mulok(t.second, u.second, cc);
                        part.m.emplace_back(mono, cc);
                    }
                    i128 cc;
                    ok = ok && mulok(t.second, x.c, cc);
                    if (ok && cc != 0)
                        part.m.emplace_back(t.first, cc);
                    std::sort(part.m.begin(), part.m.end(), [](auto & a, auto & b) { return monoLess(a.first, b.first); });
                    Poly n;
                    part.lo = part.hi = 0; // set below
                    ok = ok && padd(z, part, 1, n);
                    z = n;
                }
                z.lo = *std::min_element(p, p + 4);
                z.hi = *std::max_element(p, p + 4);
            }
        }
        if (ok) {
            i128 lim = e->w >= 120 ? POLYLIM : (i128)1 << (e->w - 1);
            if (z.lo >= -lim && z.hi < lim) {
                if (e->w <= 100) {
                    z.lo = std::max(z.lo, e->slo);
                    z.hi = std::min(z.hi, e->shi);
                }
                r = std::move(z);
                return true;
            }
        }
        return atom();
    }
    return atom();
}
static i128 floordiv(i128 a, i128 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
// a <k> b through polynomials, or null to leave it alone
static Expr * canonCompare(K k, Expr * a, Expr * b)
{
    if (! g_canon || inCanon || a->w < 2)
        return nullptr;
    Poly x, y, d;
    int budget = 64;
    if (! polyOf(a, x, budget) || ! polyOf(b, y, budget) || ! padd(x, y, -1, d))
        return nullptr;
    if (d.m.empty())
        return k == K::Eq ? (d.c == 0 ? T() : F()) : k == K::Slt ? (d.c < 0 ? T() : F()) : (d.c <= 0 ? T() : F());
    if (d.m.size() == 1 && d.m[0].first.size() == 1)
        return nullptr;
    // sum <= rhs, strictness folded in
    i128 rhs = k == K::Slt ? -d.c - 1 : -d.c;
    i128 g = 0;
    for (auto & [m, c] : d.m) {
        i128 u = c < 0 ? -c : c;
        while (u) {
            i128 t = g % u;
            g = u;
            u = t;
        }
    }
    bool neg = d.m[0].second < 0, inv = false;
    for (auto & [m, c] : d.m)
        c = (neg ? -c : c) / g;
    if (k == K::Eq) {
        if (neg)
            rhs = -rhs;
        if (rhs % g != 0)
            return F();
        rhs /= g;
    }
    else {
        // g * (-s) <= rhs iff s >= ceil(-rhs / g) iff not s <= ceil(-rhs / g) - 1
        if (neg) {
            rhs = -floordiv(rhs, g) - 1;
            inv = true;
        }
        else
            rhs = floordiv(rhs, g);
    }
    // a width in which no partial sum wraps
    i128 lo = 0, hi = 0;
    std::vector<std::pair<i128, i128>> rs;
    i128 big = rhs < 0 ? -rhs : rhs;
    for (auto & [m, c] : d.m) {
        i128 l = 1, h = 1;
        for (auto * e : m) {
            i128 p[4];
            if (! mulok(l, e->slo, p[0]) || ! mulok(l, e->shi, p[1]) || ! mulok(h, e->slo, p[2]) || ! mulok(h, e->shi, p[3]))
                return nullptr;
            l = *std::min_element(p, p + 4);
            h = *std::max_element(p, p + 4);
            big += std::max(h, -l);
        }
        i128 p, q;
        if (! mulok(c, l, p) || ! mulok(c, h, q))
            return nullptr;
        lo += std::min(p, q);
        hi += std::max(p, q);
        i128 ap = p < 0 ? -p : p, aq = q < 0 ? -q : q;
        big += std::max(ap, aq) + (c < 0 ? -c : c);
    }
    if (k != K::Eq) {
        if (hi <= rhs)
            return inv ? F() : T();
        if (lo > rhs)
            return inv ? T() : F();
    }
    else if (rhs < lo || rhs > hi)
        return F();
    unsigned W = 8;
    while (W <= 100 && big >= (i128)1 << (W - 1))
        W += 8;
    if (W > 100)
        return nullptr;
    for (auto & [m, c] : d.m)
        for (auto * e : m)
            if (e->w > W)
                if (e->slo < -((i128)1 << (W - 1)) || e->shi >= (i128)1 << (W - 1))
                    return nullptr;
    inCanon = true;
    Expr * sum = nullptr;
    auto widen = [&](Expr * e) { return e->w > W ? mkextract(e, 0, W) : mksext(e, W); };
    for (auto & [m, c] : d.m) {
        Expr * t = nullptr;
        for (auto * e : m)
            t = t ? mkbin(K::Mul, t, widen(e)) : widen(e);
        i128 ac = c < 0 ? -c : c;
        if (ac != 1)
            t = mkbin(K::Mul, t, mkconst((u128)ac, W));
        sum = ! sum ? t : mkbin(c < 0 ? K::Sub : K::Add, sum, t);
    }
    Expr * r = inv ? mkbin(K::Slt, mkconst((u128)rhs, W), sum) : mkbin(k == K::Eq ? K::Eq : K::Sle, sum, mkconst((u128)rhs, W));
    inCanon = false;
    return r;
}

Expr * mkbin(K k, Expr * a, Expr * b)
{
    if (a->w != b->w) {
        fprintf(stderr, "width mismatch %d %d %d\n", (int)k, a->w, b->w);
        abort();
    }
    unsigned w = a->w;
    unsigned rw = iscmp(k) ? 1 : w;
    if (a->isconst() && b->isconst())
        return mkconst(foldbin(k, a->c, b->c, w), rw);
    if (commutes(k) && (a->isconst() || (! b->isconst() && a->id > b->id)))
        std::swap(a, b);
    u128 m = maskw(w);
    switch (k) {
    case K::Add:
        if (b->isconst()) {
            if (b->c == 0)
                return a;
            if (a->k == K::Add && a->a[1]->isconst())
                return mkbin(K::Add, a->a[0], mkconst(a->a[1]->c + b->c, w));
            if (a->k == K::Sub && a->a[0]->isconst())
                return mkbin(K::Sub, mkconst(a->a[0]->c + b->c, w), a->a[1]);
        }
        else {
            if (a->k == K::Add && a->a[1]->isconst())
                return mkbin(K::Add, mkbin(K::Add, a->a[0], b), a->a[1]);
            if (b->k == K::Add && b->a[1]->isconst())
                return mkbin(K::Add, mkbin(K::Add, a, b->a[0]), b->a[1]);
            if (b->k == K::Sub && b->a[1] == a)
                return b->a[0];
            if (a->k == K::Sub && a->a[1] == b)
                return a->a[0];
        }
        break;
    case K::Sub:
        if (b->isconst())
            return mkbin(K::Add, a, mkconst(-b->c, w));
        if (a == b)
            return mkconst(0, w);
        if (b->k == K::Add && b->a[1]->isconst())
            return mkbin(K::Add, mkbin(K::Sub, a, b->a[0]), mkconst(-b->a[1]->c, w));
        if (a->k == K::Add && a->a[1]->isconst())
            return mkbin(K::Add, mkbin(K::Sub, a->a[0], b), a->a[1]);
        if (a->k == K::Add && a->a[0] == b)
            return a->a[1];
        if (a->k == K::Add && a->a[1] == b)
            return a->a[0];
        if (a->isconst() && a->c == 0 && b->k == K::Sub)
            return mkbin(K::Sub, b->a[1], b->a[0]);
        break;
    case K::Mul:
        if (b->isconst()) {
            if (b->c == 0)
                return b;
            if (b->c == 1)
                return a;
            if (b->c == m)
                return mkbin(K::Sub, mkconst(0, w), a);
        }
        break;
    case K::UDiv:
        if (b->isconst() && b->c == 1)
            return a;
        break;
    case K::SDiv:
        if (b->isconst() && b->c == 1)
            return a;
        if (a->w <= 100 && a->slo >= 0 && b->slo > 0)
            return mkbin(K::UDiv, a, b);
        break;
    case K::SRem:
        if (a->w <= 100 && a->slo >= 0 && b->slo > 0)
            return mkbin(K::URem, a, b);
        break;
    case K::Shl:
    case K::LShr:
    case K::AShr:
        if (b->isconst() && b->c == 0)
            return a;
        if (b->isconst() && b->c >= w && k != K::AShr)
            return mkconst(0, w);
        if (k == K::AShr && a->w <= 100 && a->slo >= 0)
            return mkbin(K::LShr, a, b);
        break;
    case K::And:
        if (a == b)
            return a;
        if (a->k == b->k && (a->k == K::ZExt || a->k == K::SExt) && a->a[0]->w == b->a[0]->w)
            return a->k == K::ZExt ? mkzext(mkbin(k, a->a[0], b->a[0]), w) : mksext(mkbin(k, a->a[0], b->a[0]), w);
        if (a->k == K::ZExt && b->isconst() && b->c != 0)
            return mkzext(mkbin(k, a->a[0], mkconst(b->c & maskw(a->a[0]->w), a->a[0]->w)), w);
        if (b->isconst()) {
            if (b->c == 0)
                return b;
            if (b->c == m)
                return a;
            if (a->k == K::And && a->a[1]->isconst())
                return mkbin(K::And, a->a[0], mkconst(a->a[1]->c & b->c, w));
            // mask of low bits
            if ((b->c & (b->c + 1)) == 0 && a->w <= 100) {
                if (a->uhi <= b->c)
                    return a;
                unsigned n = 0;
                while ((b->c >> n) & 1)
                    ++n;
                return mkzext(mkextract(a, 0, n), w);
            }
        }
        if (w == 1 && (a == mknot(b)))
            return F();
        break;
    case K::Or:
        if (a == b)
            return a;
        if (a->k == b->k && (a->k == K::ZExt || a->k == K::SExt) && a->a[0]->w == b->a[0]->w)
            return a->k == K::ZExt ? mkzext(mkbin(k, a->a[0], b->a[0]), w) : mksext(mkbin(k, a->a[0], b->a[0]), w);
        if (b->isconst()) {
            if (b->c == 0)
                return a;
            if (b->c == m)
                return b;
        }
        if (w == 1 && (a == mknot(b)))
            return T();
        for (int sw = 0; sw < 2; ++sw) { // a value rebuilt from its halves
            Expr *h = sw ? b : a, *l = sw ? a : b;
            if (h->k == K::Shl && h->a[1]->isconst() && h->a[1]->c > 0 && h->a[1]->c < w && l->k == K::ZExt && l->a[0]->w <= h->a[1]->c) {
                unsigned sh = (unsigned)h->a[1]->c;
                return mkconcat(mkextract(h->a[0], 0, w - sh), mkzext(l->a[0], sh));
            }
        }
        break;
    case K::Xor:
        if (a->k == b->k && (a->k == K::ZExt || a->k == K::SExt) && a->a[0]->w == b->a[0]->w)
            return a->k == K::ZExt ? mkzext(mkbin(k, a->a[0], b->a[0]), w) : mksext(mkbin(k, a->a[0], b->a[0]), w);
        if (a == b)
            return mkconst(0, w);
        if (b->isconst()) {
            if (b->c == 0)
                return a;
            if (b->c == m)
                return mknot(a);
        }
        break;
    case K::Eq:
        if (a == b)
            return T();
        if (u128 d; ! b->isconst() && linDiff(a, b, d))
            return d == 0 ? T() : F();
        if (Expr * r = canonCompare(k, a, b))
            return r;
        if (w == 1) {
            if (b->isconst())
                return b->c ? a : mknot(a);
        }
        if (w <= 100 && (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo))
            return F();
        if (b->isconst()) {
            if (a->k == K::Add && a->a[1]->isconst())
                return mkbin(K::Eq, a->a[0], mkconst(b->c - a->a[1]->c, w));
            if (a->k == K::Sub && a->a[0]->isconst())
                return mkbin(K::Eq, a->a[1], mkconst(a->a[0]->c - b->c, w));
            if (a->k == K::Not)
                return mkbin(K::Eq, a->a[0], mkconst(~b->c, w));
            if (a->k == K::ZExt)
                return (b->c >> a->a[0]->w) ? F() : mkbin(K::Eq, a->a[0], mkconst(b->c, a->a[0]->w));
            if (a->k == K::SExt) {
                u128 low = b->c & maskw(a->a[0]->w);
                return ((u128)sextw(low, a->a[0]->w) & m) == b->c ? mkbin(K::Eq, a->a[0], mkconst(low, a->a[0]->w)) : F();
            }
            if (a->k == K::Ite && (a->a[1]->isconst() || a->a[2]->isconst()))
                return mkite(a->a[0], mkbin(K::Eq, a->a[1], b), mkbin(K::Eq, a->a[2], b));
            if (a->k == K::Sub && b->c == 0)
                return mkbin(K::Eq, a->a[0], a->a[1]);
            if (a->k == K::Concat)
                return mkbin(K::And, mkbin(K::Eq, a->a[0], mkconst(b->c >> a->a[1]->w, a->a[0]->w)),
                    mkbin(K::Eq, a->a[1], mkconst(b->c, a->a[1]->w)));
        }
        else if (a->k == K::Add && a->a[1]->isconst() && b->k == K::Add && b->a[1]->isconst())
            return mkbin(K::Eq, mkbin(K::Add, a->a[0], mkconst(a->a[1]->c - b->a[1]->c, w)), b->a[0]);
        else if ((a->k == K::ZExt && b->k == K::ZExt || a->k == K::SExt && b->k == K::SExt) && a->a[0]->w == b->a[0]->w)
            return mkbin(K::Eq, a->a[0], b->a[0]);
        break;
    case K::Ult:
    case K::Ule:
        if (u128 d; ! a->isconst() && ! b->isconst() && linDiff(a, b, d) && d == 0)
            return k == K::Ule ? T() : F();
        if (w > 1 && w <= 100 && a->slo >= 0 && b->slo >= 0)
            if (Expr * r = canonCompare(k == K::Ult ? K::Slt : K::Sle, a, b))
                return r;
        if (a == b)
            return k == K::Ule ? T() : F();
        if (w <= 100) {
            if (k == K::Ult) {
                if (a->uhi < b->ulo)
                    return T();
                if (a->ulo >= b->uhi)
                    return F();
            }
            else {
                if (a->uhi <= b->ulo)
                    return T();
                if (a->ulo > b->uhi)
                    return F();
            }
        }
        if (w == 1) // Ult: !a & b ; Ule: !a | b
            return k == K::Ult ? mkbin(K::And, mknot(a), b) : mkbin(K::Or, mknot(a), b);
        if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w)
            return mkbin(k, a->a[0], b->a[0]);
        if (a->k == K::ZExt && b->isconst() && (b->c >> a->a[0]->w) == 0)
            return mkbin(k, a->a[0], mkconst(b->c, a->a[0]->w));
        if (b->k == K::ZExt && a->isconst() && (a->c >> b->a[0]->w) == 0)
            return mkbin(k, mkconst(a->c, b->a[0]->w), b->a[0]);
        if (b->isconst() && k == K::Ult && b->c == 1)
            return mkbin(K::Eq, a, mkconst(0, w));
        if (a->isconst() && k == K::Ult && a->c == 0)
            return mknot(mkbin(K::Eq, b, mkconst(0, w)));
        if (a->k == K::Ite && b->isconst() && (a->a[1]->isconst() || a->a[2]->isconst()))
            return mkite(a->a[0], mkbin(k, a->a[1], b), mkbin(k, a->a[2], b));
        if (b->k == K::Ite && a->isconst() && (b->a[1]->isconst() || b->a[2]->isconst()))
            return mkite(b->a[0], mkbin(k, a, b->a[1]), mkbin(k, a, b->a[2]));
        break;
    case K::Slt:
    case K::Sle:
        if (a == b)
            return k == K::Sle ? T() : F();
        if (u128 d; ! a->isconst() && ! b->isconst() && linDiff(a, b, d) && d == 0)
            return k == K::Sle ? T() : F();
        if (Expr * r = canonCompare(k, a, b))
            return r;
        if (w <= 100) {
            if (k == K::Slt) {
                if (a->shi < b->slo)
                    return T();
                if (a->slo >= b->shi)
                    return F();
            }
            else {
                if (a->shi <= b->slo)
                    return T();
                if (a->slo > b->shi)
                    return F();
            }
            if (w > 1 && a->slo >= 0 && b->slo >= 0 && ! inCanon)
                return mkbin(k == K::Slt ? K::Ult : K::Ule, a, b);
            // move a constant addend across when nothing can wrap
            auto nowrap = [&](Expr * x) { return x->k == K::Add && x->a[1]->isconst() && x->a[0]->slo + sextw(x->a[1]->c, w) >= smin_of(w) && x->a[0]->shi + sextw(x->a[1]->c, w) <= smax_of(w); };
            if (b->isconst() && nowrap(a)) {
                i128 nc = sextw(b->c, w) - sextw(a->a[1]->c, w);
                if (nc >= smin_of(w) && nc <= smax_of(w))
                    return mkbin(k, a->a[0], mkconst((u128)nc, w));
            }
            if (a->isconst() && nowrap(b)) {
                i128 nc = sextw(a->c, w) - sextw(b->a[1]->c, w);
                if (nc >= smin_of(w) && nc <= smax_of(w))
                    return mkbin(k, mkconst((u128)nc, w), b->a[0]);
            }
        }
        if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w)
            return mkbin(k, a->a[0], b->a[0]);
        if (a->k == K::Ite && b->isconst() && (a->a[1]->isconst() || a->a[2]->isconst()))
            return mkite(a->a[0], mkbin(k, a->a[1], b), mkbin(k, a->a[2], b));
        if (b->k == K::Ite && a->isconst() && (b->a[1]->isconst() || b->a[2]->isconst()))
            return mkite(b->a[0], mkbin(k, a, b->a[1]), mkbin(k, a, b->a[2]));
        break;
    default: break;
    }
    return fin(intern(k, rw, a, b));
}

Expr * mkzext(Expr * a, unsigned w)
{
    if (a->w == w)
        return a;
    if (a->isconst())
        return mkconst(a->c, w);
    if (a->k == K::ZExt)
        return mkzext(a->a[0], w);
    if (a->k == K::Ite && a->a[1]->isconst() && a->a[2]->isconst())
        return mkite(a->a[0], mkconst(a->a[1]->c, w), mkconst(a->a[2]->c, w));
    return fin(intern(K::ZExt, w, a));
}

Expr * mksext(Expr * a, unsigned w)
{
    if (a->w == w)
        return a;
    if (a->isconst())
        return mkconst((u128)sextw(a->c, a->w), w);
    if (a->k == K::SExt)
        return mksext(a->a[0], w);
    if (a->k == K::ZExt || (a->w > 1 && a->w <= 100 && a->slo >= 0))
        return mkzext(a, w);
    if (a->k == K::Ite && a->a[1]->isconst() && a->a[2]->isconst())
        return mkite(a->a[0], mksext(a->a[1], w), mksext(a->a[2], w));
    return fin(intern(K::SExt, w, a));
}

Expr * mkextract(Expr * a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w)
        return a;
    if (a->isconst())
        return mkconst(a->c >> lo, w);
    if (a->k == K::Extract)
        return mkextract(a->a[0], a->aux + lo, w);
    if (a->k == K::Concat) {
        unsigned lw = a->a[1]->w;
        if (lo + w <= lw)
            return mkextract(a->a[1], lo, w);
        if (lo >= lw)
            return mkextract(a->a[0], lo - lw, w);
    }
    if (a->k == K::ZExt || a->k == K::SExt) {
        Expr * s = a->a[0];
        if (lo + w <= s->w)
            return mkextract(s, lo, w);
        if (a->k == K::ZExt && lo >= s->w)
            return mkconst(0, w);
        if (lo == 0 && w > s->w)
            return a->k == K::ZExt ? mkzext(s, w) : mksext(s, w);
    }
    if (a->k == K::Ite && a->a[1]->isconst() && a->a[2]->isconst())
        return mkite(a->a[0], mkextract(a->a[1], lo, w), mkextract(a->a[2], lo, w));
    if (lo == 0 && (a->k == K::Add || a->k == K::Sub || a->k == K::Mul || a->k == K::And || a->k == K::Or || a->k == K::Xor))
        return mkbin(a->k, mkextract(a->a[0], 0, w), mkextract(a->a[1], 0, w));
    if ((a->k == K::And || a->k == K::Or || a->k == K::Xor))
        return mkbin(a->k, mkextract(a->a[0], lo, w), mkextract(a->a[1], lo, w));
    if (a->k == K::LShr && a->a[1]->isconst() && (unsigned)a->a[1]->c + lo + w <= a->w)
        return mkextract(a->a[0], lo + (unsigned)a->a[1]->c, w);
    return fin(intern(K::Extract, w, a, nullptr, nullptr, lo));
}

Expr * mkconcat(Expr * hi, Expr * lo)
{
    unsigned w = hi->w + lo->w;
    if (hi->isconst() && lo->isconst())
        return mkconst((hi->c << lo->w) | lo->c, w);
    if (hi->isconst() && hi->c == 0)
        return mkzext(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w)
        return mkextract(hi->a[0], lo->aux, w);
    if (hi->k == K::Extract && hi->aux == lo->w && hi->a[0]->w == w && mkextract(hi->a[0], 0, lo->w) == lo)
        return hi->a[0];
    if (hi->k == K::AShr && hi->w == lo->w && hi->a[0] == lo && hi->a[1]->isconst() && hi->a[1]->c == lo->w - 1)
        return mksext(lo, w);
    return fin(intern(K::Concat, w, hi, lo));
}

Expr * mkite(Expr * c, Expr * t, Expr * f)
{
    if (c->isconst())
        return c->c ? t : f;
    if (t == f)
        return t;
    if (c->k == K::Not)
        return mkite(c->a[0], f, t);
    if (t->w == 1) {
        if (t->isconst())
            return t->c ? mkbin(K::Or, c, f) : mkbin(K::And, mknot(c), f);
        if (f->isconst())
            return f->c ? mkbin(K::Or, mknot(c), t) : mkbin(K::And, c, t);
    }
    if (t->k == K::Ite && t->a[0] == c)
        t = t->a[1];
    if (f->k == K::Ite && f->a[0] == c)
        f = f->a[2];
    if (t == f)
        return t;
    return fin(intern(K::Ite, t->w, c, t, f));
}

u128 evalexpr(Expr * e, const std::vector<u64> & model, u64 gen)
{
    if (e->k == K::Const)
        return e->c;
    if (e->k == K::Var)
        return (e->aux < model.size() ? model[e->aux] : 0) & maskw(e->w);
    if (e->evalgen == gen)
        return e->evalval;
    u128 r;
    switch (e->k) {
    case K::Not: r = ~evalexpr(e->a[0], model, gen) & maskw(e->w); break;
    case K::ZExt: r = evalexpr(e->a[0], model, gen); break;
    case K::SExt: r = (u128)sextw(evalexpr(e->a[0], model, gen), e->a[0]->w) & maskw(e->w); break;
    case K::Extract: r = (evalexpr(e->a[0], model, gen) >> e->aux) & maskw(e->w); break;
    case K::Concat: r = (evalexpr(e->a[0], model, gen) << e->a[1]->w) | evalexpr(e->a[1], model, gen); break;
    case K::Ite: r = evalexpr(e->a[0], model, gen) ? evalexpr(e->a[1], model, gen) : evalexpr(e->a[2], model, gen); break;
    default: r = foldbin(e->k, evalexpr(e->a[0], model, gen), evalexpr(e->a[1], model, gen), e->a[0]->w); break;
    }
    e->evalgen = gen;
    e->evalval = r;
    return r;
}

const std::vector<uint32_t> & varsof(Expr * e)
{
    if (e->vars)
        return *e->vars;
    auto * v = new std::vector<uint32_t>();
    if (e->k == K::Var)
        v->push_back(e->aux);
    else
        for (auto * x : e->a)
            if (x) {
                auto & s = varsof(x);
                std::vector<uint32_t> r;
                std::set_union(v->begin(), v->end(), s.begin(), s.end(), std::back_inserter(r));
                v->swap(r);
            }
    e->vars = v;
    return *v;
}

unsigned signed_bits(Expr * e)
{
    if (e->w > 100)
        return e->w;
    for (unsigned n = 1; n < e->w; ++n)
        if (e->slo >= -((i128)1 << (n - 1)) && e->shi <= ((i128)1 << (n - 1)) - 1)
            return n;
    return e->w;
}

std::string show(Expr * e, int depth)
{
    static const char * names[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "<<", ">>u", ">>s", "&", "|", "^", "~", "zext", "sext", "extract", "concat", "=", "<u", "<=u", "<", "<=", "ite"};
    if (e->k == K::Const) {
        i128 v = sextw(e->c, e->w);
        if (e->w == 1)
            return e->c ? "true" : "false";
        return std::to_string((long long)v);
    }
    if (e->k == K::Var)
        return g_vars[e->aux].name;
    if (depth == 0)
        return "...";
    std::string r = std::string("(") + names[(int)e->k];
    for (auto * x : e->a)
        if (x)
            r += " " + show(x, depth - 1);
    return r + ")";
}
