// The interpreter. Every fork re-executes the current instruction, so an instruction asks for
// all of its decisions before it has any effect.

struct ForkChild { State * s; };

static State * cloneState(const State & s) { return new State(s); }

static string stackOf(const State & s)
{
    string r;
    int n = 0;
    for (size_t i = s.st.size(); i-- > 0 && n < 12; ++n) {
        string d = demangle(s.st[i].f->name);
        if (d.size() > 160)
            d = d.substr(0, 160) + "...";
        r += (n ? "," : "") + ("\"" + jesc(d) + "\"");
    }
    return r;
}

static string inputsOf(const State & s, const Model & m)
{
    string r;
    for (size_t i = 0; i < s.inputs.size(); ++i) {
        auto & [n, e] = s.inputs[i];
        i128 v = sextw(evalexpr(e, m.v, m.gen), e->w);
        r += (i ? "," : "") + ("[\"" + jesc(n) + "\"," + std::to_string((i64)v) + "]");
    }
    return r;
}

static string notesOf(const State & s, const Model & m)
{
    string notes;
    for (size_t i = 0; i < s.notes.size(); ++i) {
        auto & [n, v] = s.notes[i];
        i64 x = v.e ? (i64)sextw(evalexpr(v.e, m.v, m.gen), v.e->w) : (i64)v.c;
        notes += (i ? "," : "") + ("[\"" + jesc(n) + "\"," + std::to_string(x) + "]");
    }
    return notes;
}

static void report(State & s, const ModelP & m, const char * kind, const string & msg)
{
    string key = string(kind) + ":" + msg;
    if (string(kind) != "assert" && ! s.st.empty())
        key += s.st.back().f->name;
    if (! violKeys.insert(key).second)
        return;
    openout();
    string notes = notesOf(s, *m);
    bool known = msg.compare(0, 7, "known: ") == 0; // a listed finding: recorded, not counted
    fprintf(outf, "{\"type\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"inputs\":[%s],\"notes\":[%s],\"stack\":[%s]}\n", known ? "known" : "violation", kind, jesc(msg).c_str(), inputsOf(s, *m).c_str(), notes.c_str(), stackOf(s).c_str());
    fflush(outf);
    if (known)
        return;
    if (++sh->violations >= maxViol)
        sh->stop = 1;
}

static void reportIncomplete(State & s, const char * what)
{
    ++sh->incomplete;
    openout();
    fprintf(outf, "{\"type\":\"incomplete\",\"msg\":\"%s\",\"inputs\":[%s],\"stack\":[%s]}\n", jesc(what).c_str(), s.model ? inputsOf(s, *s.model).c_str() : "", stackOf(s).c_str());
    fflush(outf);
}

[[noreturn]] static void fault(State & s, const string & msg)
{
    report(s, s.model, "fault", msg);
    s.discard = true;
    throw PathEnd{};
}

// ---------------------------------------------------------------- path-specific ranges

static u64 nextRgen = 2;

static const Rng & prange(State & s, Expr * e)
{
    if (e->pgen == s.rgen)
        return e->prng;
    Rng r;
    if (e->k == K::Const || e->k == K::Var)
        r = {e->ulo, e->uhi, e->slo, e->shi};
    else {
        Rng ch[3];
        for (int i = 0; i < 3; ++i)
            if (e->a[i])
                ch[i] = prange(s, e->a[i]);
        r = rangeFrom(e, ch);
        r.ulo = std::max(r.ulo, e->ulo);
        r.uhi = std::min(r.uhi, e->uhi);
        r.slo = std::max(r.slo, e->slo);
        r.shi = std::min(r.shi, e->shi);
    }
    auto it = s.rng.find(e);
    if (it != s.rng.end()) {
        r.ulo = std::max(r.ulo, it->second.ulo);
        r.uhi = std::min(r.uhi, it->second.uhi);
        r.slo = std::max(r.slo, it->second.slo);
        r.shi = std::min(r.shi, it->second.shi);
        if (e->w <= 100)
            tighten(r, e->w);
    }
    e->prng = r;
    e->pgen = s.rgen;
    return e->prng;
}

static void refine(State & s, Expr * e, Rng r, int depth = 0)
{
    if (e->isconst() || e->w > 100)
        return;
    Rng o = prange(s, e);
    Rng n = o;
    n.ulo = std::max(n.ulo, r.ulo);
    n.uhi = std::min(n.uhi, r.uhi);
    n.slo = std::max(n.slo, r.slo);
    n.shi = std::min(n.shi, r.shi);
    if (n.ulo > n.uhi || n.slo > n.shi)
        return; // only on an infeasible path
    tighten(n, e->w);
    if (n.ulo > n.uhi || n.slo > n.shi)
        return;
    if (n.ulo == o.ulo && n.uhi == o.uhi && n.slo == o.slo && n.shi == o.shi)
        return;
    s.rng[e] = n;
    s.rgen = nextRgen++;
    if (depth > 12)
        return;
    auto full = [](unsigned w) { Rng f; f.ulo = 0; f.uhi = maskw(w); f.slo = -((i128)1 << (w - 1)); f.shi = ((i128)1 << (w - 1)) - 1; return f; };
    unsigned w = e->w;
    auto fitsS = [&](i128 lo, i128 hi) { return lo >= -((i128)1 << (w - 1)) && hi <= ((i128)1 << (w - 1)) - 1; };
    switch (e->k) {
    case K::Add:
        for (int i = 0; i < 2; ++i) {
            Expr *x = e->a[i], *y = e->a[1 - i];
            Rng rx = prange(s, x), ry = prange(s, y);
            if (fitsS(rx.slo + ry.slo, rx.shi + ry.shi)) {
                Rng f = full(w);
                f.slo = std::max(f.slo, n.slo - ry.shi);
                f.shi = std::min(f.shi, n.shi - ry.slo);
                refine(s, x, f, depth + 1);
            }
        }
        break;
    case K::Sub: {
        Expr *x = e->a[0], *y = e->a[1];
        Rng rx = prange(s, x), ry = prange(s, y);
        if (fitsS(rx.slo - ry.shi, rx.shi - ry.slo)) {
            Rng f = full(w);
            f.slo = std::max(f.slo, n.slo + ry.slo);
            f.shi = std::min(f.shi, n.shi + ry.shi);
            refine(s, x, f, depth + 1);
            f = full(w);
            f.slo = std::max(f.slo, rx.slo - n.shi);
            f.shi = std::min(f.shi, rx.shi - n.slo);
            refine(s, y, f, depth + 1);
        }
        break;
    }
    case K::ZExt: {
        Rng f = full(e->a[0]->w);
        f.ulo = n.ulo;
        f.uhi = std::min(f.uhi, n.uhi);
        refine(s, e->a[0], f, depth + 1);
        break;
    }
    case K::SExt: {
        Rng f = full(e->a[0]->w);
        f.slo = std::max(f.slo, n.slo);
        f.shi = std::min(f.shi, n.shi);
        refine(s, e->a[0], f, depth + 1);
        break;
    }
    case K::Extract:
        if (e->aux == 0 && e->a[0]->w <= 100) {
            Rng ra = prange(s, e->a[0]);
            if (ra.uhi <= maskw(w)) {
                Rng f = full(e->a[0]->w);
                f.ulo = n.ulo;
                f.uhi = n.uhi;
                refine(s, e->a[0], f, depth + 1);
            }
            else if (fitsS(ra.slo, ra.shi)) {
                Rng f = full(e->a[0]->w);
                f.slo = n.slo;
                f.shi = n.shi;
                refine(s, e->a[0], f, depth + 1);
            }
        }
        break;
    case K::Mul:
        if (e->a[1]->isconst() || e->a[0]->isconst()) {
            Expr *x = e->a[1]->isconst() ? e->a[0] : e->a[1], *y = e->a[1]->isconst() ? e->a[1] : e->a[0];
            i128 k = sextw(y->c, w);
            Rng rx = prange(s, x);
            i128 lim = (i128)1 << 60;
            if (k > 0 && k < lim && rx.slo > -lim && rx.shi < lim && fitsS(rx.slo * k, rx.shi * k)) {
                Rng f = full(w);
                auto fl = [](i128 a, i128 b) { i128 q = a / b; return a % b < 0 ? q - 1 : q; };
                f.slo = std::max(f.slo, fl(n.slo + k - 1, k));
                f.shi = std::min(f.shi, fl(n.shi, k));
                refine(s, x, f, depth + 1);
            }
        }
        break;
    default: break;
    }
}

static Rng fullRng(unsigned w)
{
    Rng f;
    f.ulo = 0;
    f.uhi = maskw(w);
    f.slo = -((i128)1 << (w - 1));
    f.shi = ((i128)1 << (w - 1)) - 1;
    return f;
}

// c is true on this path
static void learn(State & s, Expr * c, bool val, int depth = 0)
{
    if (c->isconst())
        return;
    while (c->k == K::Not) {
        c = c->a[0];
        val = ! val;
    }
    {
        Rng f = fullRng(1);
        f.ulo = f.uhi = val;
        refine(s, c, f, 13);
    }
    Expr *a = c->a[0], *b = c->a[1];
    if (depth < 8 && ((c->k == K::And && val) || (c->k == K::Or && ! val))) {
        learn(s, a, val, depth + 1);
        learn(s, b, val, depth + 1);
        return;
    }
    if (c->k != K::Eq && c->k != K::Ult && c->k != K::Ule && c->k != K::Slt && c->k != K::Sle)
        return;
    unsigned w = a->w;
    if (w > 100)
        return;
    Rng ra = prange(s, a), rb = prange(s, b);
    Rng fa = fullRng(w), fb = fullRng(w);
    bool sg = c->k == K::Slt || c->k == K::Sle;
    if (c->k == K::Eq) {
        if (val) {
            fa = rb;
            fb = ra;
        }
        else {
            auto cut = [](Rng & f, const Rng & x, const Rng & k) {
                if (k.ulo != k.uhi)
                    return;
                if (x.ulo == k.ulo) f.ulo = k.ulo + 1;
                if (x.uhi == k.ulo) f.uhi = k.ulo - 1;
                if (x.slo == k.slo) f.slo = k.slo + 1;
                if (x.shi == k.slo) f.shi = k.slo - 1;
            };
            cut(fa, ra, rb);
            cut(fb, rb, ra);
        }
    }
    else {
        // a < b, a <= b or their negations b <= a, b < a
        bool strict = (c->k == K::Ult || c->k == K::Slt) == val;
        Rng &lo = val ? fa : fb, &hi = val ? fb : fa;
        const Rng &rlo = val ? ra : rb, &rhi = val ? rb : ra;
        if (sg) {
            lo.shi = std::min(lo.shi, rhi.shi - (strict ? 1 : 0));
            hi.slo = std::max(hi.slo, rlo.slo + (strict ? 1 : 0));
        }
        else {
            if (! strict || rhi.uhi > 0)
                lo.uhi = std::min(lo.uhi, rhi.uhi - (strict ? 1 : 0));
            if (! strict || rlo.ulo < maskw(w))
                hi.ulo = std::max(hi.ulo, rlo.ulo + (strict ? 1 : 0));
        }
    }
    refine(s, a, fa);
    refine(s, b, fb);
}

// A fresh result: a constant when this path leaves it a single value.
static Val fold(State & s, Expr * e)
{
    if (e->k == K::Const || e->w > 64)
        return fromexpr(e);
    const Rng & r = prange(s, e);
    if (r.ulo == r.uhi)
        return cv((u64)r.ulo);
    return fromexpr(e);
}

static void assume(State & s, Expr * c)
{
    if (c->isconst())
        return;
    // conjunctions are split so that the solver's slicing can see the parts
    if (c->k == K::And && c->w == 1) {
        assume(s, c->a[0]);
        assume(s, c->a[1]);
        return;
    }
    auto it = s.known.find(c);
    if (it != s.known.end())
        return;
    s.known[c] = 1;
    s.known[mknot(c)] = 0;
    s.pc.push_back(c);
    learn(s, c, true);
}

static void pushState(State * o)
{
    ++sh->forks;
    if (jobs > 1 && sh->running.load() < jobs) {
        int r = ++sh->running;
        if (r <= jobs) {
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0)
                throw ForkChild{o};
            if (p > 0) {
                delete o;
                return;
            }
        }
        --sh->running;
    }
    work.push_back(o);
}

// The truth of a one-bit condition on this path; forks when both are possible.
static bool decide(State & s, Expr * c)
{
    if (c->isconst())
        return c->c != 0;
    auto it = s.known.find(c);
    if (it != s.known.end())
        return it->second != 0;
    {
        const Rng & r = prange(s, c);
        if (r.ulo == r.uhi)
            return r.ulo != 0;
    }
    bool v = evalexpr(c, s.model->v, s.model->gen) != 0;
    Expr * other = v ? mknot(c) : c;
    ModelP om;
    Res r = solve_query(s.pc, other, s.model, om);
    if (r == Res::Sat) {
        State * o = cloneState(s);
        assume(*o, other);
        o->model = om;
        assume(s, mknot(other));
        pushState(o);
    }
    else if (r == Res::Unsat) {
        s.known[c] = v;
        s.known[mknot(c)] = ! v;
        learn(s, c, v); // implied, so it may be used
    }
    else {
        reportIncomplete(s, "solver gave up on a branch");
        assume(s, mknot(other));
    }
    return v;
}

static Expr * boolOf(const Val & v) { return v.e ? v.e : mkconst(v.c & 1, 1); }

static u64 concretize(State & s, Expr * e)
{
    while (true) {
        if (e->isconst())
            return (u64)e->c;
        u128 v = evalexpr(e, s.model->v, s.model->gen);
        if (decide(s, mkbin(K::Eq, e, mkconst(v, e->w))))
            return (u64)v;
    }
}
static u64 conc(State & s, const Val & v) { return v.e ? concretize(s, v.e) : v.c; }

// ---------------------------------------------------------------- memory access

static string describe(State & s, u64 a)
{
    char b[128];
    Obj * o = s.mem.get(a >> OFFBITS);
    snprintf(b, sizeof b, "address object %llu offset %lld%s size %lld", (unsigned long long)(a >> OFFBITS), (long long)(a & ((1u << OFFBITS) - 1)), o ? "" : " (no such object)", o ? (long long)o->size : 0ll);
    return b;
}

static Obj * access(State & s, u64 a, u64 bytes, bool write)
{
    Obj * o = a < FUNCBASE ? s.mem.get(a >> OFFBITS) : nullptr;
    u64 off = a & ((1u << OFFBITS) - 1);
    if (! o || off + bytes > o->size) {
        if (a < 4096)
            fault(s, write ? "store through a null pointer" : "load through a null pointer");
        fault(s, string(write ? "invalid store: " : "invalid load: ") + (o ? "out of bounds" : "freed or wild pointer"));
    }
    if (o->kind == 3)
        throw EngineError{"access to external global " + globalName[o->id]};
    if (write) {
        if (o->ro)
            fault(s, "store to constant memory");
        return s.mem.getw(a >> OFFBITS);
    }
    return o;
}

static Val loadLeaf(State & s, u64 a, const Leaf & l)
{
    a += l.off;
    Obj * o = access(s, a, l.bytes, false);
    u64 off = a & ((1u << OFFBITS) - 1);
    bool sym = false;
    if (o->nsym)
        for (unsigned i = 0; i < l.bytes; ++i)
            if (o->s[off + i].e) {
                sym = true;
                break;
            }
    if (! sym) {
        if (l.w <= 64) {
            u64 v = 0;
            memcpy(&v, &o->d[off], l.bytes);
            return cv(v & m64(l.w));
        }
        u128 v = 0;
        memcpy(&v, &o->d[off], l.bytes);
        Val r;
        r.e = mkconst(v, l.w);
        return r;
    }
    // a whole stored expression?
    Expr * e = o->s[off].e;
    if (e && o->s[off].idx == 0 && e->w == l.bytes * 8u) {
        bool whole = true;
        for (unsigned i = 1; i < l.bytes && whole; ++i)
            whole = o->s[off + i].e == e && o->s[off + i].idx == i;
        if (whole)
            return fold(s, l.w == e->w ? e : mkextract(e, 0, l.w));
    }
    // runs of bytes of one expression are extracted together
    Expr * r = nullptr;
    for (unsigned i = 0; i < l.bytes;) {
        Expr * part;
        unsigned n = 1;
        Expr * x = o->s[off + i].e;
        if (x) {
            unsigned idx = o->s[off + i].idx;
            while (i + n < l.bytes && o->s[off + i + n].e == x && o->s[off + i + n].idx == idx + n)
                ++n;
            part = mkextract(x, idx * 8, n * 8);
        }
        else
            part = mkconst(o->d[off + i], 8);
        r = r ? mkconcat(part, r) : part;
        i += n;
    }
    if (r->w != l.w)
        r = mkextract(r, 0, l.w);
    if (l.w > 64) {
        Val v;
        v.e = r;
        return v;
    }
    return fold(s, r);
}

static void storeLeaf(State & s, u64 a, const Leaf & l, const Val & v)
{
    a += l.off;
    Obj * o = access(s, a, l.bytes, true);
    u64 off = a & ((1u << OFFBITS) - 1);
    if (v.e && ! v.e->isconst()) {
        Expr * e = v.e;
        if (e->w < l.bytes * 8u)
            e = mkzext(e, l.bytes * 8u);
        if (o->s.empty())
            o->s.resize(o->size);
        for (unsigned i = 0; i < l.bytes; ++i) {
            if (! o->s[off + i].e)
                ++o->nsym;
            o->s[off + i].e = e;
            o->s[off + i].idx = (uint8_t)i;
        }
        return;
    }
    if (o->nsym)
        for (unsigned i = 0; i < l.bytes; ++i)
            if (o->s[off + i].e) {
                o->s[off + i].e = nullptr;
                --o->nsym;
            }
    if (v.e) {
        u128 c = v.e->c;
        memcpy(&o->d[off], &c, l.bytes);
    }
    else {
        u64 c = v.c & m64(l.w);
        memcpy(&o->d[off], &c, l.bytes);
    }
}

static void copyBytes(State & s, u64 dst, u64 src, u64 n)
{
    if (! n)
        return;
    access(s, src, n, false);
    Obj * d = access(s, dst, n, true);
    Obj * o = s.mem.get(src >> OFFBITS); // after a possible copy-on-write of the same object
    u64 so = src & ((1u << OFFBITS) - 1), doff = dst & ((1u << OFFBITS) - 1);
    vector<SymByte> tmp;
    if (o->nsym)
        tmp.assign(o->s.begin() + (long)so, o->s.begin() + (long)(so + n));
    memmove(&d->d[doff], &o->d[so], n);
    if (d->nsym)
        for (u64 i = 0; i < n; ++i)
            if (d->s[doff + i].e) {
                d->s[doff + i].e = nullptr;
                --d->nsym;
            }
    if (! tmp.empty())
        for (u64 i = 0; i < n; ++i)
            if (tmp[i].e) {
                if (d->s.empty())
                    d->s.resize(d->size);
                d->s[doff + i] = tmp[i];
                ++d->nsym;
            }
}

// All feasible values of a symbolic address.
static const size_t MAXADDR = 300;
static vector<u64> addresses(State & s, Expr * a)
{
    vector<u64> r;
    vector<Expr *> pc = s.pc;
    ModelP m = s.model;
    while (true) {
        u64 v = (u64)evalexpr(a, m->v, m->gen);
        r.push_back(v);
        if (r.size() > MAXADDR)
            throw EngineError{"too many values for a symbolic address"};
        Expr * ne = mknot(mkbin(K::Eq, a, mkconst(v, 64)));
        if (ne->isconst()) {
            if (! ne->c)
                break;
        }
        ModelP om;
        Res q = solve_query(pc, ne, m, om);
        if (q == Res::Unknown)
            throw EngineError{"solver gave up on an address"};
        if (q == Res::Unsat)
            break;
        pc.push_back(ne);
        m = om;
    }
    std::sort(r.begin(), r.end());
    return r;
}

static void loadSym(State & s, Expr * addr, Inst & in, Val * out)
{
    auto as = addresses(s, addr);
    u64 bytes = 0;
    for (auto & l : in.leaves)
        bytes = std::max<u64>(bytes, l.off + l.bytes);
    for (auto a : as) {
        Obj * o = s.mem.get(a >> OFFBITS);
        if (a >= FUNCBASE || ! o || (a & ((1u << OFFBITS) - 1)) + bytes > o->size)
            if (decide(s, mkbin(K::Eq, addr, mkconst(a, 64))))
                access(s, a, bytes, false); // reports the fault
    }
    vector<vector<Val>> vs;
    bool ptr = false;
    for (auto a : as) {
        vector<Val> v;
        Obj * o = s.mem.get(a >> OFFBITS);
        if (a >= FUNCBASE || ! o || (a & ((1u << OFFBITS) - 1)) + bytes > o->size)
            continue;
        for (auto & l : in.leaves) {
            v.push_back(loadLeaf(s, a, l));
            if (l.w == 64 && ! l.fp && ! v.back().e && v.back().c >= ((u64)1 << OFFBITS) && v.back().c < FUNCBASE && s.mem.get(v.back().c >> OFFBITS))
                ptr = true;
            if (l.w == 64 && ! v.back().e && v.back().c >= FUNCBASE && v.back().c < FUNCBASE + 16 * funcByIdx.size())
                ptr = true;
        }
        vs.push_back(v);
    }
    if (ptr && as.size() > 1) { // pointers are forked over, not merged
        u64 a = concretize(s, addr);
        for (size_t i = 0; i < in.leaves.size(); ++i)
            out[i] = loadLeaf(s, a, in.leaves[i]);
        return;
    }
    vector<u64> good;
    for (auto a : as) {
        Obj * o = s.mem.get(a >> OFFBITS);
        if (! (a >= FUNCBASE || ! o || (a & ((1u << OFFBITS) - 1)) + bytes > o->size))
            good.push_back(a);
    }
    for (size_t i = 0; i < in.leaves.size(); ++i) {
        unsigned w = in.leaves[i].w;
        Expr * r = nullptr;
        for (size_t k = good.size(); k-- > 0;) {
            Expr * x = toexpr(vs[k][i], w);
            r = r ? mkite(mkbin(K::Eq, addr, mkconst(good[k], 64)), x, r) : x;
        }
        out[i] = w > 64 ? [&] { Val v; v.e = r; return v; }() : fold(s, r);
    }
}

static void storeSym(State & s, Expr * addr, Inst & in, const vector<Val> & v)
{
    auto as = addresses(s, addr);
    u64 bytes = 0;
    for (auto & l : in.leaves)
        bytes = std::max<u64>(bytes, l.off + l.bytes);
    vector<u64> good;
    for (auto a : as) {
        Obj * o = s.mem.get(a >> OFFBITS);
        if (a >= FUNCBASE || ! o || (a & ((1u << OFFBITS) - 1)) + bytes > o->size) {
            if (decide(s, mkbin(K::Eq, addr, mkconst(a, 64))))
                access(s, a, bytes, true);
        }
        else
            good.push_back(a);
    }
    for (auto a : good)
        for (size_t i = 0; i < in.leaves.size(); ++i) {
            Val old = loadLeaf(s, a, in.leaves[i]);
            unsigned w = in.leaves[i].w;
            Expr * x = mkite(mkbin(K::Eq, addr, mkconst(a, 64)), toexpr(v[i], w), toexpr(old, w));
            Val nv;
            nv = w > 64 ? [&] { Val q; q.e = x; return q; }() : fromexpr(x);
            storeLeaf(s, a, in.leaves[i], nv);
        }
}

// ---------------------------------------------------------------- scalar operations

static double asD(u64 b, int fp)
{
    if (fp == 1) {
        uint32_t x = (uint32_t)b;
        float f;
        memcpy(&f, &x, 4);
        return f;
    }
    double d;
    memcpy(&d, &b, 8);
    return d;
}
static u64 fromD(double d, int fp)
{
    if (fp == 1) {
        float f = (float)d;
        uint32_t x;
        memcpy(&x, &f, 4);
        return x;
    }
    u64 b;
    memcpy(&b, &d, 8);
    return b;
}

static Val binop(State & s, int oc, const Val & a, const Val & b, unsigned w)
{
    if (oc == LLVMUDiv || oc == LLVMSDiv || oc == LLVMURem || oc == LLVMSRem) {
        bool z = b.e ? decide(s, mkbin(K::Eq, b.e, mkconst(0, w))) : b.c == 0;
        if (z)
            fault(s, "division by zero");
        if (oc == LLVMSDiv || oc == LLVMSRem) {
            Expr * ov = mkbin(K::And, mkbin(K::Eq, toexpr(b, w), mkconst(maskw(w), w)), mkbin(K::Eq, toexpr(a, w), mkconst((u128)1 << (w - 1), w)));
            if (decide(s, ov))
                fault(s, "signed division overflow");
        }
    }
    if (! a.e && ! b.e && w <= 64) {
        u64 x = a.c, y = b.c, m = m64(w);
        switch (oc) {
        case LLVMAdd: return cv((x + y) & m);
        case LLVMSub: return cv((x - y) & m);
        case LLVMMul: return cv((x * y) & m);
        case LLVMUDiv: return cv(x / y);
        case LLVMURem: return cv(x % y);
        case LLVMSDiv: return cv((u64)(sx(x, w) / sx(y, w)) & m);
        case LLVMSRem: return cv((u64)(sx(x, w) % sx(y, w)) & m);
        case LLVMShl: return cv(y >= w ? 0 : (x << y) & m);
        case LLVMLShr: return cv(y >= w ? 0 : x >> y);
        case LLVMAShr: return cv((u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m);
        case LLVMAnd: return cv(x & y);
        case LLVMOr: return cv(x | y);
        case LLVMXor: return cv(x ^ y);
        }
    }
    Expr *x = toexpr(a, w), *y = toexpr(b, w);
    K k;
    switch (oc) {
    case LLVMAdd: k = K::Add; break;
    case LLVMSub: k = K::Sub; break;
    case LLVMMul: k = K::Mul; break;
    case LLVMUDiv: k = K::UDiv; break;
    case LLVMURem: k = K::URem; break;
    case LLVMSDiv: k = K::SDiv; break;
    case LLVMSRem: k = K::SRem; break;
    case LLVMShl: k = K::Shl; break;
    case LLVMLShr: k = K::LShr; break;
    case LLVMAShr: k = K::AShr; break;
    case LLVMAnd: k = K::And; break;
    case LLVMOr: k = K::Or; break;
    case LLVMXor: k = K::Xor; break;
    default: throw EngineError{"binop"};
    }
    if (w > 16 && w <= 64 && (k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem)) {
        // divide in the width this path's ranges need
        const Rng rx = prange(s, x), ry = prange(s, y);
        bool nonneg = rx.slo >= 0 && ry.slo >= 0;
        i128 hi = std::max(std::max(rx.shi, ry.shi), std::max(-rx.slo, -ry.slo));
        if (nonneg || k == K::SDiv || k == K::SRem) {
            unsigned n = 2;
            while (n < w && ((i128)1 << (n - 1)) <= hi)
                ++n;
            if (! nonneg)
                ++n;
            if (n <= w / 2) {
                Expr * r = mkbin(nonneg ? (k == K::UDiv || k == K::SDiv ? K::UDiv : K::URem) : k, mkextract(x, 0, n), mkextract(y, 0, n));
                return fold(s, nonneg ? mkzext(r, w) : mksext(r, w));
            }
        }
    }
    return fold(s, mkbin(k, x, y));
}

static Val icmp(State & s, int p, const Val & a, const Val & b, unsigned w)
{
    if (! a.e && ! b.e && w <= 64) {
        u64 x = a.c, y = b.c;
        i64 sx1 = sx(x, w), sy1 = sx(y, w);
        switch (p) {
        case LLVMIntEQ: return cv(x == y);
        case LLVMIntNE: return cv(x != y);
        case LLVMIntUGT: return cv(x > y);
        case LLVMIntUGE: return cv(x >= y);
        case LLVMIntULT: return cv(x < y);
        case LLVMIntULE: return cv(x <= y);
        case LLVMIntSGT: return cv(sx1 > sy1);
        case LLVMIntSGE: return cv(sx1 >= sy1);
        case LLVMIntSLT: return cv(sx1 < sy1);
        case LLVMIntSLE: return cv(sx1 <= sy1);
        }
    }
    Expr *x = toexpr(a, w), *y = toexpr(b, w);
    switch (p) {
    case LLVMIntEQ: return fold(s, mkbin(K::Eq, x, y));
    case LLVMIntNE: return fold(s, mknot(mkbin(K::Eq, x, y)));
    case LLVMIntUGT: return fold(s, mkbin(K::Ult, y, x));
    case LLVMIntUGE: return fold(s, mkbin(K::Ule, y, x));
    case LLVMIntULT: return fold(s, mkbin(K::Ult, x, y));
    case LLVMIntULE: return fold(s, mkbin(K::Ule, x, y));
    case LLVMIntSGT: return fold(s, mkbin(K::Slt, y, x));
    case LLVMIntSGE: return fold(s, mkbin(K::Sle, y, x));
    case LLVMIntSLT: return fold(s, mkbin(K::Slt, x, y));
    case LLVMIntSLE: return fold(s, mkbin(K::Sle, x, y));
    }
    throw EngineError{"icmp"};
}

static bool fcmp(int p, double x, double y)
{
    bool un = x != x || y != y;
    switch (p) {
    case LLVMRealOEQ: return ! un && x == y;
    case LLVMRealOGT: return ! un && x > y;
    case LLVMRealOGE: return ! un && x >= y;
    case LLVMRealOLT: return ! un && x < y;
    case LLVMRealOLE: return ! un && x <= y;
    case LLVMRealONE: return ! un && x != y;
    case LLVMRealORD: return ! un;
    case LLVMRealUNO: return un;
    case LLVMRealUEQ: return un || x == y;
    case LLVMRealUGT: return un || x > y;
    case LLVMRealUGE: return un || x >= y;
    case LLVMRealULT: return un || x < y;
    case LLVMRealULE: return un || x <= y;
    case LLVMRealUNE: return un || x != y;
    case LLVMRealPredicateTrue: return true;
    default: return false;
    }
}

static Val selectv(Expr * c, const Val & t, const Val & f, unsigned w)
{
    if (! t.e && ! f.e && t.c == f.c)
        return t;
    Expr * e = mkite(c, toexpr(t, w), toexpr(f, w));
    if (w > 64) {
        Val v;
        v.e = e;
        return v;
    }
    return fromexpr(e);
}

// ---------------------------------------------------------------- calls and exceptions

static void pushFrame(State & s, Function * f, const vector<Val> & args, Inst * call)
{
    decodeFunction(f);
    if (s.st.size() > 4000)
        fault(s, "call stack too deep");
    s.st.emplace_back();
    Frame & n = s.st.back();
    n.f = f;
    n.call = call;
    n.regs.resize((size_t)f->nslots);
    size_t k = 0;
    for (size_t i = 0; i < f->params.size(); ++i) {
        for (unsigned j = 0; j < f->paramleaves[i]; ++j) {
            if (k >= args.size())
                throw EngineError{"argument count of " + f->name};
            n.regs[(size_t)f->params[i] + j] = args[k++];
        }
        if (f->byval[i]) {
            u64 src = conc(s, n.regs[(size_t)f->params[i]]);
            u64 a = s.mem.alloc(f->byval[i], 1, false);
            copyBytes(s, a, src, f->byval[i]);
            s.st.back().allocas.push_back(a >> OFFBITS);
            s.st.back().regs[(size_t)f->params[i]] = cv(a);
        }
    }
}

static void takeEdge(Frame & f, int edge, int to)
{
    auto & mv = f.f->edges[(size_t)edge].moves;
    if (mv.size() == 1) {
        auto & [d, o] = mv[0];
        f.regs[(size_t)d] = o >= 0 ? f.regs[(size_t)o] : consts[(size_t)~o];
    }
    else if (! mv.empty()) {
        static vector<Val> tmp;
        tmp.clear();
        for (auto & [d, o] : mv)
            tmp.push_back(o >= 0 ? f.regs[(size_t)o] : consts[(size_t)~o]);
        for (size_t i = 0; i < mv.size(); ++i)
            f.regs[(size_t)mv[i].first] = tmp[i];
    }
    f.bb = to;
    f.ip = 0;
}

static void popFrame(State & s)
{
    for (auto a : s.st.back().allocas)
        s.mem.free(a);
    s.st.pop_back();
}

// after a call instruction in the top frame has its result
static void finishCall(State & s, Inst * call)
{
    Frame & f = s.st.back();
    if (call->op == O_INVOKE)
        takeEdge(f, call->edge, call->t1);
    else
        ++f.ip;
}

static u64 rd64(State & s, u64 a)
{
    Leaf l{0, 64, 8, 0};
    Val v = loadLeaf(s, a, l);
    if (v.e)
        throw EngineError{"symbolic value where a pointer was expected"};
    return v.c;
}

// Is the type 'ti' the same as or derived from 'base'? 'adj' is moved to the base subobject.
static bool typeMatches(State & s, u64 ti, u64 base, u64 & adj)
{
    if (ti == base)
        return true;
    u64 vt = rd64(s, ti);
    auto it = globalName.find(vt >> OFFBITS);
    string n = it == globalName.end() ? "" : it->second;
    if (n.find("__si_class_type_info") != string::npos)
        return typeMatches(s, rd64(s, ti + 16), base, adj);
    if (n.find("__vmi_class_type_info") != string::npos) {
        unsigned cnt = (unsigned)(rd64(s, ti + 16) >> 32);
        for (unsigned i = 0; i < cnt; ++i) {
            u64 b = rd64(s, ti + 24 + 16 * i);
            i64 fl = (i64)rd64(s, ti + 32 + 16 * i);
            u64 a2 = adj;
            if (fl & 1) { // virtual base: the offset is in the vtable
                if (! adj)
                    throw EngineError{"virtual base in a type match"};
                a2 = adj + rd64(s, rd64(s, adj) + (u64)(fl >> 8));
            }
            else
                a2 = adj + (u64)(fl >> 8);
            if (typeMatches(s, b, base, a2)) {
                adj = a2;
                return true;
            }
        }
    }
    return false;
}

static void describeThrow(State & s, u64 obj, string & out)
{
    u64 ti = s.excs[obj].ti;
    auto it = globalName.find(ti >> OFFBITS);
    out = it == globalName.end() ? "?" : demangle(it->second);
    if (out.compare(0, 13, "typeinfo for ") == 0)
        out = out.substr(13);
}

static string cstr(State & s, u64 a, size_t lim = 400)
{
    string r;
    Obj * o = s.mem.get(a >> OFFBITS);
    u64 off = a & ((1u << OFFBITS) - 1);
    while (o && off < o->size && r.size() < lim) {
        if (o->nsym && o->s[off].e)
            r += '?';
        else if (o->d[off] == 0)
            break;
        else
            r += (char)o->d[off];
        ++off;
    }
    return r;
}

// Exception 's.unwinding' leaves the top frame's current instruction.
static void unwind(State & s)
{
    u64 obj = s.unwinding;
    bool first = true;
    while (true) {
        // the top frame is where the exception is passing through; its current instruction is a call, invoke or resume
        if (! first) {
            if (s.st.size() <= 1) {
                string what;
                describeThrow(s, obj, what);
                fault(s, "uncaught exception " + what);
            }
            if (s.st.back().f->nounwind) {
                string what;
                describeThrow(s, obj, what);
                fault(s, "exception " + what + " leaves a noexcept function (std::terminate)");
            }
            popFrame(s);
        }
        Frame & f = s.st.back();
        Inst & in = f.f->blocks[(size_t)f.bb].insts[(size_t)f.ip];
        if (in.op == O_INVOKE) {
            takeEdge(f, in.edge2, in.t2);
            Inst & lp = f.f->blocks[(size_t)f.bb].insts[0];
            if (lp.op != O_LANDINGPAD)
                throw EngineError{"no landing pad in " + f.f->name};
            u64 sel = 0;
            u64 adj = obj;
            bool stop = lp.cleanup;
            for (size_t i = 0; i < lp.aux.size(); ++i) {
                if (lp.aux[i]) { // filter: throw() specifications
                    sel = ~(u64)0 & 0xffffffff;
                    stop = true;
                    break;
                }
                u64 cl = lp.ops[i] >= 0 ? f.regs[(size_t)lp.ops[i]].c : consts[(size_t)~lp.ops[i]].c;
                if (cl == 0) {
                    sel = 1;
                    stop = true;
                    break;
                }
                adj = obj;
                if (typeMatches(s, s.excs[obj].ti, cl, adj)) {
                    sel = (cl >> OFFBITS) & 0x7fffffff;
                    stop = true;
                    break;
                }
            }
            if (stop) {
                if (sel)
                    s.excs[obj].adj = adj;
                if (lp.dst >= 0) {
                    f.regs[(size_t)lp.dst] = cv(obj);
                    f.regs[(size_t)lp.dst + 1] = cv(sel);
                }
                ++f.ip;
                return;
            }
        }
        first = false;
    }
}

struct NativeCtx
{
    State & s;
    Inst & in;
    const vector<Val> & a;
    Val ret;
    Val ret2;
    bool two = false;
    bool pushed = false;  // a frame was pushed or control moved: do not finish the call
    string name;
    u64 c(size_t i) { return conc(s, a.at(i)); }
    void r(u64 v) { ret = cv(v); }
};

static void runIntrinsic(State & s, Inst & in, vector<Val> & A);

static void doCall(State & s, Inst & in)
{
    static vector<Val> args;
    args.clear();
    Frame & f = s.st.back();
    for (auto o : in.ops)
        args.push_back(o >= 0 ? f.regs[(size_t)o] : consts[(size_t)~o]);
    if (in.intr) {
        runIntrinsic(s, in, args);
        finishCall(s, &in);
        return;
    }
    Function * c = in.callee;
    if (! c) {
        const Val & fp = in.imm >= 0 ? f.regs[(size_t)in.imm] : consts[(size_t)~in.imm];
        u64 a = conc(s, fp);
        u64 idx = (a - FUNCBASE) / 16;
        if (a < FUNCBASE || idx >= funcByIdx.size())
            fault(s, a ? "call through a wild function pointer" : "call through a null function pointer");
        c = funcByIdx[idx];
    }
    if (! c->native && ! c->decoded)
        c->native = lookupNative(c->name, c->defined);
    if (c->native) {
        vector<Val> my = args;
        NativeCtx n{s, in, my, {}, {}, false, false, c->name};
        ++c->calls;
        c->native(n);
        if (n.pushed)
            return;
        if (in.dst >= 0) {
            Frame & g = s.st.back();
            g.regs[(size_t)in.dst] = n.ret;
            if (in.n == 2)
                g.regs[(size_t)in.dst + 1] = n.ret2;
            else if (in.n > 2)
                throw EngineError{"native aggregate result: " + c->name};
        }
        finishCall(s, &in);
        return;
    }
    if (! c->defined)
        throw EngineError{"call to undefined function " + demangle(c->name) + " [" + c->name + "]"};
    ++c->calls;
    vector<Val> my = args;
    pushFrame(s, c, my, &in);
}

static Val cast(State & s, Inst & in, const Val & a)
{
    unsigned w = in.w, v = in.w2;
    switch (in.sub) {
    case LLVMTrunc:
        if (! a.e)
            return cv(a.c & m64(w));
        {
            Expr * e = mkextract(a.e, 0, w);
            if (w > 64) {
                Val r;
                r.e = e;
                return r;
            }
            return fromexpr(e);
        }
    case LLVMZExt:
        if (! a.e && w <= 64)
            return a;
        return fromexpr(mkzext(toexpr(a, v), w));
    case LLVMSExt:
        if (! a.e && w <= 64)
            return cv((u64)sx(a.c, v) & m64(w));
        return fromexpr(mksext(toexpr(a, v), w));
    case LLVMFPToUI: {
        double d = asD(conc(s, a), in.fp2);
        return cv((u64)d & m64(w));
    }
    case LLVMFPToSI: {
        double d = asD(conc(s, a), in.fp2);
        return cv((u64)(i64)d & m64(w));
    }
    case LLVMUIToFP: return cv(fromD((double)conc(s, a), in.fp));
    case LLVMSIToFP: return cv(fromD((double)sx(conc(s, a), v), in.fp));
    case LLVMFPTrunc:
    case LLVMFPExt: return cv(fromD(asD(conc(s, a), in.fp2), in.fp));
    }
    throw EngineError{"cast"};
}

// Runs one path until it ends (PathEnd) or the budget is spent.
static void runPath(State & s)
{
    u64 budgetCheck = 0;
    while (true) {
        if ((++budgetCheck & 0x3fff) == 0) {
            if (sh->stop)
                throw PathEnd{};
            if (maxTime > 0 && elapsed() > maxTime) {
                reportIncomplete(s, "time limit");
                sh->stop = 1;
                throw PathEnd{};
            }
        }
        if (++s.steps > maxSteps) {
            reportIncomplete(s, "step limit");
            throw PathEnd{};
        }
        Frame & f = s.st.back();
        Inst & in = f.f->blocks[(size_t)f.bb].insts[(size_t)f.ip];
        auto get = [&](int32_t o) -> const Val & { return o >= 0 ? f.regs[(size_t)o] : consts[(size_t)~o]; };
        switch (in.op) {
        case O_BIN:
            if (in.n == 1) {
                Val r = binop(s, in.sub, get(in.ops[0]), get(in.ops[1]), in.w);
                f.regs[(size_t)in.dst] = r;
            }
            else {
                Val tmp[64];
                for (unsigned i = 0; i < in.n; ++i)
                    tmp[i] = binop(s, in.sub, get(in.ops[i]), get(in.ops[in.n + i]), in.w);
                for (unsigned i = 0; i < in.n; ++i)
                    f.regs[(size_t)in.dst + i] = tmp[i];
            }
            ++f.ip;
            break;
        case O_ICMP:
            for (unsigned i = 0; i < in.n; ++i) {
                Val r = icmp(s, in.sub, get(in.ops[i]), get(in.ops[in.n + i]), in.w);
                f.regs[(size_t)in.dst + i] = r;
            }
            ++f.ip;
            break;
        case O_BR: takeEdge(f, in.edge, in.t1); break;
        case O_CONDBR: {
            const Val c = get(in.ops[0]);
            bool t = c.e ? decide(s, c.e) : c.c & 1;
            if (t)
                takeEdge(f, in.edge, in.t1);
            else
                takeEdge(f, in.edge2, in.t2);
            break;
        }
        case O_SWITCH: {
            const Val & c = get(in.ops[0]);
            int hit = -1;
            if (! c.e) {
                for (size_t i = 0; i < in.cases.size(); ++i)
                    if (in.cases[i].first == c.c) {
                        hit = (int)i;
                        break;
                    }
            }
            else
                for (size_t i = 0; i < in.cases.size(); ++i)
                    if (decide(s, mkbin(K::Eq, c.e, mkconst(in.cases[i].first, in.w)))) {
                        hit = (int)i;
                        break;
                    }
            if (hit < 0)
                takeEdge(f, in.edge, in.t1);
            else
                takeEdge(f, in.caseedges[(size_t)hit], in.cases[(size_t)hit].second);
            break;
        }
        case O_LOAD: {
            const Val & a = get(in.ops[0]);
            if (! a.e) {
                u64 ad = a.c;
                for (size_t i = 0; i < in.leaves.size(); ++i)
                    f.regs[(size_t)in.dst + i] = loadLeaf(s, ad, in.leaves[i]);
            }
            else {
                vector<Val> r(in.leaves.size());
                loadSym(s, a.e, in, r.data());
                for (size_t i = 0; i < r.size(); ++i)
                    f.regs[(size_t)in.dst + i] = r[i];
            }
            ++f.ip;
            break;
        }
        case O_STORE: {
            const Val & a = get(in.ops[0]);
            if (! a.e) {
                for (size_t i = 0; i < in.leaves.size(); ++i)
                    storeLeaf(s, a.c, in.leaves[i], get(in.ops[i + 1]));
            }
            else {
                vector<Val> v;
                for (size_t i = 0; i < in.leaves.size(); ++i)
                    v.push_back(get(in.ops[i + 1]));
                storeSym(s, a.e, in, v);
            }
            ++f.ip;
            break;
        }
        case O_GEP: {
            const Val & b = get(in.ops[0]);
            bool sym = b.e;
            u64 c = b.c + (u64)in.imm;
            if (! sym)
                for (size_t i = 0; i < in.gep.size(); ++i) {
                    const Val & x = get(in.gep[i].first);
                    if (x.e) {
                        sym = true;
                        break;
                    }
                    c += (u64)(sx(x.c, in.gepw[i]) * in.gep[i].second);
                }
            if (! sym)
                f.regs[(size_t)in.dst] = cv(c);
            else {
                Expr * e = mkbin(K::Add, toexpr(b, 64), mkconst((u64)in.imm, 64));
                for (size_t i = 0; i < in.gep.size(); ++i) {
                    Expr * x = toexpr(get(in.gep[i].first), in.gepw[i]);
                    if (in.gepw[i] < 64)
                        x = mksext(x, 64);
                    e = mkbin(K::Add, e, mkbin(K::Mul, x, mkconst((u64)in.gep[i].second, 64)));
                }
                f.regs[(size_t)in.dst] = fromexpr(e);
            }
            ++f.ip;
            break;
        }
        case O_CAST:
            if (in.sub == LLVMBitCast) {
                // vectors of different element counts: little-endian repacking
                unsigned total = 0, sw = in.w2;
                u128 acc = 0;
                bool sym = false;
                for (auto o : in.ops)
                    if (get(o).e && ! get(o).e->isconst())
                        sym = true;
                if (! sym && sw * in.ops.size() <= 128) {
                    for (auto o : in.ops) {
                        const Val & x = get(o);
                        acc |= (x.e ? x.e->c : (u128)x.c) << total;
                        total += sw;
                    }
                    Val tmp[128];
                    for (unsigned i = 0; i < in.n; ++i) {
                        u128 v = (acc >> (i * in.w)) & maskw(in.w);
                        if (in.w <= 64)
                            tmp[i] = cv((u64)v);
                        else
                            tmp[i].e = mkconst(v, in.w);
                    }
                    for (unsigned i = 0; i < in.n; ++i)
                        f.regs[(size_t)in.dst + i] = tmp[i];
                }
                else {
                    Expr * e = nullptr;
                    for (auto o : in.ops) {
                        Expr * x = toexpr(get(o), sw);
                        e = e ? mkconcat(x, e) : x;
                    }
                    for (unsigned i = 0; i < in.n; ++i) {
                        Expr * x = mkextract(e, i * in.w, in.w);
                        Val v;
                        v = in.w > 64 ? [&] { Val q; q.e = x; return q; }() : fromexpr(x);
                        f.regs[(size_t)in.dst + i] = v;
                    }
                }
            }
            else
                for (unsigned i = 0; i < in.n; ++i) {
                    Val r = cast(s, in, get(in.ops[i]));
                    f.regs[(size_t)in.dst + i] = r;
                }
            ++f.ip;
            break;
        case O_SELECT: {
            unsigned nc = (unsigned)in.imm;
            unsigned n = in.n;
            const Val & c0 = get(in.ops[0]);
            if (nc == 1 && ! c0.e) {
                size_t base = 1 + (c0.c & 1 ? 0 : n);
                if (n == 1) {
                    Val r = get(in.ops[base]);
                    f.regs[(size_t)in.dst] = r;
                }
                else {
                    vector<Val> t;
                    for (unsigned i = 0; i < n; ++i)
                        t.push_back(get(in.ops[base + i]));
                    for (unsigned i = 0; i < n; ++i)
                        f.regs[(size_t)in.dst + i] = t[i];
                }
            }
            else {
                // selecting between pointers is forked over: merging them only postpones the fork
                bool fork = false;
                if (nc == 1)
                    for (unsigned i = 0; i < n && ! fork; ++i) {
                        const Val &t = get(in.ops[1 + i]), &e = get(in.ops[1 + n + i]);
                        if (in.fp)
                            fork = true;
                        if (in.w == 64 && ! t.e && ! e.e && t.c != e.c && (t.c >> OFFBITS) && (e.c >> OFFBITS) && (t.c >> OFFBITS) != (e.c >> OFFBITS) && s.mem.get(t.c >> OFFBITS) && s.mem.get(e.c >> OFFBITS))
                            fork = true;
                    }
                vector<Val> t;
                if (fork) {
                    size_t base = 1 + (decide(s, boolOf(c0)) ? 0 : n);
                    for (unsigned i = 0; i < n; ++i)
                        t.push_back(get(in.ops[base + i]));
                }
                else
                    for (unsigned i = 0; i < n; ++i) {
                        Expr * c = boolOf(get(in.ops[nc == 1 ? 0 : i]));
                        t.push_back(selectv(c, get(in.ops[nc + i]), get(in.ops[nc + n + i]), in.w ? in.w : 64));
                    }
                for (unsigned i = 0; i < n; ++i)
                    f.regs[(size_t)in.dst + i] = t[i];
            }
            ++f.ip;
            break;
        }
        case O_MOVE:
            if (in.ops.size() == 1) {
                Val r = get(in.ops[0]);
                f.regs[(size_t)in.dst] = r;
            }
            else {
                vector<Val> t;
                for (auto o : in.ops)
                    t.push_back(get(o));
                for (size_t i = 0; i < t.size(); ++i)
                    f.regs[(size_t)in.dst + i] = t[i];
            }
            ++f.ip;
            break;
        case O_EXTRACTELT: {
            unsigned n = (unsigned)in.ops.size() - 1;
            u64 i = conc(s, get(in.ops[n]));
            Val r = i < n ? get(in.ops[i]) : cv(0);
            f.regs[(size_t)in.dst] = r;
            ++f.ip;
            break;
        }
        case O_INSERTELT: {
            unsigned n = in.n;
            u64 i = conc(s, get(in.ops[n + 1]));
            vector<Val> t;
            for (unsigned k = 0; k < n; ++k)
                t.push_back(k == i ? get(in.ops[n]) : get(in.ops[k]));
            for (unsigned k = 0; k < n; ++k)
                f.regs[(size_t)in.dst + k] = t[k];
            ++f.ip;
            break;
        }
        case O_FBIN:
            for (unsigned i = 0; i < in.n; ++i) {
                double x = asD(conc(s, get(in.ops[i])), in.fp), y = asD(conc(s, get(in.ops[in.n + i])), in.fp), r = 0;
                switch (in.sub) {
                case LLVMFAdd: r = x + y; break;
                case LLVMFSub: r = x - y; break;
                case LLVMFMul: r = x * y; break;
                case LLVMFDiv: r = x / y; break;
                case LLVMFRem: r = fmod(x, y); break;
                }
                f.regs[(size_t)in.dst + i] = cv(fromD(r, in.fp));
            }
            ++f.ip;
            break;
        case O_FNEG:
            for (unsigned i = 0; i < in.n; ++i) {
                double x = asD(conc(s, get(in.ops[i])), in.fp);
                f.regs[(size_t)in.dst + i] = cv(fromD(-x, in.fp));
            }
            ++f.ip;
            break;
        case O_FCMP:
            for (unsigned i = 0; i < in.n; ++i) {
                double x = asD(conc(s, get(in.ops[i])), in.fp), y = asD(conc(s, get(in.ops[in.n + i])), in.fp);
                f.regs[(size_t)in.dst + i] = cv(fcmp(in.sub, x, y));
            }
            ++f.ip;
            break;
        case O_ALLOCA: {
            u64 n = conc(s, get(in.ops[0]));
            u64 a = s.mem.alloc(n * (u64)in.imm, 1, false);
            f.allocas.push_back(a >> OFFBITS);
            f.regs[(size_t)in.dst] = cv(a);
            ++f.ip;
            break;
        }
        case O_CALL:
        case O_INVOKE: doCall(s, in); break;
        case O_RET: {
            Val t[8];
            vector<Val> big;
            size_t n = in.ops.size();
            Val * p = t;
            if (n > 8) {
                big.resize(n);
                p = big.data();
            }
            for (size_t i = 0; i < n; ++i)
                p[i] = get(in.ops[i]);
            Inst * call = f.call;
            popFrame(s);
            if (s.st.empty())
                throw PathEnd{};
            Frame & c = s.st.back();
            if (call->dst >= 0)
                for (size_t i = 0; i < n; ++i)
                    c.regs[(size_t)call->dst + i] = p[i];
            finishCall(s, call);
            break;
        }
        case O_RESUME: {
            s.unwinding = get(in.ops[0]).c;
            // resume leaves this frame
            unwind(s);
            break;
        }
        case O_RMW: {
            const Val & a = get(in.ops[0]);
            u64 ad = conc(s, a);
            Val old = loadLeaf(s, ad, in.leaves[0]);
            Val x = get(in.ops[1]), nv;
            unsigned w = in.leaves[0].w;
            switch (in.sub) {
            case LLVMAtomicRMWBinOpXchg: nv = x; break;
            case LLVMAtomicRMWBinOpAdd: nv = binop(s, LLVMAdd, old, x, w); break;
            case LLVMAtomicRMWBinOpSub: nv = binop(s, LLVMSub, old, x, w); break;
            case LLVMAtomicRMWBinOpAnd: nv = binop(s, LLVMAnd, old, x, w); break;
            case LLVMAtomicRMWBinOpOr: nv = binop(s, LLVMOr, old, x, w); break;
            case LLVMAtomicRMWBinOpXor: nv = binop(s, LLVMXor, old, x, w); break;
            default: throw EngineError{"atomicrmw"};
            }
            storeLeaf(s, ad, in.leaves[0], nv);
            f.regs[(size_t)in.dst] = old;
            ++f.ip;
            break;
        }
        case O_CMPXCHG: {
            u64 ad = conc(s, get(in.ops[0]));
            Val old = loadLeaf(s, ad, in.leaves[0]);
            Val eq = icmp(s, LLVMIntEQ, old, get(in.ops[1]), in.leaves[0].w);
            bool t = eq.e ? decide(s, eq.e) : eq.c;
            if (t)
                storeLeaf(s, ad, in.leaves[0], get(in.ops[2]));
            f.regs[(size_t)in.dst] = old;
            f.regs[(size_t)in.dst + 1] = cv(t);
            ++f.ip;
            break;
        }
        case O_UNREACHABLE: fault(s, "unreachable code executed");
        case O_LANDINGPAD: throw EngineError{"landing pad executed"};
        default: {
            char * t = LLVMPrintValueToString(in.v);
            string str = t;
            LLVMDisposeMessage(t);
            throw EngineError{"unsupported instruction in " + demangle(f.f->name) + ": " + str.substr(0, 300)};
        }
        }
    }
}

static Expr * popcnt(Expr * e)
{
    Expr * r = mkconst(0, e->w);
    for (unsigned i = 0; i < e->w; ++i)
        r = mkbin(K::Add, r, mkzext(mkextract(e, i, 1), e->w));
    return r;
}

static void runIntrinsic(State & s, Inst & in, vector<Val> & A)
{
    unsigned w = in.w;
    auto set = [&](unsigned i, Val v) { s.st.back().regs[(size_t)in.dst + i] = v; };
    auto E = [&](size_t i) { return toexpr(A[i], w); };
    switch (in.intr) {
    case I_NOP: return;
    case I_MEMCPY:
    case I_MEMMOVE: {
        u64 n = conc(s, A[2]);
        if (! n)
            return;
        u64 d = conc(s, A[0]), c = conc(s, A[1]);
        if (in.intr == I_MEMCPY && d != c && (d >> OFFBITS) == (c >> OFFBITS) && (d < c ? d + n > c : c + n > d))
            fault(s, "overlapping memcpy");
        copyBytes(s, d, c, n);
        return;
    }
    case I_MEMSET: {
        u64 n = conc(s, A[2]);
        if (! n)
            return;
        u64 d = conc(s, A[0]);
        Leaf l{0, 8, 1, 0};
        access(s, d, n, true);
        if (! A[1].e) {
            Obj * o = s.mem.getw(d >> OFFBITS);
            u64 off = d & ((1u << OFFBITS) - 1);
            memset(&o->d[off], (int)A[1].c, n);
            if (o->nsym)
                for (u64 i = 0; i < n; ++i)
                    if (o->s[off + i].e) {
                        o->s[off + i].e = nullptr;
                        --o->nsym;
                    }
        }
        else
            for (u64 i = 0; i < n; ++i)
                storeLeaf(s, d + i, l, A[1]);
        return;
    }
    case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: {
        unsigned n = in.n;
        for (unsigned i = 0; i < n; ++i) {
            Val a = A[i], b = A[n + i];
            int p = in.intr == I_UMIN ? LLVMIntULT : in.intr == I_UMAX ? LLVMIntUGT : in.intr == I_SMIN ? LLVMIntSLT : LLVMIntSGT;
            Val c = icmp(s, p, a, b, w);
            set(i, c.e ? selectv(c.e, a, b, w) : c.c ? a : b);
        }
        return;
    }
    case I_ABS:
        for (unsigned i = 0; i < in.n; ++i) {
            Val z = cv(0);
            Val neg = binop(s, LLVMSub, z, A[i], w);
            Val c = icmp(s, LLVMIntSLT, A[i], z, w);
            set(i, c.e ? selectv(c.e, neg, A[i], w) : c.c ? neg : A[i]);
        }
        return;
    case I_SADDO: case I_SSUBO: case I_SMULO: case I_UADDO: case I_USUBO: case I_UMULO: {
        if (in.n != 2)
            throw EngineError{"vector overflow intrinsic"};
        unsigned ow = w; // first leaf's width
        // in.w is the width of the struct's first leaf
        Expr *a = toexpr(A[0], ow), *b = toexpr(A[1], ow);
        bool sg = in.intr == I_SADDO || in.intr == I_SSUBO || in.intr == I_SMULO;
        bool mul = in.intr == I_SMULO || in.intr == I_UMULO;
        if (ow > 64) {
            // 128-bit: sums overflow when the operands' signs agree and the result's does not; products are
            // supported where both operands are known to be 64-bit quantities
            K k = mul ? K::Mul : (in.intr == I_SADDO || in.intr == I_UADDO) ? K::Add : K::Sub;
            Expr * nar = mkbin(k, a, b);
            set(0, fromexpr(nar));
            if (! sg)
                throw EngineError{"wide unsigned overflow intrinsic"};
            i128 lim = (i128)1 << 63;
            if (mul) {
                const Rng ra = prange(s, a), rb = prange(s, b);
                i128 x = std::max(ra.slo < 0 ? -(ra.slo + 1) : ra.slo, ra.shi < 0 ? -(ra.shi + 1) : ra.shi), y = std::max(rb.slo < 0 ? -(rb.slo + 1) : rb.slo, rb.shi < 0 ? -(rb.shi + 1) : rb.shi);
                if (! (x < lim && y < lim) && ! (x < ((i128)1 << 100) && y < ((i128)1 << 26)) && ! (y < ((i128)1 << 100) && x < ((i128)1 << 26)))
                    throw EngineError{"wide overflow intrinsic"};
                set(1, cv(0));
            }
            else {
                Expr *sa = mkextract(a, ow - 1, 1), *sb = mkextract(b, ow - 1, 1), *sr = mkextract(nar, ow - 1, 1);
                Expr * agree = k == K::Add ? mknot(mkbin(K::Xor, sa, sb)) : mkbin(K::Xor, sa, sb);
                set(1, fromexpr(mkbin(K::And, agree, mkbin(K::Xor, sa, sr))));
            }
            return;
        }
        unsigned ww = mul ? 2 * ow : ow + 1;
        if (! A[0].e && ! A[1].e) {
            i128 x, y;
            if (sg) x = sx(A[0].c, ow), y = sx(A[1].c, ow);
            else x = (i128)A[0].c, y = (i128)A[1].c;
            i128 r = mul ? (i128)0 : 0;
            bool o;
            if (mul) {
                if (sg) { r = x * y; o = r != (i128)sx((u64)r & m64(ow), ow); }
                else { u128 ur = (u128)x * (u128)y; o = ur > (u128)m64(ow); r = (i128)ur; }
            }
            else {
                r = (in.intr == I_SADDO || in.intr == I_UADDO) ? x + y : x - y;
                o = sg ? r != (i128)sx((u64)r & m64(ow), ow) : (r < 0 || r > (i128)m64(ow));
            }
            set(0, cv((u64)r & m64(ow)));
            set(1, cv(o));
            return;
        }
        Expr *xa = sg ? mksext(a, ww) : mkzext(a, ww), *xb = sg ? mksext(b, ww) : mkzext(b, ww);
        K k = mul ? K::Mul : (in.intr == I_SADDO || in.intr == I_UADDO) ? K::Add : K::Sub;
        Expr * full = mkbin(k, xa, xb);
        Expr * nar = mkbin(k, a, b);
        Expr * back = sg ? mksext(nar, ww) : mkzext(nar, ww);
        set(0, fromexpr(nar));
        // when interval reasoning already bounds the exact result, there is no overflow
        bool safe = sg ? (full->slo >= -((i128)1 << (ow - 1)) && full->shi <= ((i128)1 << (ow - 1)) - 1) : (k != K::Sub && full->uhi <= maskw(ow));
        if (! safe && ow <= 64) {
            Rng ra = prange(s, a), rb = prange(s, b), rr[3];
            rr[0] = ra;
            rr[1] = rb;
            i128 lo, hi;
            if (! sg)
                ra.slo = (i128)ra.ulo, ra.shi = (i128)ra.uhi, rb.slo = (i128)rb.ulo, rb.shi = (i128)rb.uhi;
            i128 lim = (i128)1 << 62;
            if (ra.slo > -lim && ra.shi < lim && rb.slo > -lim && rb.shi < lim) {
                if (mul) {
                    i128 p[4] = {ra.slo * rb.slo, ra.slo * rb.shi, ra.shi * rb.slo, ra.shi * rb.shi};
                    lo = *std::min_element(p, p + 4);
                    hi = *std::max_element(p, p + 4);
                }
                else if (k == K::Add)
                    lo = ra.slo + rb.slo, hi = ra.shi + rb.shi;
                else
                    lo = ra.slo - rb.shi, hi = ra.shi - rb.slo;
                i128 mn = sg ? -((i128)1 << (ow - 1)) : 0, mx = sg ? ((i128)1 << (ow - 1)) - 1 : (i128)maskw(ow);
                safe = lo >= mn && hi <= mx;
            }
        }
        set(1, safe ? cv(0) : fold(s, mknot(mkbin(K::Eq, full, back))));
        return;
    }
    case I_UADDSAT: case I_USUBSAT: {
        for (unsigned i = 0; i < in.n; ++i) {
            Expr *a = E(i), *b = E(in.n + i);
            Expr * r = mkbin(in.intr == I_UADDSAT ? K::Add : K::Sub, a, b);
            Expr * o = in.intr == I_UADDSAT ? mkbin(K::Ult, r, a) : mkbin(K::Ult, a, b);
            set(i, fromexpr(mkite(o, in.intr == I_UADDSAT ? mkconst(maskw(w), w) : mkconst(0, w), r)));
        }
        return;
    }
    case I_SADDSAT: case I_SSUBSAT: {
        for (unsigned i = 0; i < in.n; ++i) {
            Expr *a = mksext(E(i), w + 1), *b = mksext(E(in.n + i), w + 1);
            Expr * r = mkbin(in.intr == I_SADDSAT ? K::Add : K::Sub, a, b);
            Expr * hi = mkconst(maskw(w - 1), w + 1);
            Expr * lo = mksext(mkconst((u128)1 << (w - 1), w), w + 1);
            r = mkite(mkbin(K::Slt, hi, r), hi, mkite(mkbin(K::Slt, r, lo), lo, r));
            set(i, fromexpr(mkextract(r, 0, w)));
        }
        return;
    }
    case I_FSHL: case I_FSHR:
        for (unsigned i = 0; i < in.n; ++i) {
            u64 sh = conc(s, A[2 * in.n + i]) % w;
            Val a = A[i], b = A[in.n + i], r;
            if (in.intr == I_FSHL)
                r = sh ? binop(s, LLVMOr, binop(s, LLVMShl, a, cv(sh), w), binop(s, LLVMLShr, b, cv(w - sh), w), w) : a;
            else
                r = sh ? binop(s, LLVMOr, binop(s, LLVMShl, a, cv(w - sh), w), binop(s, LLVMLShr, b, cv(sh), w), w) : b;
            set(i, r);
        }
        return;
    case I_CTPOP:
        for (unsigned i = 0; i < in.n; ++i)
            set(i, A[i].e ? fromexpr(popcnt(A[i].e)) : cv((u64)__builtin_popcountll(A[i].c)));
        return;
    case I_CTLZ: case I_CTTZ:
        for (unsigned i = 0; i < in.n; ++i) {
            if (! A[i].e) {
                u64 v = A[i].c;
                if (in.intr == I_CTLZ)
                    set(i, cv(v ? (u64)__builtin_clzll(v) - (64 - w) : w));
                else
                    set(i, cv(v ? (u64)__builtin_ctzll(v) : w));
                continue;
            }
            Expr * e = A[i].e;
            Expr * r = mkconst(w, w);
            if (in.intr == I_CTLZ) {
                for (unsigned k = 0; k < w; ++k)
                    r = mkite(mkextract(e, k, 1), mkconst(w - 1 - k, w), r);
            }
            else
                for (unsigned k = w; k-- > 0;)
                    r = mkite(mkextract(e, k, 1), mkconst(k, w), r);
            set(i, fromexpr(r));
        }
        return;
    case I_BSWAP: {
        Expr *e = E(0), *r = nullptr;
        for (unsigned i = 0; i < w; i += 8) {
            Expr * b = mkextract(e, i, 8);
            r = r ? mkconcat(r, b) : b;
        }
        set(0, fromexpr(r));
        return;
    }
    case I_BITREV: {
        Expr *e = E(0), *r = nullptr;
        for (unsigned i = 0; i < w; ++i) {
            Expr * b = mkextract(e, i, 1);
            r = r ? mkconcat(r, b) : b;
        }
        set(0, fromexpr(r));
        return;
    }
    case I_TRAP: fault(s, "trap (undefined behaviour check or abort)");
    case I_TYPEID: set(0, cv((A[0].c >> OFFBITS) & 0x7fffffff)); return;
    case I_OBJSIZE: set(0, cv(m64(w))); return;
    case I_ISCONST: set(0, cv(0)); return;
    case I_FIRST: set(0, A[0]); return;
    case I_STACKSAVE: set(0, cv(0)); return;
    case I_ASSUME: return; // never relied on
    case I_FABS: case I_FLOOR: case I_CEIL: case I_SQRT: case I_ROUND: case I_TRUNC: case I_LOG: case I_EXP:
        for (unsigned i = 0; i < in.n; ++i) {
            double x = asD(conc(s, A[i]), in.fp), r = 0;
            switch (in.intr) {
            case I_FABS: r = fabs(x); break;
            case I_FLOOR: r = floor(x); break;
            case I_CEIL: r = ceil(x); break;
            case I_SQRT: r = sqrt(x); break;
            case I_ROUND: r = round(x); break;
            case I_LOG: r = log(x); break;
            case I_EXP: r = exp(x); break;
            default: r = trunc(x);
            }
            set(i, cv(fromD(r, in.fp)));
        }
        return;
    case I_FMULADD: set(0, cv(fromD(asD(conc(s, A[0]), in.fp) * asD(conc(s, A[1]), in.fp) + asD(conc(s, A[2]), in.fp), in.fp))); return;
    case I_POW: set(0, cv(fromD(pow(asD(conc(s, A[0]), in.fp), asD(conc(s, A[1]), in.fp)), in.fp))); return;
    case I_MINNUM: set(0, cv(fromD(fmin(asD(conc(s, A[0]), in.fp), asD(conc(s, A[1]), in.fp)), in.fp))); return;
    case I_MAXNUM: set(0, cv(fromD(fmax(asD(conc(s, A[0]), in.fp), asD(conc(s, A[1]), in.fp)), in.fp))); return;
    case I_UCMP: case I_SCMP:
        for (unsigned i = 0; i < in.n; ++i) {
            unsigned aw = in.w2;
            Val a = A[i], b = A[in.n + i];
            Val lt = icmp(s, in.intr == I_UCMP ? LLVMIntULT : LLVMIntSLT, a, b, aw), gt = icmp(s, in.intr == I_UCMP ? LLVMIntUGT : LLVMIntSGT, a, b, aw);
            if (! lt.e && ! gt.e)
                set(i, cv(lt.c ? m64(w) : gt.c ? 1 : 0));
            else
                set(i, fromexpr(mkite(boolOf(lt), mkconst(maskw(w), w), mkite(boolOf(gt), mkconst(1, w), mkconst(0, w)))));
        }
        return;
    case I_VREDADD: case I_VREDOR: case I_VREDAND: {
        Val r = A[0];
        for (size_t i = 1; i < A.size(); ++i)
            r = binop(s, in.intr == I_VREDADD ? LLVMAdd : in.intr == I_VREDOR ? LLVMOr : LLVMAnd, r, A[i], w);
        set(0, r);
        return;
    }
    default: {
        char * t = LLVMPrintValueToString(in.v);
        string str = t;
        LLVMDisposeMessage(t);
        throw EngineError{"unsupported intrinsic: " + str.substr(0, 200)};
    }
    }
}
