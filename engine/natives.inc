// Functions with built-in semantics: allocation, the exception ABI, and the harness API.

static const u64 MAXALLOC = (u64)1 << 22;

static void n_new(NativeCtx & n)
{
    u64 sz = n.c(0);
    if (sz > MAXALLOC)
        fault(n.s, "allocation of " + std::to_string(sz) + " bytes");
    u64 a = n.s.mem.alloc(sz ? sz : 1, 0, false);
    n.s.heap[a >> OFFBITS] = sz;
    n.r(a);
}
static void n_delete(NativeCtx & n)
{
    u64 a = n.c(0);
    if (! a)
        return;
    auto it = n.s.heap.find(a >> OFFBITS);
    if (it == n.s.heap.end() || (a & ((1u << OFFBITS) - 1)))
        fault(n.s, "delete of a pointer that is not a live allocation");
    n.s.heap.erase(it);
    n.s.mem.free(a >> OFFBITS);
}
static void n_calloc(NativeCtx & n)
{
    u64 sz = n.c(0) * n.c(1);
    if (sz > MAXALLOC)
        fault(n.s, "large allocation");
    u64 a = n.s.mem.alloc(sz ? sz : 1, 0, true);
    n.s.heap[a >> OFFBITS] = sz;
    n.r(a);
}
static void n_nop(NativeCtx & n) { n.r(0); }
static void n_one(NativeCtx & n) { n.r(1); }
static void n_arg0(NativeCtx & n) { n.ret = n.a.empty() ? cv(0) : n.a[0]; }
static void n_abort(NativeCtx & n) { fault(n.s, "abort (" + n.name + ")"); }
static void n_assertfail(NativeCtx & n) { fault(n.s, "assertion failed: " + cstr(n.s, n.c(0))); }
static void n_terminate(NativeCtx & n) { fault(n.s, "std::terminate"); }
static void n_pure(NativeCtx & n) { fault(n.s, "pure virtual call"); }

static void n_guard_acquire(NativeCtx & n)
{
    u64 g = n.c(0);
    Leaf l{0, 8, 1, 0};
    if (loadLeaf(n.s, g, l).c)
        n.r(0);
    else
        n.r(1);
}
static void n_guard_release(NativeCtx & n)
{
    Leaf l{0, 8, 1, 0};
    storeLeaf(n.s, n.c(0), l, cv(1));
}

// ---- exceptions

static const u64 EXHDR = 32;
static void n_alloc_exc(NativeCtx & n)
{
    u64 sz = n.c(0);
    u64 a = n.s.mem.alloc(sz + EXHDR, 0, true);
    n.r(a + EXHDR);
}
static void n_free_exc(NativeCtx & n) { n.s.mem.free(n.c(0) >> OFFBITS); }
static void n_throw(NativeCtx & n)
{
    u64 o = n.c(0);
    ExcRec r;
    r.obj = o;
    r.ti = n.c(1);
    r.adj = n.c(2); // the destructor until caught
    n.s.excs[o] = r;
    n.s.notes.emplace_back("dtor", cv(r.adj));
    n.s.notes.pop_back();
    n.s.unwinding = o;
    ++n.s.uncaught;
    n.pushed = true;
    unwind(n.s);
}
static void n_begin_catch(NativeCtx & n)
{
    u64 o = n.c(0);
    auto & x = n.s.excs[o];
    ++x.handlers;
    --n.s.uncaught;
    n.s.caught.push_back(o);
    n.r(x.adj && (x.adj >> OFFBITS) == (o >> OFFBITS) ? x.adj : o);
}
static void n_end_catch(NativeCtx & n)
{
    if (n.s.caught.empty())
        throw EngineError{"__cxa_end_catch without a caught exception"};
    u64 o = n.s.caught.back();
    n.s.caught.pop_back();
    auto & x = n.s.excs[o];
    if (--x.handlers == 0 && n.s.unwinding != o) {
        // exception objects are not destroyed: their storage is simply dropped
        n.s.excs.erase(o);
    }
}
static void n_rethrow(NativeCtx & n)
{
    if (n.s.caught.empty())
        fault(n.s, "rethrow without a caught exception");
    u64 o = n.s.caught.back();
    n.s.unwinding = o;
    ++n.s.uncaught;
    n.pushed = true;
    unwind(n.s);
}
static void n_get_exc_ptr(NativeCtx & n) { n.ret = n.a[0]; }
static void n_clang_terminate(NativeCtx & n)
{
    string what;
    describeThrow(n.s, n.s.unwinding, what);
    fault(n.s, "exception " + what + " leaves a noexcept function (std::terminate)");
}
static void n_uncaught(NativeCtx & n) { n.r((u64)n.s.uncaught); }

static void n_dynamic_cast(NativeCtx & n)
{
    u64 p = n.c(0), dst = n.c(2);
    u64 vt = rd64(n.s, p);
    u64 top = rd64(n.s, vt - 16);
    u64 ti = rd64(n.s, vt - 8);
    u64 full = p + top;
    u64 adj = full;
    n.r(typeMatches(n.s, ti, dst, adj) ? adj : 0);
}

// ---- harness API

static void n_range(NativeCtx & n)
{
    string name = cstr(n.s, n.c(0));
    i64 lo = (i64)n.c(1), hi = (i64)n.c(2);
    if (lo > hi)
        throw EngineError{"symx_range: empty range"};
    if (lo == hi) {
        n.s.inputs.emplace_back(name, mkconst((u64)lo, 64));
        n.r((u64)lo);
        return;
    }
    u64 span = (u64)hi - (u64)lo;
    unsigned w = span == ~(u64)0 ? 64 : (unsigned)(64 - __builtin_clzll(span));
    // one variable per (input position, width): paths that agree share expressions
    string vn = name + "#" + std::to_string(n.s.inputs.size());
    static std::unordered_map<string, Expr *> vars;
    auto & v = vars[vn + ":" + std::to_string(w)];
    if (! v)
        v = mkvar(vn, w);
    Expr * e = w < 64 ? mkbin(K::Add, mkzext(v, 64), mkconst((u64)lo, 64)) : mkbin(K::Add, v, mkconst((u64)lo, 64));
    if (w == 64 && lo == INT64_MIN) // the full range: an offset would only hide it from the solver
        e = v;
    if (span != m64(w)) {
        Expr * c = mkbin(K::Ule, v, mkconst(span, w));
        ModelP om;
        Res r = solve_query(n.s.pc, c, n.s.model, om);
        if (r != Res::Sat)
            throw EngineError{"symx_range: infeasible"};
        n.s.model = om;
        assume(n.s, c);
    }
    n.s.inputs.emplace_back(name, e);
    n.ret = fromexpr(e);
}
static Expr * argBool(const Val & v)
{
    if (! v.e)
        return mkconst((v.c & 0xffffffff) != 0, 1);
    return v.e->w == 1 ? v.e : mknot(mkbin(K::Eq, v.e, mkconst(0, v.e->w)));
}
static void n_assume(NativeCtx & n)
{
    Expr * c = argBool(n.a[0]);
    if (c->isconst()) {
        if (! c->c) {
            ++sh->pruned;
            n.s.discard = true;
            throw PathEnd{};
        }
        return;
    }
    if (! evalexpr(c, n.s.model->v, n.s.model->gen)) {
        ModelP om;
        Res r = solve_query(n.s.pc, c, n.s.model, om);
        if (r == Res::Unsat) {
            ++sh->pruned;
            n.s.discard = true;
            throw PathEnd{};
        }
        if (r == Res::Unknown) {
            reportIncomplete(n.s, "solver gave up on an assumption");
            n.s.discard = true;
            throw PathEnd{};
        }
        n.s.model = om;
    }
    assume(n.s, c);
}
static void n_assert(NativeCtx & n)
{
    Expr * c = argBool(n.a[0]);
    string msg = cstr(n.s, n.c(1));
    ++sh->asserts;
    ++assertCount[msg];
    if (c->isconst()) {
        if (! c->c) {
            report(n.s, n.s.model, "assert", msg);
            n.s.discard = true;
            throw PathEnd{};
        }
        return;
    }
    auto it = n.s.known.find(c);
    if (it != n.s.known.end() && it->second)
        return;
    ++sh->assertsDecided;
    ModelP om;
    Res r = solve_query(n.s.pc, mknot(c), n.s.model, om, true);
    if (r == Res::Unknown) {
        if (getenv("SYMX_SHOW"))
            fprintf(stderr, "[gave up] %s\n", show(c, 30).c_str());
        fflush(stderr); reportIncomplete(n.s, ("solver gave up on the assertion " + msg).c_str());
        assume(n.s, c);
        return;
    }
    if (r == Res::Sat) {
        report(n.s, om, "assert", msg);
        // continue with the assertion as an assumption, if that is possible
        if (! evalexpr(c, n.s.model->v, n.s.model->gen)) {
            r = solve_query(n.s.pc, c, n.s.model, om);
            if (r != Res::Sat)
                throw PathEnd{};
            n.s.model = om;
        }
        assume(n.s, c);
        return;
    }
    n.s.known[c] = 1;
    n.s.known[mknot(c)] = 0;
}
// Is there any input on this path with the condition? Forks nothing; counts as a witness.
static void n_reach(NativeCtx & n) { reached.insert(cstr(n.s, n.c(0))); }
static void n_reach_if(NativeCtx & n)
{
    string t = cstr(n.s, n.c(1));
    if (reached.count(t))
        return;
    Expr * c = argBool(n.a[0]);
    if (c->isconst()) {
        if (c->c)
            reached.insert(t);
        return;
    }
    ModelP om;
    if (solve_query(n.s.pc, c, n.s.model, om) == Res::Sat)
        reached.insert(t);
}
static void n_note(NativeCtx & n) { n.s.notes.emplace_back(cstr(n.s, n.c(0)), n.a[1]); }
static void n_stop(NativeCtx &) { throw PathEnd{}; }
static void n_concretize(NativeCtx & n) { n.r(n.c(0)); }
static void n_ite(NativeCtx & n) { n.ret = selectv(argBool(n.a[0]), n.a[1], n.a[2], 64); }
static void n_issym(NativeCtx & n) { n.r(n.a[0].e ? 1 : 0); }
static void n_branch(NativeCtx & n) { n.r(decide(n.s, argBool(n.a[0]))); }
// Can the condition be true on this path? (a query, not a fork)
static void n_possible(NativeCtx & n)
{
    Expr * c = argBool(n.a[0]);
    if (c->isconst()) {
        n.r((u64)c->c);
        return;
    }
    ModelP om;
    Res r = solve_query(n.s.pc, c, n.s.model, om);
    if (r == Res::Unknown)
        throw EngineError{"symx_possible: unknown"};
    n.r(r == Res::Sat);
}
static void n_print(NativeCtx & n)
{
    string t = cstr(n.s, n.c(0));
    if (n.a.size() > 1)
        fprintf(stderr, "[symx] %s %s\n", t.c_str(), n.a[1].e ? show(n.a[1].e).c_str() : std::to_string((i64)n.a[1].c).c_str());
    else
        fprintf(stderr, "[symx] %s\n", t.c_str());
}
// n pairwise relations in one boolean expression without forking
static void n_and(NativeCtx & n) { n.ret = fromexpr(mkzext(mkbin(K::And, argBool(n.a[0]), argBool(n.a[1])), 64)); }
static void n_or(NativeCtx & n) { n.ret = fromexpr(mkzext(mkbin(K::Or, argBool(n.a[0]), argBool(n.a[1])), 64)); }

static void n_memmove(NativeCtx & n)
{
    u64 k = n.c(2);
    copyBytes(n.s, n.c(0), n.c(1), k);
    n.ret = n.a[0];
}
static void n_memset(NativeCtx & n)
{
    u64 k = n.c(2), d = n.c(0);
    Leaf l{0, 8, 1, 0};
    Val v = n.a[1].e ? fromexpr(mkextract(n.a[1].e, 0, 8)) : cv(n.a[1].c & 0xff);
    for (u64 i = 0; i < k; ++i)
        storeLeaf(n.s, d + i, l, v);
    n.ret = n.a[0];
}
static void n_floor(NativeCtx & n) { n.r(fromD(floor(asD(n.c(0), 2)), 2)); }
static void n_ceil(NativeCtx & n) { n.r(fromD(ceil(asD(n.c(0), 2)), 2)); }
static void n_pow(NativeCtx & n) { n.r(fromD(pow(asD(n.c(0), 2), asD(n.c(1), 2)), 2)); }
static void n_log(NativeCtx & n) { n.r(fromD(log(asD(n.c(0), 2)), 2)); }
static void n_log2(NativeCtx & n) { n.r(fromD(log2(asD(n.c(0), 2)), 2)); }
static void n_exp(NativeCtx & n) { n.r(fromD(exp(asD(n.c(0), 2)), 2)); }
static void n_sqrt(NativeCtx & n) { n.r(fromD(sqrt(asD(n.c(0), 2)), 2)); }

static std::unordered_map<string, NativeFn> natives = {
    {"_Znwm", n_new}, {"_Znam", n_new}, {"malloc", n_new}, {"_ZnwmRKSt9nothrow_t", n_new}, {"_ZnamRKSt9nothrow_t", n_new}, {"_ZnwmSt11align_val_t", n_new}, {"calloc", n_calloc},
    {"_ZdlPv", n_delete}, {"_ZdaPv", n_delete}, {"_ZdlPvm", n_delete}, {"_ZdaPvm", n_delete}, {"free", n_delete}, {"_ZdlPvRKSt9nothrow_t", n_delete}, {"_ZdlPvmSt11align_val_t", n_delete}, {"_ZdlPvSt11align_val_t", n_delete},
    {"abort", n_abort}, {"_ZSt9terminatev", n_terminate}, {"__cxa_pure_virtual", n_pure}, {"__assert_fail", n_assertfail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", n_abort}, {"_exit", n_stop}, {"exit", n_stop},
    {"__cxa_guard_acquire", n_guard_acquire}, {"__cxa_guard_release", n_guard_release}, {"__cxa_guard_abort", n_nop}, {"__cxa_atexit", n_nop}, {"__cxa_thread_atexit", n_nop},
    {"__cxa_allocate_exception", n_alloc_exc}, {"__cxa_free_exception", n_free_exc}, {"__cxa_throw", n_throw}, {"__cxa_begin_catch", n_begin_catch}, {"__cxa_end_catch", n_end_catch}, {"__cxa_rethrow", n_rethrow},
    {"__cxa_get_exception_ptr", n_get_exc_ptr}, {"__clang_call_terminate", n_clang_terminate}, {"_ZSt18uncaught_exceptionv", n_uncaught}, {"_ZSt19uncaught_exceptionsv", n_uncaught}, {"__dynamic_cast", n_dynamic_cast},
    {"memmove", n_memmove}, {"memcpy", n_memmove}, {"memset", n_memset},
    {"getenv", n_nop}, {"pthread_mutex_lock", n_nop}, {"pthread_mutex_unlock", n_nop}, {"floor", n_floor}, {"ceil", n_ceil}, {"pow", n_pow}, {"log", n_log}, {"exp", n_exp}, {"sqrt", n_sqrt}, {"log2", n_log2},
    {"symx_range", n_range}, {"symx_assume", n_assume}, {"symx_assert", n_assert}, {"symx_reach", n_reach}, {"symx_reach_if", n_reach_if}, {"symx_note", n_note}, {"symx_stop", n_stop}, {"symx_concretize", n_concretize},
    {"symx_ite", n_ite}, {"symx_is_symbolic", n_issym}, {"symx_branch", n_branch}, {"symx_possible", n_possible}, {"symx_print", n_print}, {"symx_print1", n_print}, {"symx_and", n_and}, {"symx_or", n_or},
    {"_ZNSt8ios_base4InitC1Ev", n_nop}, {"_ZNSt8ios_base4InitD1Ev", n_nop}, {"_ZSt21ios_base_library_initv", n_nop},
};

// Library code outside the repository whose effect is output only.
static vector<string> nopPrefixes;   // return 0
static vector<string> arg0Prefixes;  // return the first argument

static NativeFn lookupNative(const string & name, bool defined)
{
    auto it = natives.find(name);
    if (it != natives.end())
        return it->second;
    for (auto & p : nopPrefixes)
        if (name.compare(0, p.size(), p) == 0)
            return n_nop;
    for (auto & p : arg0Prefixes)
        if (name.compare(0, p.size(), p) == 0)
            return n_arg0;
    (void)defined;
    return nullptr;
}
