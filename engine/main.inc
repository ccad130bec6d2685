static void link(const vector<string> & files)
{
    C = LLVMContextCreate();
    // warnings about debug info and the like are not interesting
    LLVMContextSetDiagnosticHandler(C, [](LLVMDiagnosticInfoRef d, void *) {
        if (LLVMGetDiagInfoSeverity(d) == LLVMDSError) {
            char * m = LLVMGetDiagInfoDescription(d);
            fprintf(stderr, "llvm: %s\n", m);
            LLVMDisposeMessage(m);
        }
    }, nullptr);
    std::vector<LLVMModuleRef> ms;
    for (auto & f : files) {
        LLVMMemoryBufferRef b;
        char * e = nullptr;
        if (LLVMCreateMemoryBufferWithContentsOfFile(f.c_str(), &b, &e)) {
            fprintf(stderr, "symx: cannot read %s: %s\n", f.c_str(), e);
            exit(2);
        }
        LLVMModuleRef m;
        if (LLVMParseBitcodeInContext2(C, b, &m)) {
            fprintf(stderr, "symx: cannot parse %s\n", f.c_str());
            exit(2);
        }
        LLVMDisposeMemoryBuffer(b);
        ms.push_back(m);
    }
    // in pairs: each link takes time proportional to what is linked into
    while (ms.size() > 1) {
        std::vector<LLVMModuleRef> n;
        for (size_t i = 0; i < ms.size(); i += 2) {
            if (i + 1 < ms.size() && LLVMLinkModules2(ms[i], ms[i + 1])) {
                fprintf(stderr, "symx: link failed for %s\n", files[i].c_str());
                exit(2);
            }
            n.push_back(ms[i]);
        }
        ms.swap(n);
    }
    M = ms[0];
    DL = LLVMGetModuleDataLayout(M);
    byvalKind = LLVMGetEnumAttributeKindForName("byval", 5);
    nounwindKind = LLVMGetEnumAttributeKindForName("nounwind", 8);
}

static void storeConst(Memory & mem, LLVMValueRef v, u64 addr)
{
    LLVMTypeRef t = LLVMTypeOf(v);
    auto k = LLVMGetValueKind(v);
    if (k == LLVMConstantAggregateZeroValueKind || k == LLVMUndefValueValueKind || k == LLVMPoisonValueValueKind)
        return;
    if (k == LLVMConstantDataArrayValueKind && LLVMIsConstantString(v)) {
        size_t n;
        const char * s = LLVMGetAsString(v, &n);
        Obj * o = mem.getw(addr >> OFFBITS);
        memcpy(&o->d[addr & ((1u << OFFBITS) - 1)], s, n);
        return;
    }
    vector<Leaf> l;
    vector<Val> c;
    leavesOf(t, 0, l);
    constLeaves(v, c);
    if (l.size() != c.size())
        throw EngineError{"global initialiser shape"};
    Obj * o = mem.getw(addr >> OFFBITS);
    for (size_t i = 0; i < l.size(); ++i) {
        u64 off = (addr & ((1u << OFFBITS) - 1)) + l[i].off;
        if (c[i].e) {
            u128 x = c[i].e->c;
            memcpy(&o->d[off], &x, l[i].bytes);
        }
        else
            memcpy(&o->d[off], &c[i].c, l[i].bytes);
    }
}

static void layoutGlobals(State & s)
{
    for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        string n = nameOf(g);
        if (n == "llvm.global_ctors" || n == "llvm.global_dtors" || n == "llvm.used" || n == "llvm.compiler.used")
            continue;
        LLVMTypeRef t = LLVMGlobalGetValueType(g);
        bool ext = LLVMIsDeclaration(g);
        u64 sz = ext && ! LLVMTypeIsSized(t) ? 64 : LLVMABISizeOfType(DL, t);
        if (ext)
            sz = std::max<u64>(sz, 256);
        u64 a = s.mem.alloc(sz, ext ? 3 : 2, true);
        globalAddr[g] = a;
        globalName[a >> OFFBITS] = n;
    }
    for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f))
        if (! LLVMGetIntrinsicID(f))
            funcOf(f);
    for (auto & [g, a] : globalAddr) {
        LLVMValueRef i = LLVMGetInitializer(g);
        if (i) {
            try {
                storeConst(s.mem, i, a);
            }
            catch (EngineError & e) {
                if (verbose)
                    fprintf(stderr, "symx: global %s: %s\n", nameOf(g).c_str(), e.msg.c_str());
                s.mem.getw(a >> OFFBITS)->kind = 3;
            }
            if (LLVMIsGlobalConstant(g))
                s.mem.getw(a >> OFFBITS)->ro = 1;
        }
    }
}

static vector<Function *> globalCtors()
{
    vector<std::pair<u64, Function *>> r;
    LLVMValueRef g = LLVMGetNamedGlobal(M, "llvm.global_ctors");
    if (g) {
        LLVMValueRef i = LLVMGetInitializer(g);
        for (int k = 0, n = LLVMGetNumOperands(i); k < n; ++k) {
            LLVMValueRef e = LLVMGetOperand(i, (unsigned)k);
            r.emplace_back(LLVMConstIntGetZExtValue(LLVMGetOperand(e, 0)), funcOf(LLVMGetOperand(e, 1)));
        }
    }
    std::stable_sort(r.begin(), r.end(), [](auto & a, auto & b) { return a.first < b.first; });
    vector<Function *> f;
    for (auto & x : r)
        f.push_back(x.second);
    return f;
}

static void finishProcess(int rc)
{
    openout();
    for (auto & t : reached)
        fprintf(outf, "{\"type\":\"reached\",\"tag\":\"%s\"}\n", jesc(t).c_str());
    for (auto & f : encoded)
        fprintf(outf, "{\"type\":\"function\",\"name\":\"%s\"}\n", jesc(f).c_str());
    for (auto & [m, n] : assertCount)
        fprintf(outf, "{\"type\":\"assert\",\"msg\":\"%s\",\"n\":%llu}\n", jesc(m).c_str(), (unsigned long long)n);
    fclose(outf);
    sh->queries += g_sstats.queries;
    sh->z3calls += g_sstats.z3calls;
    sh->sat += g_sstats.sat;
    sh->unsat += g_sstats.unsat;
    sh->unknown += g_sstats.unknown;
    sh->satcalls += g_sstats.satcalls;
    sh->crosschecked += g_sstats.crosschecked;
    sh->satus += (u64)(g_sstats.sattime * 1e6);
    sh->z3us += (u64)(g_sstats.z3time * 1e6);
    int st;
    while (wait(&st) > 0)
        if (! WIFEXITED(st) || WEXITSTATUS(st))
            ++sh->errors;
    (void)rc;
}

static void engineError(State * s, const string & msg)
{
    ++sh->errors;
    sh->stop = 1;
    openout();
    fprintf(outf, "{\"type\":\"error\",\"msg\":\"%s\",\"stack\":[%s]}\n", jesc(msg).c_str(), s ? stackOf(*s).c_str() : "");
    fflush(outf);
}

static void drain()
{
again:
    try {
        while (! work.empty() && ! sh->stop) {
            State * s = work.back();
            work.pop_back();
            u64 before = s->steps;
            try {
                if (maxTime > 0 && elapsed() > maxTime) {
                    reportIncomplete(*s, "time limit");
                    sh->stop = 1;
                    throw PathEnd{};
                }
                runPath(*s);
            }
            catch (PathEnd &) {
                u64 n = ++sh->paths;
                if (! s->discard && sh->traces < maxTraces && (n & (n - 1)) == 0 && s->model) {
                    ++sh->traces;
                    openout();
                    fprintf(outf, "{\"type\":\"trace\",\"inputs\":[%s],\"notes\":[%s]}\n", inputsOf(*s, *s->model).c_str(), notesOf(*s, *s->model).c_str());
                    fflush(outf);
                }
                sh->steps += s->steps - before;
            }
            catch (EngineError & e) {
                engineError(s, e.msg);
            }
            catch (std::out_of_range & e) {
                engineError(s, "internal out_of_range");
            }
            delete s;
        }
    }
    catch (ForkChild & c) {
        // a fresh process that owns exactly one state
        for (auto * w : work)
            delete w;
        work.clear();
        work.push_back(c.s);
        if (outf) {
            // the parent's buffered text was flushed before the fork
            outf = nullptr;
        }
        reached.clear();
        encoded.clear();
        assertCount.clear();
        violKeys.clear();
        g_sstats = SolverStats{};
        solver_after_fork();
        isChild = true;
        goto again;
    }
}

int main(int argc, char ** argv)
{
    vector<string> files;
    string entry = "harness_main";
    bool undef = false;
    maxSteps = 200'000'000ull;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto next = [&]() -> string { if (i + 1 >= argc) exit(2); return argv[++i]; };
        if (a == "-o") outDir = next();
        else if (a == "-e") entry = next();
        else if (a == "-j") jobs = std::stoi(next());
        else if (a == "-t") maxTime = std::stod(next());
        else if (a == "--steps") maxSteps = std::stoull(next());
        else if (a == "--viol") maxViol = std::stoull(next());
        else if (a == "--rlimit") g_rlimit = std::stoull(next());
        else if (a == "--traces") maxTraces = std::stoull(next());
        else if (a == "--dump") g_dump_dir = next();
        else if (a == "--undef") undef = true;
        else if (a == "--arg0") arg0Prefixes.push_back(next());
        else if (a == "--nop") nopPrefixes.push_back(next());
        else if (a == "--crosscheck") g_crosscheck = true;
        else if (a == "-v") verbose = true;
        else files.push_back(a);
    }
    T0 = std::chrono::steady_clock::now();
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->running = 1;
    if (outDir.empty())
        outDir = ".";
    link(files);
    double tlink = elapsed();
    State * s = new State();
    s->model = mkmodel({});
    try {
        layoutGlobals(*s);
    }
    catch (EngineError & e) {
        fprintf(stderr, "symx: %s\n", e.msg.c_str());
        return 2;
    }
    if (undef) {
        for (auto * f : funcByIdx)
            if (! f->defined && ! lookupNative(f->name, false) && LLVMGetFirstUse(f->v))
                printf("%s\t%s\n", f->name.c_str(), demangle(f->name).c_str());
        return 0;
    }
    auto run1 = [&](Function * f) -> bool {
        pushFrame(*s, f, {}, nullptr);
        try {
            runPath(*s);
        }
        catch (PathEnd &) {
            if (! s->st.empty()) {
                ++sh->errors;
                engineError(s, "a static initialiser did not finish");
                return false;
            }
        }
        catch (EngineError & e) {
            engineError(s, e.msg);
            return false;
        }
        return true;
    };
    bool ok = true;
    for (auto * f : globalCtors())
        if (ok)
            ok = run1(f);
    if (ok) {
        auto it = funcs.find(entry);
        if (it == funcs.end() || ! it->second->defined) {
            fprintf(stderr, "symx: no function %s\n", entry.c_str());
            return 2;
        }
        s->steps = 0;
        pushFrame(*s, it->second, {}, nullptr);
        work.push_back(s);
        drain();
    }
    if (isChild) {
        finishProcess(0);
        --sh->running;
        _exit(0);
    }
    --sh->running;
    finishProcess(0);
    bool unfinished = ! work.empty();
    printf("{\"paths\":%llu,\"pruned\":%llu,\"steps\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_decided\":%llu,\"queries\":%llu,\"z3_calls\":%llu,\"sat_calls\":%llu,\"crosschecked\":%llu,\"sat_s\":%.3f,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"z3_s\":%.3f,\"violations\":%llu,\"incomplete\":%llu,\"errors\":%llu,\"stopped\":%d,\"link_s\":%.2f,\"wall_s\":%.2f}\n",
        (unsigned long long)sh->paths, (unsigned long long)sh->pruned, (unsigned long long)sh->steps, (unsigned long long)sh->forks, (unsigned long long)sh->asserts, (unsigned long long)sh->assertsDecided,
        (unsigned long long)sh->queries, (unsigned long long)sh->z3calls, (unsigned long long)sh->satcalls, (unsigned long long)sh->crosschecked, (double)sh->satus / 1e6, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->unknown, (double)sh->z3us / 1e6, (unsigned long long)sh->violations,
        (unsigned long long)sh->incomplete, (unsigned long long)sh->errors, (int)(sh->stop || unfinished), tlink, elapsed());
    fflush(stdout);
    _exit(sh->errors ? 2 : sh->violations ? 1 : sh->incomplete ? 3 : 0);
}
