static const std::pair<const char *, Intr> intrinsics[] = {
    {"llvm.memcpy.inline.", I_MEMCPY}, {"llvm.memcpy.", I_MEMCPY}, {"llvm.memmove.", I_MEMMOVE}, {"llvm.memset.", I_MEMSET}, {"llvm.lifetime.", I_NOP},
    {"llvm.invariant.end", I_NOP}, {"llvm.invariant.start", I_NOP}, {"llvm.experimental.noalias", I_NOP}, {"llvm.dbg.", I_NOP}, {"llvm.donothing", I_NOP}, {"llvm.sideeffect", I_NOP},
    {"llvm.var.annotation", I_NOP}, {"llvm.prefetch", I_NOP}, {"llvm.stackrestore", I_NOP}, {"llvm.stacksave", I_STACKSAVE},
    {"llvm.assume", I_ASSUME}, {"llvm.expect.", I_FIRST}, {"llvm.threadlocal.address", I_FIRST}, {"llvm.launder.invariant.group", I_FIRST}, {"llvm.strip.invariant.group", I_FIRST}, {"llvm.ssa.copy", I_FIRST},
    {"llvm.umin.", I_UMIN}, {"llvm.umax.", I_UMAX}, {"llvm.smin.", I_SMIN}, {"llvm.smax.", I_SMAX}, {"llvm.abs.", I_ABS},
    {"llvm.sadd.with.overflow.", I_SADDO}, {"llvm.ssub.with.overflow.", I_SSUBO}, {"llvm.smul.with.overflow.", I_SMULO}, {"llvm.uadd.with.overflow.", I_UADDO},
    {"llvm.usub.with.overflow.", I_USUBO}, {"llvm.umul.with.overflow.", I_UMULO}, {"llvm.uadd.sat.", I_UADDSAT}, {"llvm.usub.sat.", I_USUBSAT}, {"llvm.sadd.sat.", I_SADDSAT}, {"llvm.ssub.sat.", I_SSUBSAT},
    {"llvm.fshl.", I_FSHL}, {"llvm.fshr.", I_FSHR}, {"llvm.ctpop.", I_CTPOP}, {"llvm.ctlz.", I_CTLZ}, {"llvm.cttz.", I_CTTZ}, {"llvm.bswap.", I_BSWAP}, {"llvm.bitreverse.", I_BITREV},
    {"llvm.trap", I_TRAP}, {"llvm.ubsantrap", I_TRAP}, {"llvm.eh.typeid.for", I_TYPEID}, {"llvm.objectsize.", I_OBJSIZE}, {"llvm.is.constant.", I_ISCONST},
    {"llvm.fabs.", I_FABS}, {"llvm.floor.", I_FLOOR}, {"llvm.ceil.", I_CEIL}, {"llvm.sqrt.", I_SQRT}, {"llvm.fmuladd.", I_FMULADD}, {"llvm.fma.", I_FMULADD}, {"llvm.ucmp.", I_UCMP}, {"llvm.scmp.", I_SCMP},
    {"llvm.round.", I_ROUND}, {"llvm.trunc.", I_TRUNC}, {"llvm.minnum.", I_MINNUM}, {"llvm.maxnum.", I_MAXNUM}, {"llvm.log.", I_LOG}, {"llvm.exp.", I_EXP}, {"llvm.pow.", I_POW},
    {"llvm.vector.reduce.add.", I_VREDADD}, {"llvm.vector.reduce.or.", I_VREDOR}, {"llvm.vector.reduce.and.", I_VREDAND},
};

static NativeFn lookupNative(const string & name, bool defined);

struct Decoder
{
    Function & f;
    std::unordered_map<LLVMValueRef, int32_t> slot;
    std::unordered_map<LLVMBasicBlockRef, int> bbid;
    std::map<std::pair<int, int>, int> edgeid;
    vector<LLVMBasicBlockRef> bbs;

    explicit Decoder(Function & ff) : f(ff) {}

    vector<int32_t> opnd(LLVMValueRef v)
    {
        vector<int32_t> r;
        auto k = LLVMGetValueKind(v);
        if (k == LLVMArgumentValueKind || k == LLVMInstructionValueKind) {
            int32_t s = slot.at(v);
            unsigned n = nleaves(LLVMTypeOf(v));
            for (unsigned i = 0; i < n; ++i)
                r.push_back(s + (int32_t)i);
            return r;
        }
        if (k == LLVMMetadataAsValueValueKind || k == LLVMInlineAsmValueKind)
            return r;
        vector<Val> c;
        constLeaves(v, c);
        for (auto & x : c)
            r.push_back(constSlot(x));
        return r;
    }
    int32_t op1(LLVMValueRef v)
    {
        auto r = opnd(v);
        if (r.size() != 1)
            throw EngineError{"scalar operand expected"};
        return r[0];
    }

    int edge(int from, LLVMBasicBlockRef to)
    {
        int t = bbid.at(to);
        auto key = std::make_pair(from, t);
        auto it = edgeid.find(key);
        if (it != edgeid.end())
            return it->second;
        Edge e;
        for (LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) {
            for (unsigned j = 0, n = LLVMCountIncoming(i); j < n; ++j)
                if (LLVMGetIncomingBlock(i, j) == bbs[(size_t)from]) {
                    auto o = opnd(LLVMGetIncomingValue(i, j));
                    int32_t d = slot.at(i);
                    for (size_t x = 0; x < o.size(); ++x)
                        e.moves.emplace_back(d + (int32_t)x, o[x]);
                    break;
                }
        }
        f.edges.push_back(std::move(e));
        edgeid[key] = (int)f.edges.size() - 1;
        return (int)f.edges.size() - 1;
    }

    void decode()
    {
        LLVMTypeRef ft = LLVMGlobalGetValueType(f.v);
        f.retleaves = (int)nleaves(LLVMGetReturnType(ft));
        f.varargs = LLVMIsFunctionVarArg(ft);
        f.nounwind = LLVMGetEnumAttributeAtIndex(f.v, LLVMAttributeFunctionIndex, nounwindKind) != nullptr;
        int32_t ns = 0;
        for (unsigned i = 0, n = LLVMCountParams(f.v); i < n; ++i) {
            LLVMValueRef p = LLVMGetParam(f.v, i);
            slot[p] = ns;
            f.params.push_back(ns);
            unsigned l = nleaves(LLVMTypeOf(p));
            f.paramleaves.push_back((uint16_t)l);
            ns += (int32_t)l;
            u64 bv = 0;
            if (auto a = LLVMGetEnumAttributeAtIndex(f.v, i + 1, byvalKind))
                bv = LLVMABISizeOfType(DL, LLVMGetTypeAttributeValue(a));
            f.byval.push_back(bv);
        }
        for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f.v); b; b = LLVMGetNextBasicBlock(b)) {
            bbid[b] = (int)bbs.size();
            bbs.push_back(b);
            for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
                unsigned l = nleaves(LLVMTypeOf(i));
                if (l) {
                    slot[i] = ns;
                    ns += (int32_t)l;
                }
            }
        }
        f.nslots = ns;
        f.blocks.resize(bbs.size());
        for (size_t b = 0; b < bbs.size(); ++b)
            for (LLVMValueRef i = LLVMGetFirstInstruction(bbs[b]); i; i = LLVMGetNextInstruction(i)) {
                if (LLVMGetInstructionOpcode(i) == LLVMPHI)
                    continue;
                Inst in;
                in.v = i;
                try {
                    inst(i, in, (int)b);
                }
                catch (EngineError & e) {
                    in.op = O_UNSUPPORTED;
                }
                if (in.op != O_NOP)
                    f.blocks[b].insts.push_back(std::move(in));
            }
        f.decoded = true;
    }

    void inst(LLVMValueRef i, Inst & in, int b)
    {
        LLVMTypeRef ty = LLVMTypeOf(i);
        auto oc = LLVMGetInstructionOpcode(i);
        auto it = slot.find(i);
        if (it != slot.end()) {
            in.dst = it->second;
            in.n = (uint16_t)nleaves(ty);
            in.w = (uint16_t)scalarw(ty);
            in.fp = scalarfp(ty);
        }
        auto all = [&](int from = 0) {
            for (int j = from, n = LLVMGetNumOperands(i); j < n; ++j)
                for (auto s : opnd(LLVMGetOperand(i, (unsigned)j)))
                    in.ops.push_back(s);
        };
        in.sub = (uint8_t)oc;
        switch (oc) {
        case LLVMRet: in.op = O_RET; all(); break;
        case LLVMBr:
            if (LLVMIsConditional(i)) {
                in.op = O_CONDBR;
                in.ops.push_back(op1(LLVMGetCondition(i)));
                in.t1 = bbid.at(LLVMGetSuccessor(i, 0));
                in.t2 = bbid.at(LLVMGetSuccessor(i, 1));
                in.edge = edge(b, LLVMGetSuccessor(i, 0));
                in.edge2 = edge(b, LLVMGetSuccessor(i, 1));
            }
            else {
                in.op = O_BR;
                in.t1 = bbid.at(LLVMGetSuccessor(i, 0));
                in.edge = edge(b, LLVMGetSuccessor(i, 0));
            }
            break;
        case LLVMSwitch: {
            in.op = O_SWITCH;
            in.ops.push_back(op1(LLVMGetOperand(i, 0)));
            in.w = (uint16_t)scalarw(LLVMTypeOf(LLVMGetOperand(i, 0)));
            LLVMBasicBlockRef d = LLVMGetSwitchDefaultDest(i);
            in.t1 = bbid.at(d);
            in.edge = edge(b, d);
            for (int j = 2, n = LLVMGetNumOperands(i); j + 1 < n; j += 2) {
                u64 v = LLVMConstIntGetZExtValue(LLVMGetOperand(i, (unsigned)j));
                LLVMBasicBlockRef t = LLVMValueAsBasicBlock(LLVMGetOperand(i, (unsigned)j + 1));
                in.cases.emplace_back(v, bbid.at(t));
                in.caseedges.push_back(edge(b, t));
            }
            break;
        }
        case LLVMUnreachable: in.op = O_UNREACHABLE; break;
        case LLVMResume: in.op = O_RESUME; all(); break;
        case LLVMLandingPad: {
            in.op = O_LANDINGPAD;
            in.cleanup = LLVMIsCleanup(i);
            for (unsigned j = 0, n = LLVMGetNumClauses(i); j < n; ++j) {
                LLVMValueRef c = LLVMGetClause(i, j);
                if (LLVMGetTypeKind(LLVMTypeOf(c)) == LLVMArrayTypeKind) {
                    in.aux.push_back(1); // filter: treated as "anything not listed": only empty filters are supported
                    in.ops.push_back(0);
                }
                else {
                    in.aux.push_back(0);
                    in.ops.push_back(op1(c));
                }
            }
            break;
        }
        case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem:
        case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: in.op = O_BIN; all(); break;
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: in.op = O_FBIN; all(); break;
        case LLVMFNeg: in.op = O_FNEG; all(); break;
        case LLVMICmp:
            in.op = O_ICMP;
            in.sub = (uint8_t)LLVMGetICmpPredicate(i);
            in.w = (uint16_t)scalarw(LLVMTypeOf(LLVMGetOperand(i, 0)));
            all();
            break;
        case LLVMFCmp:
            in.op = O_FCMP;
            in.sub = (uint8_t)LLVMGetFCmpPredicate(i);
            in.fp = scalarfp(LLVMTypeOf(LLVMGetOperand(i, 0)));
            all();
            break;
        case LLVMAlloca:
            in.op = O_ALLOCA;
            in.imm = (i64)LLVMABISizeOfType(DL, LLVMGetAllocatedType(i));
            in.ops.push_back(op1(LLVMGetOperand(i, 0)));
            break;
        case LLVMLoad:
            in.op = O_LOAD;
            leavesOf(ty, 0, in.leaves);
            in.ops.push_back(op1(LLVMGetOperand(i, 0)));
            break;
        case LLVMStore:
            in.op = O_STORE;
            leavesOf(LLVMTypeOf(LLVMGetOperand(i, 0)), 0, in.leaves);
            in.ops.push_back(op1(LLVMGetOperand(i, 1)));
            for (auto s : opnd(LLVMGetOperand(i, 0)))
                in.ops.push_back(s);
            break;
        case LLVMGetElementPtr: {
            in.op = O_GEP;
            if (in.n != 1)
                throw EngineError{"vector gep"};
            in.ops.push_back(op1(LLVMGetOperand(i, 0)));
            LLVMTypeRef t = LLVMGetGEPSourceElementType(i);
            for (int j = 1, n = LLVMGetNumOperands(i); j < n; ++j) {
                LLVMValueRef o = LLVMGetOperand(i, (unsigned)j);
                i64 scale;
                if (j == 1)
                    scale = (i64)LLVMABISizeOfType(DL, t);
                else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
                    unsigned idx = (unsigned)LLVMConstIntGetZExtValue(o);
                    in.imm += (i64)LLVMOffsetOfElement(DL, t, idx);
                    t = LLVMStructGetTypeAtIndex(t, idx);
                    continue;
                }
                else {
                    t = LLVMGetElementType(t);
                    scale = (i64)LLVMABISizeOfType(DL, t);
                }
                unsigned w = scalarw(LLVMTypeOf(o));
                if (LLVMGetValueKind(o) == LLVMConstantIntValueKind)
                    in.imm += scale * sx(LLVMConstIntGetZExtValue(o), w);
                else {
                    in.gep.emplace_back(op1(o), scale);
                    in.gepw.push_back((uint16_t)w);
                }
            }
            break;
        }
        case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt:
            in.op = O_CAST;
            in.w2 = (uint16_t)scalarw(LLVMTypeOf(LLVMGetOperand(i, 0)));
            in.fp2 = scalarfp(LLVMTypeOf(LLVMGetOperand(i, 0)));
            all();
            break;
        case LLVMPtrToInt: case LLVMIntToPtr:
            in.op = O_CAST;
            in.w2 = (uint16_t)scalarw(LLVMTypeOf(LLVMGetOperand(i, 0)));
            in.sub = in.w < in.w2 ? LLVMTrunc : LLVMZExt;
            all();
            break;
        case LLVMBitCast: case LLVMAddrSpaceCast: {
            unsigned sw = scalarw(LLVMTypeOf(LLVMGetOperand(i, 0)));
            if (sw == in.w)
                in.op = O_MOVE;
            else {
                in.op = O_CAST;
                in.w2 = (uint16_t)sw;
                in.sub = LLVMBitCast;
            }
            all();
            break;
        }
        case LLVMFreeze: in.op = O_MOVE; all(); break;
        case LLVMSelect: {
            in.op = O_SELECT;
            all();
            in.imm = (i64)opnd(LLVMGetOperand(i, 0)).size();
            break;
        }
        case LLVMExtractValue: {
            in.op = O_MOVE;
            auto src = opnd(LLVMGetOperand(i, 0));
            LLVMTypeRef t = LLVMTypeOf(LLVMGetOperand(i, 0));
            unsigned off = 0;
            const unsigned * idx = LLVMGetIndices(i);
            for (unsigned j = 0, n = LLVMGetNumIndices(i); j < n; ++j)
                t = stepInto(t, idx[j], off);
            for (unsigned j = 0; j < in.n; ++j)
                in.ops.push_back(src[off + j]);
            break;
        }
        case LLVMInsertValue: {
            in.op = O_MOVE;
            auto src = opnd(LLVMGetOperand(i, 0));
            auto x = opnd(LLVMGetOperand(i, 1));
            LLVMTypeRef t = LLVMTypeOf(LLVMGetOperand(i, 0));
            unsigned off = 0;
            const unsigned * idx = LLVMGetIndices(i);
            for (unsigned j = 0, n = LLVMGetNumIndices(i); j < n; ++j)
                t = stepInto(t, idx[j], off);
            for (size_t j = 0; j < x.size(); ++j)
                src[off + j] = x[j];
            in.ops = src;
            break;
        }
        case LLVMExtractElement: in.op = O_EXTRACTELT; all(); break;
        case LLVMInsertElement: in.op = O_INSERTELT; all(); break;
        case LLVMShuffleVector: {
            in.op = O_MOVE;
            auto x = opnd(LLVMGetOperand(i, 0)), y = opnd(LLVMGetOperand(i, 1));
            for (unsigned j = 0, n = LLVMGetNumMaskElements(i); j < n; ++j) {
                int m = LLVMGetMaskValue(i, j);
                if (m < 0)
                    in.ops.push_back(constSlot(cv(0)));
                else
                    in.ops.push_back((size_t)m < x.size() ? x[(size_t)m] : y[(size_t)m - x.size()]);
            }
            break;
        }
        case LLVMAtomicRMW:
            in.op = O_RMW;
            in.sub = (uint8_t)LLVMGetAtomicRMWBinOp(i);
            leavesOf(ty, 0, in.leaves);
            all();
            break;
        case LLVMAtomicCmpXchg:
            in.op = O_CMPXCHG;
            leavesOf(LLVMTypeOf(LLVMGetOperand(i, 1)), 0, in.leaves);
            all();
            break;
        case LLVMFence: in.op = O_NOP; break;
        case LLVMCall:
        case LLVMInvoke: {
            in.op = oc == LLVMCall ? O_CALL : O_INVOKE;
            LLVMValueRef c = LLVMGetCalledValue(i);
            while (LLVMGetValueKind(c) == LLVMGlobalAliasValueKind)
                c = LLVMAliasGetAliasee(c);
            if (LLVMGetValueKind(c) == LLVMInlineAsmValueKind) {
                in.intr = I_NOP; // only compiler barriers are expected
                if (in.dst >= 0)
                    throw EngineError{"inline asm"};
            }
            else if (LLVMGetValueKind(c) == LLVMFunctionValueKind) {
                string n = nameOf(c);
                if (n.compare(0, 5, "llvm.") == 0) {
                    in.intr = I_UNSUP;
                    for (auto & [p, k] : intrinsics)
                        if (n.compare(0, strlen(p), p) == 0) {
                            in.intr = k;
                            break;
                        }
                }
                else
                    in.callee = funcOf(c);
            }
            else
                in.imm = op1(c); // the function pointer's slot
            if (in.intr == I_NOP && in.op == O_CALL) {
                in.op = O_NOP;
                break;
            }
            unsigned na = LLVMGetNumArgOperands(i);
            for (unsigned j = 0; j < na; ++j) {
                auto o = opnd(LLVMGetOperand(i, j));
                in.argleaves.push_back((uint16_t)o.size());
                for (auto s : o)
                    in.ops.push_back(s);
                if (j == 0 && in.intr)
                    in.w2 = (uint16_t)scalarw(LLVMTypeOf(LLVMGetOperand(i, j)));
            }
            if (oc == LLVMInvoke) {
                in.t1 = bbid.at(LLVMGetNormalDest(i));
                in.t2 = bbid.at(LLVMGetUnwindDest(i));
                in.edge = edge(b, LLVMGetNormalDest(i));
                in.edge2 = edge(b, LLVMGetUnwindDest(i));
            }
            break;
        }
        default: throw EngineError{"opcode " + std::to_string(oc)};
        }
    }

    LLVMTypeRef stepInto(LLVMTypeRef t, unsigned idx, unsigned & off)
    {
        if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
            for (unsigned j = 0; j < idx; ++j)
                off += nleaves(LLVMStructGetTypeAtIndex(t, j));
            return LLVMStructGetTypeAtIndex(t, idx);
        }
        LLVMTypeRef e = LLVMGetElementType(t);
        off += idx * nleaves(e);
        return e;
    }
};

static void decodeFunction(Function * f)
{
    if (f->decoded)
        return;
    Decoder d(*f);
    d.decode();
    if (f->defined)
        encoded.insert(f->name);
}
