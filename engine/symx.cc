// symx: a path-forking symbolic executor for LLVM IR (LLVM 20 bitcode through the C API),
// deciding branches and assertions with Z3. See /verif/DESIGN.md for the semantics.
#include "ir.hh"
#include "solver.hh"
#include <llvm-c/BitReader.h>
#include <llvm-c/Linker.h>
#include <llvm-c/Analysis.h>
#include <cmath>
#include <chrono>
#include <deque>
#include <map>
#include <set>
#include <unordered_set>
#include <atomic>
#include <cxxabi.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

using std::string;
using std::vector;

// ---------------------------------------------------------------- memory

struct SymByte
{
    Expr * e = nullptr;
    uint8_t idx = 0;
};

struct Obj
{
    int rc = 0;
    u64 id;
    uint32_t size;
    uint8_t ro = 0, kind = 0; // kind: 0 heap, 1 stack, 2 global, 3 external global
    vector<uint8_t> d;
    vector<SymByte> s; // empty, or one per byte
    int nsym = 0;
};

template <typename T>
struct Ref
{
    T * p = nullptr;
    Ref() {}
    Ref(T * x) : p(x) { if (p) ++p->rc; }
    Ref(const Ref & o) : p(o.p) { if (p) ++p->rc; }
    Ref(Ref && o) noexcept : p(o.p) { o.p = nullptr; }
    Ref & operator=(Ref o) { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    T * operator->() const { return p; }
    explicit operator bool() const { return p; }
};

struct Page
{
    int rc = 0;
    Ref<Obj> o[64];
};

static const int OFFBITS = 24;
static const u64 FUNCBASE = (u64)1 << 62;

struct Memory
{
    vector<Ref<Page>> pages;
    u64 next = 1;
    u64 live = 0;

    Obj * get(u64 id) const
    {
        u64 p = id >> 6;
        if (p >= pages.size() || ! pages[p])
            return nullptr;
        return pages[p]->o[id & 63].p;
    }
    Page * wpage(u64 p)
    {
        if (p >= pages.size())
            pages.resize(p + 1);
        if (! pages[p])
            pages[p] = Ref<Page>(new Page());
        else if (pages[p]->rc > 1) {
            Page * n = new Page(*pages[p].p);
            n->rc = 0;
            pages[p] = Ref<Page>(n);
        }
        return pages[p].p;
    }
    Obj * getw(u64 id)
    {
        Page * p = wpage(id >> 6);
        Ref<Obj> & r = p->o[id & 63];
        if (r && r->rc > 1) {
            Obj * n = new Obj(*r.p);
            n->rc = 0;
            r = Ref<Obj>(n);
        }
        return r.p;
    }
    u64 alloc(u64 size, int kind, bool zero)
    {
        Obj * o = new Obj();
        o->id = next++;
        o->size = (uint32_t)size;
        o->kind = (uint8_t)kind;
        o->d.assign(size, zero ? 0 : 0xCD);
        wpage(o->id >> 6)->o[o->id & 63] = Ref<Obj>(o);
        ++live;
        return o->id << OFFBITS;
    }
    void free(u64 id)
    {
        Page * p = wpage(id >> 6);
        p->o[id & 63] = Ref<Obj>();
        --live;
    }
};

// ---------------------------------------------------------------- state

struct Frame
{
    Function * f;
    int bb = 0, ip = 0;
    vector<Val> regs;
    vector<u64> allocas;
    Inst * call = nullptr; // in the caller
};

struct ExcRec
{
    u64 obj = 0, ti = 0, adj = 0;
    int handlers = 0;
};

struct State
{
    vector<Frame> st;
    Memory mem;
    vector<Expr *> pc;
    std::unordered_map<Expr *, u64> known;
    std::unordered_map<Expr *, Rng> rng; // what this path's conditions say about the range of expressions
    u64 rgen = 1;
    bool discard = false; // cut by an assumption or a failed check: not a sample of passing behaviour
    ModelP model;
    vector<std::pair<string, Expr *>> inputs;
    vector<std::pair<string, Val>> notes;
    vector<u64> caught;  // exception objects being handled
    std::map<u64, ExcRec> excs; // by object address
    u64 unwinding = 0;   // exception object in flight
    int uncaught = 0;
    std::map<u64, int> guards;
    u64 steps = 0;
    int depth = 0;
    std::unordered_map<u64, u64> heap; // live heap blocks: id -> size
};

struct PathEnd { };           // the path is finished (assume false, stop, exit)
struct EngineError { string msg; };

// ---------------------------------------------------------------- globals

static LLVMModuleRef M;
static LLVMTargetDataRef DL;
static LLVMContextRef C;
static std::unordered_map<string, Function *> funcs;
static vector<Function *> funcByIdx;
static std::unordered_map<LLVMValueRef, u64> globalAddr;
static std::unordered_map<u64, string> globalName; // by object id
static vector<Val> consts;
static std::unordered_map<u64, int32_t> constIdx;
static unsigned byvalKind, nounwindKind;
static std::deque<State *> work;
static u64 maxSteps = 0;
static double maxTime = 0;
static bool isChild = false;
static int jobs = 1;
static u64 maxTraces = 0;
static u64 maxViol = 3;
static bool leakcheck = false;
static std::chrono::steady_clock::time_point T0;
static bool verbose = false;

struct Shared
{
    std::atomic<int> running;
    std::atomic<int> stop;
    std::atomic<u64> paths, traces, pruned, steps, asserts, assertsDecided, forks, errors, violations, incomplete;
    std::atomic<u64> queries, z3calls, unsat, sat, unknown;
    std::atomic<u64> z3us, satcalls, crosschecked, satus;
};
static Shared * sh;
static string outDir;
static FILE * outf = nullptr;
static std::set<string> reached, encoded;
static std::map<string, u64> assertCount;
static std::set<string> violKeys;

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static string jesc(const string & s)
{
    string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\')
            r += '\\', r += (char)ch;
        else if (ch < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        }
        else
            r += (char)ch;
    }
    return r;
}

static string demangle(const string & s)
{
    int st;
    char * d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if (! d)
        return s;
    string r = d;
    free(d);
    return r;
}

static void openout()
{
    if (! outf) {
        string fn = outDir + "/out." + std::to_string(getpid()) + ".jsonl";
        outf = fopen(fn.c_str(), "a");
    }
}

// ---------------------------------------------------------------- helpers on values

static inline Expr * toexpr(const Val & v, unsigned w) { return v.e ? v.e : mkconst(v.c, w); }
static inline Val fromexpr(Expr * e)
{
    Val v;
    if (e->k == K::Const && e->w <= 64)
        v.c = (u64)e->c;
    else
        v.e = e;
    return v;
}
static inline Val cv(u64 c) { Val v; v.c = c; return v; }
static inline u64 m64(unsigned w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

// ---------------------------------------------------------------- type layout

static void leavesOf(LLVMTypeRef t, u64 off, vector<Leaf> & out)
{
    switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: {
        unsigned w = LLVMGetIntTypeWidth(t);
        out.push_back({(uint32_t)off, (uint16_t)w, (uint8_t)((w + 7) / 8), 0});
        break;
    }
    case LLVMPointerTypeKind: out.push_back({(uint32_t)off, 64, 8, 0}); break;
    case LLVMFloatTypeKind: out.push_back({(uint32_t)off, 32, 4, 1}); break;
    case LLVMDoubleTypeKind: out.push_back({(uint32_t)off, 64, 8, 2}); break;
    case LLVMX86_FP80TypeKind: out.push_back({(uint32_t)off, 64, 8, 3}); break; // only moved around, as a double
    case LLVMStructTypeKind: {
        unsigned n = LLVMCountStructElementTypes(t);
        for (unsigned i = 0; i < n; ++i)
            leavesOf(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(DL, t, i), out);
        break;
    }
    case LLVMArrayTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t);
        u64 sz = LLVMABISizeOfType(DL, e);
        for (u64 i = 0, n = LLVMGetArrayLength2(t); i < n; ++i)
            leavesOf(e, off + i * sz, out);
        break;
    }
    case LLVMVectorTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t);
        unsigned n = LLVMGetVectorSize(t);
        u64 bits = LLVMSizeOfTypeInBits(DL, e);
        if (bits % 8) { // bit-packed in memory: only usable in registers
            for (unsigned i = 0; i < n; ++i)
                leavesOf(e, off + i, out);
            break;
        }
        for (unsigned i = 0; i < n; ++i)
            leavesOf(e, off + i * (bits / 8), out);
        break;
    }
    case LLVMVoidTypeKind:
    case LLVMTokenTypeKind:
    case LLVMMetadataTypeKind:
    case LLVMLabelTypeKind: break;
    default: throw EngineError{"type kind " + std::to_string(LLVMGetTypeKind(t))};
    }
}
static unsigned nleaves(LLVMTypeRef t)
{
    vector<Leaf> l;
    leavesOf(t, 0, l);
    return (unsigned)l.size();
}
static unsigned scalarw(LLVMTypeRef t)
{
    while (LLVMGetTypeKind(t) == LLVMVectorTypeKind)
        t = LLVMGetElementType(t);
    vector<Leaf> l;
    leavesOf(t, 0, l);
    return l.empty() ? 0 : l[0].w;
}
static uint8_t scalarfp(LLVMTypeRef t)
{
    while (LLVMGetTypeKind(t) == LLVMVectorTypeKind)
        t = LLVMGetElementType(t);
    switch (LLVMGetTypeKind(t)) {
    case LLVMFloatTypeKind: return 1;
    case LLVMDoubleTypeKind: return 2;
    case LLVMX86_FP80TypeKind: return 3;
    default: return 0;
    }
}

// ---------------------------------------------------------------- constants

static string nameOf(LLVMValueRef v)
{
    size_t n;
    const char * s = LLVMGetValueName2(v, &n);
    return string(s, n);
}

static Function * funcOf(LLVMValueRef v)
{
    string n = nameOf(v);
    auto it = funcs.find(n);
    if (it != funcs.end())
        return it->second;
    auto * f = new Function();
    f->name = n;
    f->v = v;
    f->defined = ! LLVMIsDeclaration(v);
    f->addr = FUNCBASE + 16 * funcByIdx.size();
    funcByIdx.push_back(f);
    funcs[n] = f;
    return f;
}

static void constLeaves(LLVMValueRef v, vector<Val> & out);

static u64 constAddr(LLVMValueRef v)
{
    switch (LLVMGetValueKind(v)) {
    case LLVMFunctionValueKind: return funcOf(v)->addr;
    case LLVMGlobalAliasValueKind: return constAddr(LLVMAliasGetAliasee(v));
    case LLVMGlobalVariableValueKind: {
        auto it = globalAddr.find(v);
        if (it == globalAddr.end())
            throw EngineError{"no address for global " + nameOf(v)};
        return it->second;
    }
    default: throw EngineError{"constAddr kind " + std::to_string(LLVMGetValueKind(v))};
    }
}

static void constLeaves(LLVMValueRef v, vector<Val> & out)
{
    LLVMTypeRef t = LLVMTypeOf(v);
    switch (LLVMGetValueKind(v)) {
    case LLVMConstantIntValueKind: {
        unsigned w = LLVMGetIntTypeWidth(t);
        if (w <= 64)
            out.push_back(cv(LLVMConstIntGetZExtValue(v)));
        else {
            char * s = LLVMPrintValueToString(v);
            string str = s;
            LLVMDisposeMessage(s);
            str = str.substr(str.find(' ') + 1);
            bool neg = str[0] == '-';
            u128 x = 0;
            for (char ch : str)
                if (ch >= '0' && ch <= '9')
                    x = x * 10 + (unsigned)(ch - '0');
            if (neg)
                x = -x;
            Val r;
            r.e = mkconst(x, w);
            out.push_back(r);
        }
        break;
    }
    case LLVMConstantFPValueKind: {
        LLVMBool loses;
        double d = LLVMConstRealGetDouble(v, &loses);
        u64 b;
        if (scalarfp(t) == 1) {
            float f = (float)d;
            uint32_t x;
            memcpy(&x, &f, 4);
            b = x;
        }
        else
            memcpy(&b, &d, 8);
        out.push_back(cv(b));
        break;
    }
    case LLVMConstantPointerNullValueKind: out.push_back(cv(0)); break;
    case LLVMUndefValueValueKind:
    case LLVMPoisonValueValueKind:
    case LLVMConstantAggregateZeroValueKind: {
        vector<Leaf> l;
        leavesOf(t, 0, l);
        for (auto & x : l) {
            Val z;
            if (x.w > 64)
                z.e = mkconst(0, x.w);
            out.push_back(z);
        }
        break;
    }
    case LLVMConstantArrayValueKind:
    case LLVMConstantStructValueKind:
    case LLVMConstantVectorValueKind:
        for (int i = 0, n = LLVMGetNumOperands(v); i < n; ++i)
            constLeaves(LLVMGetOperand(v, (unsigned)i), out);
        break;
    case LLVMConstantDataArrayValueKind:
    case LLVMConstantDataVectorValueKind: {
        u64 n = LLVMGetTypeKind(t) == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
        for (u64 i = 0; i < n; ++i)
            constLeaves(LLVMGetAggregateElement(v, (unsigned)i), out);
        break;
    }
    case LLVMFunctionValueKind:
    case LLVMGlobalAliasValueKind:
    case LLVMGlobalVariableValueKind: out.push_back(cv(constAddr(v))); break;
    case LLVMConstantExprValueKind: {
        vector<Val> a;
        switch (LLVMGetConstOpcode(v)) {
        case LLVMGetElementPtr: {
            constLeaves(LLVMGetOperand(v, 0), a);
            u64 addr = a[0].c;
            LLVMTypeRef ty = LLVMGetGEPSourceElementType(v);
            for (int i = 1, n = LLVMGetNumOperands(v); i < n; ++i) {
                vector<Val> x;
                LLVMValueRef o = LLVMGetOperand(v, (unsigned)i);
                constLeaves(o, x);
                i64 idx = sx(x[0].c, LLVMGetIntTypeWidth(LLVMTypeOf(o)));
                if (i == 1)
                    addr += (u64)(idx * (i64)LLVMABISizeOfType(DL, ty));
                else if (LLVMGetTypeKind(ty) == LLVMStructTypeKind) {
                    addr += LLVMOffsetOfElement(DL, ty, (unsigned)idx);
                    ty = LLVMStructGetTypeAtIndex(ty, (unsigned)idx);
                }
                else {
                    ty = LLVMGetElementType(ty);
                    addr += (u64)(idx * (i64)LLVMABISizeOfType(DL, ty));
                }
            }
            out.push_back(cv(addr));
            break;
        }
        case LLVMPtrToInt:
        case LLVMIntToPtr:
        case LLVMBitCast:
        case LLVMAddrSpaceCast: constLeaves(LLVMGetOperand(v, 0), out); break;
        case LLVMTrunc:
            constLeaves(LLVMGetOperand(v, 0), a);
            out.push_back(cv(a[0].c & m64(scalarw(t))));
            break;
        case LLVMAdd:
        case LLVMSub:
        case LLVMXor:
        case LLVMMul:
            constLeaves(LLVMGetOperand(v, 0), a);
            constLeaves(LLVMGetOperand(v, 1), a);
            out.push_back(cv((LLVMGetConstOpcode(v) == LLVMAdd ? a[0].c + a[1].c : LLVMGetConstOpcode(v) == LLVMSub ? a[0].c - a[1].c : LLVMGetConstOpcode(v) == LLVMXor ? a[0].c ^ a[1].c : a[0].c * a[1].c) & m64(scalarw(t))));
            break;
        default: throw EngineError{"constant expression opcode " + std::to_string(LLVMGetConstOpcode(v))};
        }
        break;
    }
    default: {
        char * s = LLVMPrintValueToString(v);
        string str = s;
        LLVMDisposeMessage(s);
        throw EngineError{"constant kind " + std::to_string(LLVMGetValueKind(v)) + ": " + str.substr(0, 200)};
    }
    }
}

static int32_t constSlot(const Val & v)
{
    u64 key = v.e ? ((u64)v.e->id * 2 + 1) * 0x9E3779B97F4A7C15ull : v.c * 2;
    auto it = constIdx.find(key);
    if (it != constIdx.end() && consts[it->second].c == v.c && consts[it->second].e == v.e)
        return ~it->second;
    consts.push_back(v);
    constIdx[key] = (int32_t)consts.size() - 1;
    return ~((int32_t)consts.size() - 1);
}

// ---------------------------------------------------------------- decoding

#include "decode.inc"

// ---------------------------------------------------------------- execution

#include "exec.inc"

// ---------------------------------------------------------------- natives

#include "natives.inc"

// ---------------------------------------------------------------- main

#include "main.inc"
