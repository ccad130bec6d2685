// Decoded LLVM IR: every SSA value is flattened into scalar slots ("leaves").
#pragma once
#include "expr.hh"
#include <llvm-c/Core.h>
#include <llvm-c/Target.h>
#include <string>
#include <vector>
#include <unordered_map>

struct Val
{
    u64 c = 0;
    Expr * e = nullptr; // null: concrete. Widths above 64 are always expressions.
};

enum Op : uint8_t {
    O_RET, O_BR, O_CONDBR, O_SWITCH, O_UNREACHABLE, O_INVOKE, O_CALL, O_RESUME, O_LANDINGPAD,
    O_BIN, O_FBIN, O_FNEG, O_ICMP, O_FCMP, O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_CAST, O_SELECT,
    O_MOVE, O_EXTRACTELT, O_INSERTELT, O_RMW, O_CMPXCHG, O_NOP, O_UNSUPPORTED
};

enum Intr : uint16_t {
    I_NONE, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_NOP, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_SADDO, I_SSUBO, I_SMULO, I_UADDO, I_USUBO, I_UMULO,
    I_UADDSAT, I_USUBSAT, I_SADDSAT, I_SSUBSAT, I_FSHL, I_FSHR, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_TRAP, I_TYPEID, I_OBJSIZE, I_ISCONST, I_FIRST, I_STACKSAVE, I_ASSUME, I_FABS, I_FLOOR, I_CEIL,
    I_SQRT, I_FMULADD, I_UCMP, I_SCMP, I_ROUND, I_TRUNC, I_MINNUM, I_MAXNUM, I_LOG, I_EXP, I_POW, I_BITREV, I_VREDADD, I_VREDOR, I_VREDAND, I_UNSUP
};

struct Leaf
{
    uint32_t off;  // byte offset in memory
    uint16_t w;    // bits
    uint8_t bytes; // bytes in memory
    uint8_t fp;    // 0 int/ptr, 1 float, 2 double, 3 other
};

struct Function;

struct Inst
{
    Op op = O_UNSUPPORTED;
    uint8_t sub = 0;   // opcode/predicate
    uint16_t w = 0;    // width of scalar leaves
    uint16_t w2 = 0;   // source width for casts / cmps
    uint8_t fp = 0, fp2 = 0;
    int32_t dst = -1;  // first slot
    uint16_t n = 1;    // leaves
    std::vector<int32_t> ops;    // slots (>=0) or constants (~idx)
    std::vector<int32_t> aux;    // op-specific
    std::vector<Leaf> leaves;    // load/store
    std::vector<std::pair<int32_t, i64>> gep; // (operand, scale)
    std::vector<uint16_t> gepw;
    i64 imm = 0;
    int32_t t1 = -1, t2 = -1;    // block targets / invoke dests
    Function * callee = nullptr;
    uint16_t intr = 0;
    std::vector<u64> byval;      // per argument: size of byval copy or 0
    std::vector<uint16_t> argleaves;
    LLVMValueRef v = nullptr;
    std::vector<std::pair<u64, int32_t>> cases;
    int32_t edge = -1, edge2 = -1; // phi edge ids
    std::vector<int32_t> caseedges;
    bool cleanup = false;
};

struct Block
{
    std::vector<Inst> insts;
};

struct Edge
{
    std::vector<std::pair<int32_t, int32_t>> moves; // dst slot <- operand
};

struct NativeCtx;
typedef void (*NativeFn)(NativeCtx &);

struct Function
{
    std::string name;
    LLVMValueRef v = nullptr;
    bool decoded = false;
    bool defined = false;
    bool nounwind = false;
    u64 addr = 0;
    NativeFn native = nullptr;
    int nslots = 0;
    std::vector<int32_t> params;       // first slot of each
    std::vector<uint16_t> paramleaves;
    std::vector<u64> byval;
    int retleaves = 0;
    std::vector<Block> blocks;
    std::vector<Edge> edges;
    bool varargs = false;
    u64 calls = 0, steps = 0;
};
