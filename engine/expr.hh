// Hash-consed bit-vector expressions with cached ranges, a simplifier and an evaluator.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum class K : uint8_t { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, Not, ZExt, SExt, Extract, Concat, Eq, Ult, Ule, Slt, Sle, Ite };

struct Rng
{
    u128 ulo = 0, uhi = 0;
    i128 slo = 0, shi = 0;
};

struct Expr
{
    K k;
    uint16_t w;
    uint32_t aux; // Extract: low bit; Var: id
    uint32_t id;
    Expr * a[3];
    u128 c;
    u128 ulo, uhi; // unsigned range
    i128 slo, shi; // signed range (width <= 126 only meaningful)
    u64 evalgen = 0;
    u128 evalval = 0;
    u64 pgen = 0; // path-specific range, valid for one generation
    Rng prng;
    std::vector<uint32_t> * vars = nullptr; // cached variable set
    bool isconst() const { return k == K::Const; }
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w)
{
    if (w >= 128)
        return (i128)v;
    v &= maskw(w);
    if (v >> (w - 1))
        return (i128)(v | ~maskw(w));
    return (i128)v;
}

struct VarInfo
{
    std::string name;
    unsigned w;
};
extern std::vector<VarInfo> g_vars;

struct ExprHash
{
    size_t operator()(const Expr * e) const
    {
        u64 h = (u64)e->k * 0x9E3779B97F4A7C15ull + e->w * 1315423911u + e->aux * 2654435761u;
        for (int i = 0; i < 3; ++i)
            h = (h ^ (u64)(e->a[i] ? e->a[i]->id + 1 : 0)) * 0xff51afd7ed558ccdull;
        h ^= (u64)e->c ^ (u64)(e->c >> 64) * 31;
        h *= 0xc4ceb9fe1a85ec53ull;
        return h ^ (h >> 29);
    }
};
struct ExprEq
{
    bool operator()(const Expr * x, const Expr * y) const
    {
        return x->k == y->k && x->w == y->w && x->aux == y->aux && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2] && x->c == y->c;
    }
};

Rng rangeFrom(Expr * e, const Rng * ch);
void tighten(Rng & r, unsigned w);
Expr * mkconst(u128 v, unsigned w);
Expr * mkvar(const std::string & name, unsigned w);
Expr * mkbin(K k, Expr * a, Expr * b);
Expr * mknot(Expr * a);
Expr * mkzext(Expr * a, unsigned w);
Expr * mksext(Expr * a, unsigned w);
Expr * mkextract(Expr * a, unsigned lo, unsigned w);
Expr * mkconcat(Expr * hi, Expr * lo);
Expr * mkite(Expr * c, Expr * t, Expr * f);
u128 evalexpr(Expr * e, const std::vector<u64> & model, u64 gen);
const std::vector<uint32_t> & varsof(Expr * e);
std::string show(Expr * e, int depth = 6);
// Number of signed bits needed to hold every value of e (1..w).
unsigned signed_bits(Expr * e);
