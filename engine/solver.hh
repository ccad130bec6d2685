#pragma once
#include "expr.hh"
#include <memory>

struct Model
{
    std::vector<u64> v;
    u64 gen;
};
typedef std::shared_ptr<const Model> ModelP;
ModelP mkmodel(std::vector<u64> v);

enum class Res { Sat, Unsat, Unknown };

struct SolverStats
{
    u64 queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, modelhits = 0;
    double z3time = 0, sattime = 0;
    u64 satcalls = 0, liacalls = 0, crosschecked = 0;
};
extern SolverStats g_sstats;
extern u64 g_rlimit;
extern std::string g_dump_dir; // when set, every z3 query is also written out as SMT-LIB

extern bool g_crosscheck, g_lia_first;

// 'final' queries (the ones that decide assertions) are answered by the bit-blaster and MiniSat if that is quick, with one in
// 512 of its refutations repeated with Z3, and by Z3 if not; the rest by the bit-blaster and MiniSat.
// Is pc && cond satisfiable? 'base' is a model of pc; on Sat, 'out' is a model of pc && cond.
Res solve_query(const std::vector<Expr *> & pc, Expr * cond, const ModelP & base, ModelP & out, bool final = false);
void solver_after_fork();
