#pragma once
#include "solver.hh"
Res sat_query(const std::vector<Expr *> & q, const std::vector<uint32_t> & vars, std::vector<std::pair<uint32_t, u64>> & model, u64 conflicts);
