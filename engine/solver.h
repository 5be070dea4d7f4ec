#pragma once
#include "expr.h"
#include <memory>
#include <set>

struct SolverStats { uint64_t queries = 0, unary = 0, cacheHits = 0, modelHits = 0, z3 = 0, z3sat = 0, z3unsat = 0, z3unknown = 0, enumerated = 0; double z3time = 0, z3max = 0; };
extern SolverStats gSolver;
extern unsigned gZ3TimeoutMs;

// Path condition of one state.
struct PathCond {
    std::vector<Expr*> cons;
    Model model;                    // satisfies all of cons
    std::vector<TruthTable> dom;    // per symbol (width <= 8)
    std::vector<uint8_t> flags;     // 1 = has domain, 2 = occurs in multi-symbol constraint, 4 = bound
    uint8_t flag(uint32_t s) const { return s < flags.size() ? flags[s] : 0; }
    void ensure(uint32_t s) { if (s >= flags.size()) { flags.resize(s + 8, 0); dom.resize(s + 8); } }
    bool allBound(Expr* e) const { if (e->syms->size() > 16) return false; for (uint32_t s : *e->syms) if (!(flag(s) & 4)) return false; return true; }
};
enum Tri { NO = 0, YES = 1, UNKNOWN = 2 };
// Is (path condition && e) satisfiable?  On YES fills *m with a full model.
Tri feasible(PathCond& pc, Expr* e, Model* m, bool forceZ3 = false);
void addConstraint(PathCond& pc, Expr* e, const Model* m); // m: model satisfying pc && e
TruthTable* truthTable(Expr* e);
Z3_ast toZ3(Expr* e);
