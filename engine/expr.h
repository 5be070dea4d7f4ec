// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t { O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
    O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_NOT, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE };

typedef std::vector<uint32_t> SymSet;

struct TruthTable { uint64_t b[4]; };

struct Expr {
    uint8_t op, w;
    uint32_t id;
    uint64_t c;          // constant, symbol index, extract lsb
    Expr *a, *b, *d;
    const SymSet* syms;
    uint64_t ev; uint32_t epoch;
    uint32_t rangeDone;
    uint64_t lo, hi;     // unsigned range
    Z3_ast z;
    TruthTable* tt;
};

struct SymInfo { std::string name; unsigned w; Expr* e; };

extern std::vector<SymInfo> gSyms;
extern uint64_t gExprCount;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }

Expr* mkConst(uint64_t v, unsigned w);
Expr* mkSym(const std::string& name, unsigned w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkExt(Op op, Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned lsb, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
void exprRange(Expr* e, uint64_t& lo, uint64_t& hi);
const SymSet* symUnion(const SymSet* a, const SymSet* b);
std::string exprStr(Expr* e, int depth = 6);

// Evaluation under an assignment (values indexed by symbol).
struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; } void set(uint32_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };
uint64_t evalExpr(Expr* e, const Model& m);
uint64_t evalUnary(Expr* e, uint64_t val); // e has exactly one symbol
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
static inline bool isC(Expr* e) { return e->op == O_CONST; }
