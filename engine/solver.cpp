#include "solver.h"
#include <chrono>
SolverStats gSolver;
unsigned gZ3TimeoutMs = 60000;
static Z3_context ctx() { static Z3_context c = nullptr; if (!c) { Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context(cfg); Z3_del_config(cfg); } return c; }
static Z3_sort bv(unsigned w) { static Z3_sort s[65] = {}; if (!s[w]) { s[w] = Z3_mk_bv_sort(ctx(), w); Z3_inc_ref(ctx(), Z3_sort_to_ast(ctx(), s[w])); } return s[w]; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx(), a); return a; }
// Boolean-valued (width 1 comparison) expressions are translated to BV1 via ite; conditions are recovered with asBool.
static Z3_ast asBool(Expr* e);
Z3_ast toZ3(Expr* e) {
    if (e->z) return e->z;
    Z3_context c = ctx(); Z3_ast r;
    switch (e->op) {
        case O_CONST: r = Z3_mk_unsigned_int64(c, e->c, bv(e->w)); break;
        case O_SYM: r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("s" + std::to_string(e->c)).c_str()), bv(e->w)); break;
        case O_ADD: r = Z3_mk_bvadd(c, toZ3(e->a), toZ3(e->b)); break;
        case O_SUB: r = Z3_mk_bvsub(c, toZ3(e->a), toZ3(e->b)); break;
        case O_MUL: r = Z3_mk_bvmul(c, toZ3(e->a), toZ3(e->b)); break;
        case O_UDIV: r = Z3_mk_bvudiv(c, toZ3(e->a), toZ3(e->b)); break;
        case O_SDIV: r = Z3_mk_bvsdiv(c, toZ3(e->a), toZ3(e->b)); break;
        case O_UREM: r = Z3_mk_bvurem(c, toZ3(e->a), toZ3(e->b)); break;
        case O_SREM: r = Z3_mk_bvsrem(c, toZ3(e->a), toZ3(e->b)); break;
        case O_AND: r = Z3_mk_bvand(c, toZ3(e->a), toZ3(e->b)); break;
        case O_OR: r = Z3_mk_bvor(c, toZ3(e->a), toZ3(e->b)); break;
        case O_XOR: r = Z3_mk_bvxor(c, toZ3(e->a), toZ3(e->b)); break;
        case O_SHL: r = Z3_mk_bvshl(c, toZ3(e->a), toZ3(e->b)); break;
        case O_LSHR: r = Z3_mk_bvlshr(c, toZ3(e->a), toZ3(e->b)); break;
        case O_ASHR: r = Z3_mk_bvashr(c, toZ3(e->a), toZ3(e->b)); break;
        case O_NOT: r = Z3_mk_bvnot(c, toZ3(e->a)); break;
        case O_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, toZ3(e->a)); break;
        case O_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, toZ3(e->a)); break;
        case O_EXTRACT: r = Z3_mk_extract(c, e->c + e->w - 1, e->c, toZ3(e->a)); break;
        case O_CONCAT: r = Z3_mk_concat(c, toZ3(e->a), toZ3(e->b)); break;
        case O_ITE: r = Z3_mk_ite(c, asBool(e->a), toZ3(e->b), toZ3(e->d)); break;
        default: { r = Z3_mk_ite(c, asBool(e), Z3_mk_unsigned_int64(c, 1, bv(1)), Z3_mk_unsigned_int64(c, 0, bv(1))); break; }
    }
    return e->z = keep(r);
}
static std::unordered_map<Expr*, Z3_ast> boolCache;
static Z3_ast asBool(Expr* e) {
    auto it = boolCache.find(e); if (it != boolCache.end()) return it->second;
    Z3_context c = ctx(); Z3_ast r;
    switch (e->op) {
        case O_CONST: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case O_EQ: r = (e->a->w == 1) ? Z3_mk_iff(c, asBool(e->a), asBool(e->b)) : Z3_mk_eq(c, toZ3(e->a), toZ3(e->b)); break;
        case O_ULT: r = Z3_mk_bvult(c, toZ3(e->a), toZ3(e->b)); break;
        case O_ULE: r = Z3_mk_bvule(c, toZ3(e->a), toZ3(e->b)); break;
        case O_SLT: r = Z3_mk_bvslt(c, toZ3(e->a), toZ3(e->b)); break;
        case O_SLE: r = Z3_mk_bvsle(c, toZ3(e->a), toZ3(e->b)); break;
        case O_NOT: r = Z3_mk_not(c, asBool(e->a)); break;
        case O_AND: { Z3_ast k[2] = {asBool(e->a), asBool(e->b)}; r = Z3_mk_and(c, 2, k); break; }
        case O_OR: { Z3_ast k[2] = {asBool(e->a), asBool(e->b)}; r = Z3_mk_or(c, 2, k); break; }
        case O_ITE: r = Z3_mk_ite(c, asBool(e->a), asBool(e->b), asBool(e->d)); break;
        default: r = Z3_mk_eq(c, toZ3(e), Z3_mk_unsigned_int64(c, 1, bv(1)));
    }
    keep(r); boolCache[e] = r; return r;
}
TruthTable* truthTable(Expr* e) {
    if (e->tt) return e->tt;
    TruthTable* t = new TruthTable{{0, 0, 0, 0}};
    unsigned n = 1u << gSyms[(*e->syms)[0]].w;
    for (unsigned i = 0; i < n; i++) if (evalUnary(e, i)) t->b[i >> 6] |= 1ull << (i & 63);
    return e->tt = t;
}
static bool isUnary(Expr* e) { return e->syms->size() == 1 && gSyms[(*e->syms)[0]].w <= 8; }

struct CacheEnt { Tri r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 0x1234567; for (auto x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

static Tri z3check(const std::vector<Expr*>& es, std::vector<std::pair<uint32_t, uint64_t>>& vals, const std::vector<uint32_t>& syms) {
    static Z3_solver s = nullptr; Z3_context c = ctx();
    auto t0 = std::chrono::steady_clock::now();
    if (!s) { s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), gZ3TimeoutMs); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); }
    Z3_solver_push(c, s);
    for (Expr* e : es) Z3_solver_assert(c, s, asBool(e));
    Z3_lbool r = Z3_solver_check(c, s);
    Tri res = UNKNOWN;
    if (r == Z3_L_TRUE) {
        res = YES; gSolver.z3sat++;
        Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
        for (uint32_t sy : syms) {
            Z3_ast out; uint64_t v = 0;
            if (Z3_model_eval(c, m, toZ3(gSyms[sy].e), true, &out)) { Z3_inc_ref(c, out); Z3_get_numeral_uint64(c, out, (uint64_t*)&v); Z3_dec_ref(c, out); }
            vals.push_back({sy, v});
        }
        Z3_model_dec_ref(c, m);
    } else if (r == Z3_L_FALSE) { res = NO; gSolver.z3unsat++; }
    else gSolver.z3unknown++;
    Z3_solver_pop(c, s, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.z3++; gSolver.z3time += dt; if (dt > gSolver.z3max) gSolver.z3max = dt;
    static bool slow = getenv("VP_SLOWQ"); if (slow && dt > 1) { fprintf(stderr, "SLOWQ %.1fs %d\n", dt, res); for (Expr* e : es) fprintf(stderr, "   %s\n", exprStr(e, 12).substr(0, 900).c_str()); }
    return res;
}
// Exact decision for slices whose byte domains span few combinations: every combination is evaluated.
static bool enumDomain(PathCond& pc, const std::vector<Expr*>& slice, const std::vector<uint32_t>& syms, CacheEnt& ent) {
    if (syms.size() > 6) return false; uint64_t prod = 1; std::vector<std::vector<uint16_t>> dom(syms.size());
    for (size_t i = 0; i < syms.size(); i++) { unsigned w = gSyms[syms[i]].w; if (w > 8) return false; unsigned n = 1u << w; bool has = pc.flag(syms[i]) & 1;
        for (unsigned v = 0; v < n; v++) if (!has || (pc.dom[syms[i]].b[v >> 6] >> (v & 63) & 1)) dom[i].push_back(v); prod *= dom[i].size(); if (prod > 3000) return false; }
    if (!prod) { ent.r = NO; return true; }
    std::vector<Expr*> cs; for (Expr* x : slice) if (x->syms->size() > 1 || !(pc.flag((*x->syms)[0]) & 1) || x == slice[0]) cs.push_back(x);
    Model m = pc.model; std::vector<size_t> ix(syms.size(), 0);
    for (size_t i = 0; i < syms.size(); i++) m.set(syms[i], dom[i][0]);
    for (;;) {
        bool ok = true; for (Expr* x : cs) if (!evalExpr(x, m)) { ok = false; break; }
        if (ok) { ent.r = YES; for (size_t i = 0; i < syms.size(); i++) ent.vals.push_back({syms[i], dom[i][ix[i]]}); gSolver.enumerated++; return true; }
        size_t j = 0; for (; j < syms.size(); j++) { if (++ix[j] < dom[j].size()) { m.set(syms[j], dom[j][ix[j]]); break; } ix[j] = 0; m.set(syms[j], dom[j][0]); }
        if (j == syms.size()) break;
    }
    ent.r = NO; gSolver.enumerated++; return true;
}
Tri feasible(PathCond& pc, Expr* e, Model* m, bool forceZ3) {
    gSolver.queries++;
    if (isC(e)) { if (e->c && m) *m = pc.model; return e->c ? YES : NO; }
    if (!forceZ3) {
        if (evalExpr(e, pc.model)) { gSolver.modelHits++; if (m) *m = pc.model; return YES; }
        if (isUnary(e)) {
            uint32_t s = (*e->syms)[0];
            if (!(pc.flag(s) & 2)) {
                gSolver.unary++;
                TruthTable* t = truthTable(e);
                bool hasDom = pc.flag(s) & 1;
                for (int i = 0; i < 4; i++) {
                    uint64_t b = t->b[i] & (hasDom ? pc.dom[s].b[i] : ~0ull);
                    if (b) { if (m) { *m = pc.model; m->set(s, i * 64 + __builtin_ctzll(b)); } return YES; }
                }
                return NO;
            }
        }
    }
    // independence slice
    std::vector<Expr*> slice; slice.push_back(e);
    {
        static std::vector<uint8_t> in; static std::vector<uint32_t> touched;
        in.resize(gSyms.size() + 1); touched.clear();
        for (uint32_t s : *e->syms) { if (!in[s]) { in[s] = 1; touched.push_back(s); } }
        std::vector<uint8_t> used(pc.cons.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.cons.size(); i++) {
                if (used[i]) continue;
                bool hit = false; for (uint32_t s : *pc.cons[i]->syms) if (in[s]) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1; slice.push_back(pc.cons[i]);
                for (uint32_t s : *pc.cons[i]->syms) if (!in[s]) { in[s] = 1; touched.push_back(s); ch = true; }
            }
        }
        for (uint32_t s : touched) in[s] = 0;
        std::vector<uint32_t> syms = touched; std::sort(syms.begin(), syms.end());
        std::vector<uint32_t> key; key.reserve(slice.size()); for (Expr* x : slice) key.push_back(x->id);
        std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it == cache.end() || (forceZ3 && false)) {
            CacheEnt ent; if (forceZ3 || !enumDomain(pc, slice, syms, ent)) ent.r = z3check(slice, ent.vals, syms);
            if (cache.size() > 400000) cache.clear();
            it = cache.emplace(std::move(key), std::move(ent)).first;
        } else gSolver.cacheHits++;
        if (it->second.r == YES && m) { *m = pc.model; for (auto& p : it->second.vals) m->set(p.first, p.second); }
        return it->second.r;
    }
}
void addConstraint(PathCond& pc, Expr* e, const Model* m) {
    if (m && m != &pc.model) pc.model = *m;
    if (isC(e)) return;
    if (e->op == O_AND && e->w == 1) { addConstraint(pc, e->a, nullptr); addConstraint(pc, e->b, nullptr); return; }
    if (e->op == O_NOT && e->a->op == O_OR) { addConstraint(pc, mkNot(e->a->a), nullptr); addConstraint(pc, mkNot(e->a->b), nullptr); return; }
    for (Expr* x : pc.cons) if (x == e) return;
    pc.cons.push_back(e);
    if (isUnary(e)) {
        uint32_t s = (*e->syms)[0]; pc.ensure(s);
        TruthTable* t = truthTable(e);
        int cnt = 0;
        if (pc.flags[s] & 1) for (int i = 0; i < 4; i++) pc.dom[s].b[i] &= t->b[i]; else pc.dom[s] = *t;
        unsigned n = 1u << gSyms[s].w; if (n < 64) pc.dom[s].b[0] &= (1ull << n) - 1;
        for (int i = 0; i < 4; i++) cnt += __builtin_popcountll(pc.dom[s].b[i]);
        pc.flags[s] |= 1; if (cnt == 1) pc.flags[s] |= 4;
    } else {
        for (uint32_t s : *e->syms) { pc.ensure(s); pc.flags[s] |= 2; }
        if (e->op == O_EQ && e->a->op == O_SYM && isC(e->b)) { pc.flags[e->a->c] |= 4; }
    }
}
