#include "expr.h"
std::vector<SymInfo> gSyms;
uint64_t gExprCount = 0;
static std::unordered_map<std::string, uint32_t> symByName;
static SymSet emptySet;
static uint32_t gEpoch = 0;

// ---- hash consing ----
static std::vector<Expr*> table(1 << 16, nullptr);
static size_t tableCount = 0;
static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
static inline uint64_t hashOf(uint8_t op, uint8_t w, uint64_t c, Expr* a, Expr* b, Expr* d) {
    uint64_t h = mix(op * 131 + w * 7919 + c * 0x9E3779B97F4A7C15ULL);
    if (a) h = mix(h ^ (a->id + 0x1000));
    if (b) h = mix(h ^ ((uint64_t)b->id << 20));
    if (d) h = mix(h ^ ((uint64_t)d->id << 40));
    return h;
}
static char* arena = nullptr; static size_t arenaLeft = 0;
static Expr* allocExpr() {
    if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 16384; arena = (char*)malloc(arenaLeft); }
    Expr* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
}
// ---- symbol sets ----
struct PairHash { size_t operator()(const std::pair<const SymSet*, const SymSet*>& p) const { return mix((uint64_t)p.first ^ mix((uint64_t)p.second)); } };
static std::unordered_map<std::pair<const SymSet*, const SymSet*>, const SymSet*, PairHash> unionCache;
struct SetHash { size_t operator()(const SymSet* s) const { uint64_t h = 1; for (auto x : *s) h = mix(h ^ x); return h; } };
struct SetEq { bool operator()(const SymSet* a, const SymSet* b) const { return *a == *b; } };
static std::unordered_map<const SymSet*, const SymSet*, SetHash, SetEq> setIntern;
static const SymSet* internSet(SymSet&& s) {
    auto it = setIntern.find(&s); if (it != setIntern.end()) return it->second;
    auto* n = new SymSet(std::move(s)); setIntern[n] = n; return n;
}
const SymSet* symUnion(const SymSet* a, const SymSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    auto key = std::make_pair(a, b);
    auto it = unionCache.find(key); if (it != unionCache.end()) return it->second;
    SymSet s; s.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(s));
    const SymSet* r = internSet(std::move(s));
    unionCache[key] = r; return r;
}
static Expr* intern(uint8_t op, uint8_t w, uint64_t c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
    uint64_t h = hashOf(op, w, c, a, b, d);
    size_t m = table.size() - 1, i = h & m;
    while (Expr* e = table[i]) {
        if (e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
        i = (i + 1) & m;
    }
    Expr* e = allocExpr();
    e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = ++gExprCount; e->epoch = 0; e->z = nullptr; e->tt = nullptr; e->rangeDone = 0;
    if (op == O_CONST) e->syms = &emptySet;
    else if (op == O_SYM) e->syms = internSet(SymSet{(uint32_t)c});
    else { const SymSet* s = a->syms; if (b) s = symUnion(s, b->syms); if (d) s = symUnion(s, d->syms); e->syms = s; }
    table[i] = e;
    if (++tableCount * 2 > table.size()) {
        std::vector<Expr*> nt(table.size() * 2, nullptr); size_t nm = nt.size() - 1;
        for (Expr* x : table) if (x) { size_t j = hashOf(x->op, x->w, x->c, x->a, x->b, x->d) & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
        table.swap(nt);
    }
    return e;
}
Expr* mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w)); }
Expr* mkSym(const std::string& name, unsigned w) {
    auto it = symByName.find(name);
    if (it != symByName.end()) { if (gSyms[it->second].w != w) { fprintf(stderr, "symbol width clash %s\n", name.c_str()); abort(); } return gSyms[it->second].e; }
    uint32_t idx = gSyms.size(); symByName[name] = idx;
    Expr* e = intern(O_SYM, w, idx);
    gSyms.push_back({name, w, e}); return e;
}
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w);
    switch (op) {
        case O_ADD: return (a + b) & m;
        case O_SUB: return (a - b) & m;
        case O_MUL: return (a * b) & m;
        case O_UDIV: return b ? (a / b) & m : m;
        case O_UREM: return b ? (a % b) & m : a;
        case O_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
        case O_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case O_AND: return a & b;
        case O_OR: return a | b;
        case O_XOR: return a ^ b;
        case O_SHL: return b >= w ? 0 : (a << b) & m;
        case O_LSHR: return b >= w ? 0 : (a >> b);
        case O_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
        case O_EQ: return a == b;
        case O_ULT: return a < b;
        case O_ULE: return a <= b;
        case O_SLT: return sextw(a, w) < sextw(b, w);
        case O_SLE: return sextw(a, w) <= sextw(b, w);
        default: abort();
    }
}
void exprRange(Expr* e, uint64_t& lo, uint64_t& hi) {
    if (e->rangeDone) { lo = e->lo; hi = e->hi; return; }
    uint64_t m = maskw(e->w), l1, h1, l2, h2;
    lo = 0; hi = m;
    switch (e->op) {
        case O_CONST: lo = hi = e->c; break;
        case O_ZEXT: exprRange(e->a, lo, hi); break;
        case O_AND: exprRange(e->a, l1, h1); exprRange(e->b, l2, h2); hi = std::min(h1, h2); break;
        case O_UREM: exprRange(e->a, l1, h1); exprRange(e->b, l2, h2); if (l2 > 0) hi = std::min(h1, h2 - 1); break;
        case O_UDIV: exprRange(e->a, l1, h1); exprRange(e->b, l2, h2); if (l2 > 0) { hi = h1 / l2; lo = l1 / h2; } break;
        case O_ITE: exprRange(e->b, l1, h1); exprRange(e->d, l2, h2); lo = std::min(l1, l2); hi = std::max(h1, h2); break;
        case O_ADD: exprRange(e->a, l1, h1); exprRange(e->b, l2, h2); if (h1 <= m - h2) { lo = l1 + l2; hi = h1 + h2; }
            else if (l1 > m - l2) { lo = (l1 + l2) & m; hi = (h1 + h2) & m; } break;
        case O_MUL: exprRange(e->a, l1, h1); exprRange(e->b, l2, h2); if (h1 == 0 || h2 <= m / h1) { lo = l1 * l2; hi = h1 * h2; } break;
        case O_SUB: exprRange(e->a, l1, h1); exprRange(e->b, l2, h2); if (l1 >= h2) { lo = l1 - h2; hi = h1 - l2; } break;
        case O_CONCAT: { exprRange(e->a, l1, h1); exprRange(e->b, l2, h2); lo = (l1 << e->b->w) | l2; hi = (h1 << e->b->w) | h2; break; }
        case O_EXTRACT: if (e->c == 0) { exprRange(e->a, l1, h1); if (h1 <= m) { lo = l1; hi = h1; } } else { exprRange(e->a, l1, h1); if (e->c + e->w == e->a->w) { lo = l1 >> e->c; hi = h1 >> e->c; } } break;
        case O_LSHR: exprRange(e->a, l1, h1); hi = h1; break;
        default: break;
    }
    e->lo = lo; e->hi = hi; e->rangeDone = 1;
}
Expr* mkNot(Expr* a) {
    if (isC(a)) return mkConst(!a->c, 1);
    switch (a->op) {
        case O_NOT: return a->a;
        case O_ULT: return mkBin(O_ULE, a->b, a->a);
        case O_ULE: return mkBin(O_ULT, a->b, a->a);
        case O_SLT: return mkBin(O_SLE, a->b, a->a);
        case O_SLE: return mkBin(O_SLT, a->b, a->a);
        default: return intern(O_NOT, 1, 0, a);
    }
}
static inline bool isLowMask(uint64_t c, unsigned& n) { if (c == 0 || (c & (c + 1))) return false; n = __builtin_popcountll(c); return true; }
// Split the value into a known-zero prefix/suffix; used to merge OR into CONCAT.
static unsigned zeroLow(Expr* e) { if (isC(e)) return e->c ? __builtin_ctzll(e->c) : e->w; if (e->op == O_CONCAT) { unsigned z = zeroLow(e->b); return z == e->b->w ? z + zeroLow(e->a) : z; } if (e->op == O_ZEXT) { unsigned z = zeroLow(e->a); return z == e->a->w ? e->w : z; } return 0; }
static unsigned zeroHigh(Expr* e) { uint64_t lo, hi; exprRange(e, lo, hi); return hi ? e->w - (64 - __builtin_clzll(hi)) : e->w; }

Expr* mkBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
    bool cmp = op >= O_EQ && op <= O_SLE;
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), cmp ? 1 : w);
    uint64_t m = maskw(w);
    switch (op) {
        case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
            if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
            break;
        default: break;
    }
    switch (op) {
        case O_ADD:
            if (isC(b)) {
                if (!b->c) return a;
                if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->c + b->c, w));
                if (w == 1) return mkNot(a);
                if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, mkConst(a->a->c + b->c, w), a->b);
                if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
            } else {
                if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
                if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
                if (a->op == O_SUB && isC(a->a)) return mkBin(O_ADD, mkBin(O_SUB, b, a->b), a->a);
                if (b->op == O_SUB && isC(b->a)) return mkBin(O_ADD, mkBin(O_SUB, a, b->b), b->a);
                if (a->op == O_SUB && a->b == b) return a->a;
                if (b->op == O_SUB && b->b == a) return b->a;
                // x % c + (x / c) * c is x
                auto recombine = [](Expr* r, Expr* m) -> Expr* { if (r->op != O_UREM || m->op != O_MUL || !isC(r->b) || !r->b->c) return nullptr; Expr* d = isC(m->b) ? m->a : isC(m->a) ? m->b : nullptr; Expr* k = isC(m->b) ? m->b : m->a; return d && d->op == O_UDIV && d->a == r->a && d->b == r->b && k == r->b ? r->a : nullptr; };
                if (Expr* r = recombine(a, b)) return r;
                if (Expr* r = recombine(b, a)) return r;
            }
            break;
        case O_SUB:
            if (a == b) return mkConst(0, w);
            if (isC(b)) return mkBin(O_ADD, a, mkConst(0 - b->c, w));
            if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b), a->b);
            if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a, b->a), mkConst(0 - b->b->c, w));
            if (isC(a) && b->op == O_SUB && isC(b->a)) return mkBin(O_ADD, b->b, mkConst(a->c - b->a->c, w));
            if (!isC(a) && b->op == O_SUB && isC(b->a)) return mkBin(O_ADD, mkBin(O_ADD, a, b->b), mkConst(0 - b->a->c, w));
            if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, a->a, mkBin(O_ADD, a->b, b));
            if (a->op == O_ADD && a->a == b) return a->b;
            if (a->op == O_ADD && a->b == b) return a->a;
            break;
        case O_MUL:
            if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a; if (!(b->c & (b->c - 1))) return mkBin(O_SHL, a, mkConst(__builtin_ctzll(b->c), w)); }
            break;
        case O_UDIV:
            if (isC(b)) { if (b->c == 1) return a; if (b->c && !(b->c & (b->c - 1))) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(b->c), w)); uint64_t lo, hi; exprRange(a, lo, hi); if (b->c && lo / b->c == hi / b->c) return mkConst(lo / b->c, w);
                if (a->op == O_MUL && isC(a->b) && b->c && a->b->c % b->c == 0) { exprRange(a->a, lo, hi); if (hi == 0 || a->b->c <= m / hi) return mkBin(O_MUL, a->a, mkConst(a->b->c / b->c, w)); } }
            break;
        case O_UREM:
            if (isC(b)) { if (b->c == 1) return mkConst(0, w); if (b->c && !(b->c & (b->c - 1))) return mkBin(O_AND, a, mkConst(b->c - 1, w)); uint64_t lo, hi; exprRange(a, lo, hi); if (b->c && lo / b->c == hi / b->c) return mkBin(O_SUB, a, mkConst(lo / b->c * b->c, w));
                if (a->op == O_MUL && isC(a->b) && b->c && a->b->c % b->c == 0) { exprRange(a->a, lo, hi); if (hi == 0 || a->b->c <= m / hi) return mkConst(0, w); } }
            break;
        case O_SDIV: case O_SREM: {
            uint64_t l1, h1, l2, h2; exprRange(a, l1, h1); exprRange(b, l2, h2);
            uint64_t half = m >> 1;
            if (h1 <= half && h2 <= half) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
            break;
        }
        case O_AND:
            if (a == b) return a;
            if (isC(b)) {
                if (!b->c) return b; if (b->c == m) return a;
                unsigned n;
                if (isLowMask(b->c, n) && n < w) return mkExt(O_ZEXT, mkExtract(a, 0, n), w);
                if (a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->c & b->c, w));
                if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
                if (a->op == O_ZEXT) return mkExt(O_ZEXT, mkBin(O_AND, a->a, mkConst(b->c, a->a->w)), w);
            }
            if (w == 1) { if (mkNot(a) == b) return mkConst(0, 1); if (a->op == O_AND && (a->a == b || a->b == b)) return a; if (b->op == O_AND && (b->a == a || b->b == a)) return b; }
            break;
        case O_OR:
            if (a == b) return a;
            if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; }
            if (w == 1) { if (mkNot(a) == b) return mkConst(1, 1); break; }
            {
                unsigned zl = zeroLow(a), zh = zeroHigh(b);
                if (zl + zh >= w && zl > 0 && zl < w && w - zh <= zl) return mkConcat(mkExtract(a, zl, w - zl), mkExtract(b, 0, zl));
                zl = zeroLow(b); zh = zeroHigh(a);
                if (zl + zh >= w && zl > 0 && zl < w) return mkConcat(mkExtract(b, zl, w - zl), mkExtract(a, 0, zl));
            }
            break;
        case O_XOR:
            if (a == b) return mkConst(0, w);
            if (isC(b)) { if (!b->c) return a; if (w == 1) return mkNot(a); if (a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(a->b->c ^ b->c, w)); }
            if (w == 1) return mkNot(mkBin(O_EQ, a, b));
            break;
        case O_SHL:
            if (isC(b)) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c)); }
            if (isC(a) && !a->c) return a;
            break;
        case O_LSHR:
            if (isC(b)) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); return mkExt(O_ZEXT, mkExtract(a, b->c, w - b->c), w); }
            if (isC(a) && !a->c) return a;
            break;
        case O_ASHR:
            if (isC(b)) { if (!b->c) return a; uint64_t s = b->c >= w ? w - 1 : b->c; return mkExt(O_SEXT, mkExtract(a, s, w - s), w); }
            break;
        case O_EQ:
            if (a == b) return mkConst(1, 1);
            if (isC(b)) {
                if (w == 1) return b->c ? a : mkNot(a);
                uint64_t lo, hi; exprRange(a, lo, hi);
                if (b->c < lo || b->c > hi) return mkConst(0, 1);
                switch (a->op) {
                    case O_ZEXT: return mkBin(O_EQ, a->a, mkConst(b->c, a->a->w));
                    case O_SEXT: { uint64_t t = b->c & maskw(a->a->w); if (((uint64_t)sextw(t, a->a->w) & m) != b->c) return mkConst(0, 1); return mkBin(O_EQ, a->a, mkConst(t, a->a->w)); }
                    case O_CONCAT: return mkBin(O_AND, mkBin(O_EQ, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(O_EQ, a->b, mkConst(b->c, a->b->w)));
                    case O_ADD: if (isC(a->b)) return mkBin(O_EQ, a->a, mkConst(b->c - a->b->c, w)); break;
                    case O_SUB: if (b->c == 0) return mkBin(O_EQ, a->a, a->b); if (isC(a->a)) return mkBin(O_EQ, a->b, mkConst(a->a->c - b->c, w)); break;
                    case O_XOR: if (isC(a->b)) return mkBin(O_EQ, a->a, mkConst(b->c ^ a->b->c, w)); if (!b->c) return mkBin(O_EQ, a->a, a->b); break;
                    case O_ITE:
                        if (isC(a->b) || isC(a->d) || a->b->op == O_ITE || a->d->op == O_ITE) return mkIte(a->a, mkBin(O_EQ, a->b, b), mkBin(O_EQ, a->d, b));
                        break;
                    case O_OR: if (!b->c) return mkBin(O_AND, mkBin(O_EQ, a->a, b), mkBin(O_EQ, a->b, b)); break;
                    default: break;
                }
            } else {
                if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a);
                if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a);
                if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkBin(O_AND, mkBin(O_EQ, a->a, b->a), mkBin(O_EQ, a->b, b->b));
                if (a->op == O_ADD && a->a == b && isC(a->b)) return mkConst(0, 1);
                if (b->op == O_ADD && b->a == a && isC(b->b)) return mkConst(0, 1);
                if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && a->b == b->b) return mkBin(O_EQ, a->a, b->a);
            }
            break;
        case O_ULT: case O_ULE: {
            if (a == b) return mkConst(op == O_ULE, 1);
            uint64_t l1, h1, l2, h2; exprRange(a, l1, h1); exprRange(b, l2, h2);
            if (op == O_ULT) { if (h1 < l2) return mkConst(1, 1); if (l1 >= h2) return mkConst(0, 1); }
            else { if (h1 <= l2) return mkConst(1, 1); if (l1 > h2) return mkConst(0, 1); }
            if (op == O_ULT && isC(b) && b->c == 1) return mkBin(O_EQ, a, mkConst(0, w));
            if (op == O_ULE && isC(b) && b->c == 0) return mkBin(O_EQ, a, mkConst(0, w));
            if (op == O_ULT && isC(a) && a->c == m - 1) return mkBin(O_EQ, b, mkConst(m, w));
            if (op == O_ULE && isC(a) && a->c == m) return mkBin(O_EQ, b, a);
            if (op == O_ULT && isC(a) && a->c == 0) return mkNot(mkBin(O_EQ, b, a));
            if (w == 1) return op == O_ULT ? mkBin(O_AND, mkNot(a), b) : mkBin(O_OR, mkNot(a), b);
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
            if (a->op == O_ZEXT && isC(b) && b->c <= maskw(a->a->w)) return mkBin(op, a->a, mkConst(b->c, a->a->w));
            if (b->op == O_ZEXT && isC(a) && a->c <= maskw(b->a->w)) return mkBin(op, mkConst(a->c, b->a->w), b->a);
            if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
            if (a->op == O_ITE && isC(b) && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
            if (b->op == O_ITE && isC(a) && isC(b->b) && isC(b->d)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
            break;
        }
        case O_SLT: case O_SLE: {
            if (a == b) return mkConst(op == O_SLE, 1);
            uint64_t half = m >> 1, l1, h1, l2, h2; exprRange(a, l1, h1); exprRange(b, l2, h2);
            if (h1 <= half && h2 <= half) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
            if (l1 > half && l2 > half) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
            if (l1 > half && h2 <= half) return mkConst(1, 1);
            if (h1 <= half && l2 > half) return mkConst(0, 1);
            if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
            if (a->op == O_SEXT && isC(b)) { int64_t v = sextw(b->c, w); unsigned n = a->a->w; int64_t mx = (int64_t)(maskw(n) >> 1), mn = -mx - 1;
                if (v > mx) return mkConst(1, 1); if (v < mn) return mkConst(0, 1); return mkBin(op, a->a, mkConst(b->c, n)); }
            if (b->op == O_SEXT && isC(a)) { int64_t v = sextw(a->c, w); unsigned n = b->a->w; int64_t mx = (int64_t)(maskw(n) >> 1), mn = -mx - 1;
                if (v > mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1); return mkBin(op, mkConst(a->c, n), b->a); }
            if (a->op == O_ITE && isC(b) && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
            break;
        }
        default: break;
    }
    return intern(op, cmp ? 1 : w, 0, a, b);
}
Expr* mkExt(Op op, Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(op == O_ZEXT ? a->c : (uint64_t)sextw(a->c, a->w), w);
    if (op == O_ZEXT && a->op == O_ZEXT) return mkExt(O_ZEXT, a->a, w);
    if (op == O_SEXT && a->op == O_SEXT) return mkExt(O_SEXT, a->a, w);
    if (op == O_SEXT && a->op == O_ZEXT) return mkExt(O_ZEXT, a->a, w);
    if (op == O_SEXT) { uint64_t lo, hi; exprRange(a, lo, hi); if (hi <= maskw(a->w) >> 1) return mkExt(O_ZEXT, a, w); }
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkExt(op, a->b, w), mkExt(op, a->d, w));
    return intern(op, w, 0, a);
}
Expr* mkExtract(Expr* a, unsigned lsb, unsigned w) {
    if (lsb == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->c >> lsb, w);
    switch (a->op) {
        case O_EXTRACT: return mkExtract(a->a, a->c + lsb, w);
        case O_ZEXT:
            if (lsb >= a->a->w) return mkConst(0, w);
            if (lsb + w <= a->a->w) return mkExtract(a->a, lsb, w);
            return mkExt(O_ZEXT, mkExtract(a->a, lsb, a->a->w - lsb), w);
        case O_SEXT:
            if (lsb + w <= a->a->w) return mkExtract(a->a, lsb, w);
            if (lsb < a->a->w) return mkExt(O_SEXT, mkExtract(a->a, lsb, a->a->w - lsb), w);
            break;
        case O_CONCAT: {
            unsigned lw = a->b->w;
            if (lsb >= lw) return mkExtract(a->a, lsb - lw, w);
            if (lsb + w <= lw) return mkExtract(a->b, lsb, w);
            return mkConcat(mkExtract(a->a, 0, lsb + w - lw), mkExtract(a->b, lsb, lw - lsb));
        }
        case O_AND: case O_OR: case O_XOR: return mkBin((Op)a->op, mkExtract(a->a, lsb, w), mkExtract(a->b, lsb, w));
        case O_ADD: case O_SUB: case O_MUL: if (lsb == 0) return mkBin((Op)a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
        case O_ITE: if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lsb, w), mkExtract(a->d, lsb, w)); break;
        default: break;
    }
    return intern(O_EXTRACT, w, lsb, a);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return mkExt(O_ZEXT, lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
    if (hi->op == O_EXTRACT && hi->a->op == O_ADD && hi->c == lo->w && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
    if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w) return mkConcat(mkExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
    if (lo->op == O_EXTRACT && hi->op == O_CONCAT && hi->b->op == O_EXTRACT && hi->b->a == lo->a && hi->b->c == lo->c + lo->w) return mkConcat(hi->a, mkExtract(lo->a, lo->c, hi->b->w + lo->w));
    if (isC(lo) && hi->op == O_CONCAT && isC(hi->b)) return mkConcat(hi->a, mkConst((hi->b->c << lo->w) | lo->c, hi->b->w + lo->w));
    // concat(sext bits..., x) produced by splitting a sign extension: concat(extract(sext(x),k),..) handled by extract rules.
    return intern(O_CONCAT, w, 0, hi, lo);
}
Expr* mkIte(Expr* c, Expr* t, Expr* f) {
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (c->op == O_NOT) return mkIte(c->a, f, t);
    if (t->w == 1) {
        if (isC(t)) return t->c ? mkBin(O_OR, c, f) : mkBin(O_AND, mkNot(c), f);
        if (isC(f)) return f->c ? mkBin(O_OR, mkNot(c), t) : mkBin(O_AND, c, t);
    }
    if (t->op == O_ITE && t->a == c) t = t->b;
    if (f->op == O_ITE && f->a == c) f = f->d;
    if (t == f) return t;
    return intern(O_ITE, t->w, 0, c, t, f);
}
static uint64_t ev(Expr* e, const Model* m, uint64_t uval) {
    if (e->op == O_CONST) return e->c;
    if (e->epoch == gEpoch) return e->ev;
    uint64_t r;
    switch (e->op) {
        case O_SYM: r = m ? m->get(e->c) & maskw(e->w) : uval; break;
        case O_NOT: r = !ev(e->a, m, uval); break;
        case O_ZEXT: r = ev(e->a, m, uval); break;
        case O_SEXT: r = (uint64_t)sextw(ev(e->a, m, uval), e->a->w) & maskw(e->w); break;
        case O_EXTRACT: r = (ev(e->a, m, uval) >> e->c) & maskw(e->w); break;
        case O_CONCAT: r = (ev(e->a, m, uval) << e->b->w) | ev(e->b, m, uval); break;
        case O_ITE: r = ev(e->a, m, uval) ? ev(e->b, m, uval) : ev(e->d, m, uval); break;
        default: r = foldBin((Op)e->op, ev(e->a, m, uval), ev(e->b, m, uval), e->a->w);
    }
    e->epoch = gEpoch; e->ev = r; return r;
}
uint64_t evalExpr(Expr* e, const Model& m) { ++gEpoch; return ev(e, &m, 0); }
uint64_t evalUnary(Expr* e, uint64_t val) { ++gEpoch; return ev(e, nullptr, val); }
std::string exprStr(Expr* e, int depth) {
    static const char* names[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "zext", "sext", "extract", "concat", "ite"};
    if (e->op == O_CONST) return std::to_string(e->c);
    if (e->op == O_SYM) return gSyms[e->c].name;
    if (!depth) return "...";
    std::string s = std::string("(") + names[e->op];
    if (e->op == O_EXTRACT) s += "[" + std::to_string(e->c) + "," + std::to_string(e->w) + "]";
    if (e->op == O_ZEXT || e->op == O_SEXT) s += std::to_string(e->w);
    if (e->a) s += " " + exprStr(e->a, depth - 1);
    if (e->b) s += " " + exprStr(e->b, depth - 1);
    if (e->d) s += " " + exprStr(e->d, depth - 1);
    return s + ")";
}
