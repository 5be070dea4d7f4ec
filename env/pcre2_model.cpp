// Model of the part of libpcre2-8 that libstuff uses: a backtracking matcher over the pattern's AST. Bitcode only; the native
// replay links the real library, so every replayed witness cross-checks this model.
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
using std::string; using std::vector;
namespace {
enum K { SET, CAT, ALT, REP, GRP, BOL, EOL_, EMPTY };
struct Node { K k; unsigned char set[256]; vector<int> kids; int lo = 0, hi = 0, cap = 0; bool lazy = false; };
struct Re { vector<Node> n; int root = 0, ncap = 1; uint32_t flags = 0; };
struct P {
    Re& r; const char* p; bool ok = true, ci; int depth = 0;
    int mk(K k) { r.n.emplace_back(); r.n.back().k = k; memset(r.n.back().set, 0, 256); return (int)r.n.size() - 1; }
    void cls(unsigned char* s, char c) {
        bool neg = c == 'D' || c == 'W' || c == 'S'; char l = c | 32;
        for (int i = 0; i < 256; i++) { bool in = l == 'd' ? i >= '0' && i <= '9' : l == 'w' ? (i >= '0' && i <= '9') || (i >= 'a' && i <= 'z') || (i >= 'A' && i <= 'Z') || i == '_' : i == ' ' || (i >= 9 && i <= 13); if (in != neg) s[i] = 1; }
    }
    void fold(unsigned char* s) { if (ci) for (int i = 'a'; i <= 'z'; i++) { if (s[i] || s[i - 32]) s[i] = s[i - 32] = 1; } }
    static int esc(char c) { switch (c) { case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case 'f': return '\f'; case 'e': return 27; } return (unsigned char)c; }
    int alt() {
        vector<int> a; a.push_back(cat()); while (*p == '|') { p++; a.push_back(cat()); }
        if (a.size() == 1) return a[0]; int n = mk(ALT); r.n[n].kids = a; return n;
    }
    int cat() {
        vector<int> a; while (*p && *p != '|' && *p != ')') { int x = rep(); if (!ok) return 0; a.push_back(x); }
        int n = mk(CAT); r.n[n].kids = a; return n;
    }
    int rep() {
        int x = atom(); if (!ok) return 0;
        for (;;) {
            int lo, hi;
            if (*p == '*') { lo = 0; hi = -1; p++; } else if (*p == '+') { lo = 1; hi = -1; p++; } else if (*p == '?') { lo = 0; hi = 1; p++; }
            else if (*p == '{' && p[1] >= '0' && p[1] <= '9') { p++; lo = 0; while (*p >= '0' && *p <= '9') lo = lo * 10 + *p++ - '0'; hi = lo; if (*p == ',') { p++; hi = -1; if (*p >= '0' && *p <= '9') { hi = 0; while (*p >= '0' && *p <= '9') hi = hi * 10 + *p++ - '0'; } } if (*p != '}') { ok = false; return 0; } p++; }
            else return x;
            bool lazy = false; if (*p == '?') { lazy = true; p++; } else if (*p == '+') { ok = false; return 0; }
            int n = mk(REP); r.n[n].kids = {x}; r.n[n].lo = lo; r.n[n].hi = hi; r.n[n].lazy = lazy; x = n;
        }
    }
    int atom() {
        char c = *p++;
        if (c == '(') { int cap = 0; if (*p == '?') { if (p[1] == ':') p += 2; else { ok = false; return 0; } } else cap = r.ncap++; int x = alt(); if (*p != ')') { ok = false; return 0; } p++; if (!cap) return x; int n = mk(GRP); r.n[n].kids = {x}; r.n[n].cap = cap; return n; }
        if (c == '^') return mk(BOL); if (c == '$') return mk(EOL_);
        int n = mk(SET); unsigned char* s = r.n[n].set;
        if (c == '.') { for (int i = 0; i < 256; i++) s[i] = i != '\n'; return n; }
        if (c == '\\') { char e = *p++; if (!e) { ok = false; return 0; } if (strchr("dDwWsS", e)) cls(s, e); else if ((e >= 'a' && e <= 'z' && !strchr("nrtfe", e)) || (e >= 'A' && e <= 'Z') || (e >= '0' && e <= '9')) { ok = false; return 0; } else s[esc(e)] = 1; fold(s); return n; }
        if (c == '[') {
            bool neg = false; if (*p == '^') { neg = true; p++; } bool first = true;
            while (*p && (*p != ']' || first)) {
                first = false; int a;
                if (*p == '\\') { char e = p[1]; p += 2; if (strchr("dDwWsS", e)) { cls(s, e); continue; } a = esc(e); } else if (*p == '[' && p[1] == ':') { ok = false; return 0; } else a = (unsigned char)*p++;
                int b = a; if (*p == '-' && p[1] && p[1] != ']') { p++; if (*p == '\\') { b = esc(p[1]); p += 2; } else b = (unsigned char)*p++; }
                for (int i = a; i <= b; i++) s[i] = 1;
            }
            if (*p != ']') { ok = false; return 0; } p++; fold(s); if (neg) for (int i = 0; i < 256; i++) s[i] = !s[i]; return n;
        }
        if (c == '*' || c == '+' || c == '?') { ok = false; return 0; }
        s[(unsigned char)c] = 1; fold(s); return n;
    }
};
struct Cont { virtual bool go(size_t i) = 0; };
struct M {
    const Re& r; const unsigned char* s; size_t n; vector<PCRE2_SIZE> cap;
    bool m(int id, size_t i, Cont& k) {
        const Node& x = r.n[id];
        switch (x.k) {
            case EMPTY: return k.go(i);
            case SET: if (i >= n) return false; return x.set[s[i]] ? k.go(i + 1) : false;
            case BOL: return i == 0 ? k.go(i) : false;
            case EOL_: if (i == n) return k.go(i); if (i + 1 == n && s[i] == '\n') return k.go(i); return false;
            case CAT: return catAt(x, 0, i, k);
            case ALT: for (int c : x.kids) if (m(c, i, k)) return true; return false;
            case GRP: { struct C : Cont { M& m; int g; size_t st; Cont& k; C(M& m, int g, size_t st, Cont& k) : m(m), g(g), st(st), k(k) {} bool go(size_t e) override { auto a = m.cap[2 * g], b = m.cap[2 * g + 1]; m.cap[2 * g] = st; m.cap[2 * g + 1] = e; if (k.go(e)) return true; m.cap[2 * g] = a; m.cap[2 * g + 1] = b; return false; } } c(*this, x.cap, i, k); return m(x.kids[0], i, c); }
            case REP: return repAt(x, 0, i, k, (size_t)-1);
        }
        return false;
    }
    bool catAt(const Node& x, size_t j, size_t i, Cont& k) {
        if (j == x.kids.size()) return k.go(i);
        struct C : Cont { M& m; const Node& x; size_t j; Cont& k; C(M& m, const Node& x, size_t j, Cont& k) : m(m), x(x), j(j), k(k) {} bool go(size_t e) override { return m.catAt(x, j, e, k); } } c(*this, x, j + 1, k);
        return m(x.kids[j], i, c);
    }
    bool repAt(const Node& x, int cnt, size_t i, Cont& k, size_t last) {
        struct C : Cont { M& m; const Node& x; int cnt; size_t st; Cont& k; C(M& m, const Node& x, int cnt, size_t st, Cont& k) : m(m), x(x), cnt(cnt), st(st), k(k) {} bool go(size_t e) override { if (e == st && cnt > x.lo) return false; return m.repAt(x, cnt, e, k, st); } } c(*this, x, cnt + 1, i, k);
        bool can = x.hi < 0 || cnt < x.hi;
        if (cnt < x.lo) return m(x.kids[0], i, c);
        if (x.lazy) { if (k.go(i)) return true; return can && m(x.kids[0], i, c); }
        if (can && m(x.kids[0], i, c)) return true; return k.go(i);
    }
};
struct End : Cont { M& m; bool full; size_t e = 0; End(M& m, bool f) : m(m), full(f) {} bool go(size_t i) override { if (full && i != m.n) return false; e = i; return true; } };
bool run(const Re& r, const unsigned char* s, size_t n, size_t from, vector<PCRE2_SIZE>& cap) {
    bool anch = r.flags & PCRE2_ANCHORED;
    for (size_t st = from; st <= n; st++) {
        M m{r, s, n, vector<PCRE2_SIZE>(2 * r.ncap, PCRE2_UNSET)}; End e(m, r.flags & PCRE2_ENDANCHORED);
        if (m.m(r.root, st, e)) { m.cap[0] = st; m.cap[1] = e.e; cap = m.cap; return true; }
        if (anch) break;
    }
    return false;
}
struct MD { vector<PCRE2_SIZE> ov; uint32_t count; };
}
extern "C" {
pcre2_code_8* pcre2_compile_8(PCRE2_SPTR8 pat, PCRE2_SIZE len, uint32_t flags, int* err, PCRE2_SIZE* off, pcre2_compile_context_8*) {
    Re* r = new Re; r->flags = flags; string s = len == PCRE2_ZERO_TERMINATED ? string((const char*)pat) : string((const char*)pat, len); P p{*r, s.c_str()}; p.ci = flags & PCRE2_CASELESS; r->root = p.alt(); if (*p.p) p.ok = false;
    if (!p.ok) { *err = 100; *off = 0; delete r; return nullptr; } return (pcre2_code_8*)r;
}
void pcre2_code_free_8(pcre2_code_8* c) { delete (Re*)c; }
pcre2_match_context_8* pcre2_match_context_create_8(pcre2_general_context_8*) { return (pcre2_match_context_8*)malloc(4); }
void pcre2_match_context_free_8(pcre2_match_context_8* c) { free(c); }
int pcre2_set_depth_limit_8(pcre2_match_context_8*, uint32_t) { return 0; }
pcre2_match_data_8* pcre2_match_data_create_from_pattern_8(const pcre2_code_8* c, pcre2_general_context_8*) { MD* m = new MD; m->count = ((Re*)c)->ncap; m->ov.assign(2 * m->count, PCRE2_UNSET); return (pcre2_match_data_8*)m; }
void pcre2_match_data_free_8(pcre2_match_data_8* m) { delete (MD*)m; }
PCRE2_SIZE* pcre2_get_ovector_pointer_8(pcre2_match_data_8* m) { return &((MD*)m)->ov[0]; }
uint32_t pcre2_get_ovector_count_8(pcre2_match_data_8* m) { return ((MD*)m)->count; }
int pcre2_match_8(const pcre2_code_8* c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE from, uint32_t, pcre2_match_data_8* md, pcre2_match_context_8*) {
    MD* m = (MD*)md; vector<PCRE2_SIZE> cap; if (!run(*(Re*)c, s, n, from, cap)) return PCRE2_ERROR_NOMATCH;
    m->ov = cap; int top = 0; for (size_t i = 0; i < cap.size() / 2; i++) if (cap[2 * i] != PCRE2_UNSET) top = (int)i + 1; return top;
}
int pcre2_substitute_8(const pcre2_code_8* c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE, uint32_t, pcre2_match_data_8*, pcre2_match_context_8*, PCRE2_SPTR8 rep, PCRE2_SIZE rn, PCRE2_UCHAR8* out, PCRE2_SIZE* outn) {
    string o; size_t pos = 0, from = 0; int cnt = 0; vector<PCRE2_SIZE> cap;
    while (from <= n && run(*(Re*)c, s, n, from, cap)) {
        cnt++; o.append((const char*)s + pos, cap[0] - pos);
        for (size_t i = 0; i < rn; i++) { if (rep[i] == '$' && i + 1 < rn && rep[i + 1] >= '0' && rep[i + 1] <= '9') { size_t g = rep[++i] - '0'; if (2 * g + 1 < cap.size() && cap[2 * g] != PCRE2_UNSET) o.append((const char*)s + cap[2 * g], cap[2 * g + 1] - cap[2 * g]); } else if (rep[i] == '\\' && i + 1 < rn) o += (char)rep[++i]; else o += (char)rep[i]; }
        pos = cap[1]; from = cap[1]; if (cap[0] == cap[1]) { if (from < n) o += (char)s[from]; pos = ++from; }
    }
    if (pos < n) o.append((const char*)s + pos, n - pos);
    if (!out || *outn < o.size() + 1) { *outn = o.size() + 1; return PCRE2_ERROR_NOMEMORY; }
    memcpy(out, o.c_str(), o.size() + 1); *outn = o.size(); return cnt;
}
}
