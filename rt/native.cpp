#include <csignal>
// Native side of the harness API: replays one recorded counterexample against the real, natively compiled code.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
struct Rec { std::string name, hex; };
static std::vector<Rec> recs; static size_t pos = 0; static bool loaded = false;
static void ld() { if (loaded) return; loaded = true; const char* f = getenv("VP_REPLAY"); if (!f) return; FILE* fp = fopen(f, "r"); if (!fp) return; char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, fp)) > 0) { std::string l(line, n); if (l[0] == '#') continue; while (l.size() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); size_t t = l.find('\t'); if (t == std::string::npos) continue; recs.push_back({l.substr(0, t), l.substr(t + 1)}); } fclose(fp); }
static std::string next(const char* name) { ld(); if (pos < recs.size()) { std::string b = recs[pos].name; size_t h = b.find('#'); if (h != std::string::npos) b = b.substr(0, h); if (b != name) { fprintf(stderr, "VP-DIVERGED expected %s got %s\n", b.c_str(), name); _exit(79); } return recs[pos++].hex; } return ""; }
static unsigned hx(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
extern "C" {
void vp_sym(void* p, size_t n, const char* name) { std::string h = next(name); for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = 2 * i + 1 < h.size() ? hx(h[2 * i]) * 16 + hx(h[2 * i + 1]) : 0; }
static uint64_t num(const char* name) { std::string h = next(name); uint64_t v = 0; for (size_t i = 0; 2 * i + 1 < h.size() && i < 8; i++) v |= (uint64_t)(hx(h[2 * i]) * 16 + hx(h[2 * i + 1])) << (8 * i); return v; }
uint64_t vp_u64(const char* name) { return num(name); }
uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi) { uint64_t v = num(name); if (v - lo > hi - lo) v = lo; return v; }
void vp_assume(int c) { if (!c) { fprintf(stderr, "VP-ASSUME-FALSE\n"); _exit(78); } }
void vp_check(int c, const char* label) { if (!c) { fprintf(stderr, "VP-CHECK-FAILED %s\n", label); fflush(stderr); _exit(77); } }
void vp_fail(const char* label) { fprintf(stderr, "VP-CHECK-FAILED %s\n", label); _exit(77); }
void vp_reach(const char* l) { if (getenv("VP_VERBOSE")) fprintf(stderr, "VP-REACH %s\n", l); }
uint64_t vp_conc(uint64_t v) { return v; }
int vp_native(void) { return 1; }
uint64_t vp_param(const char* name) { const char* e = getenv("VP_PARAMS"); std::string t = std::string(" ") + (e ? e : "") + " ", k = std::string(" ") + name + "="; size_t p = t.find(k); if (p == std::string::npos) { fprintf(stderr, "missing param %s\n", name); _exit(79); } return strtoull(t.c_str() + p + k.size(), nullptr, 10); }
void vp_steps(uint64_t n) { alarm(n ? 20 : 0); }
void vp_print(const char* s, int64_t v) { if (getenv("VP_VERBOSE")) fprintf(stderr, "[print] %s %ld\n", s, (long)v); }
void vp_prints(const char* s, const char* v) { if (getenv("VP_VERBOSE")) fprintf(stderr, "[print] %s %s\n", s, v); }
void vp_allow_abort(int on) { if (on) signal(SIGABRT, [](int) { _exit(0); }); else signal(SIGABRT, SIG_DFL); }
void vp_stop(void) { _exit(0); }
void vp_atomic(int) {}
void vp_nosched(int) {}
#ifndef VP_SCHED_BUILD
void vp_sched(void) {}
int vp_tid(void) { return 0; }
#endif
}
int main() { vp_main(); fflush(nullptr); _exit(0); } // static destructors are not part of what is checked
