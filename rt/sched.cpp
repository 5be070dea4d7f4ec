// Native schedule replay: the instrumented module runs on real threads, one at a time; the recorded schedule says at which event count of which thread to switch to which.
#define VP_SCHED_BUILD
#include "native.cpp"
#include <pthread.h>
#include <map>
#include <exception>
#include <cmath>
#include <typeinfo>
#include <cxxabi.h>
struct Th { uint64_t ev = 0; int status = 0; const void* wait = nullptr; bool timeout = false; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; void* (*fn)(void*) = nullptr; void* arg = nullptr; pthread_t pt; };
struct Sw { int t; uint64_t n; int u; };
static Th* th[64]; static int nth = 0; static volatile int cur = 0; static bool multi = false; static std::vector<Sw>* sw; static size_t swp = 0; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static thread_local int me = 0;
static void init() { if (nth) return; th[nth++] = new Th; sw = new std::vector<Sw>; const char* e = getenv("VP_SCHED"); while (e && *e) { Sw x; unsigned long n; int k = 0; if (sscanf(e, "%d:%lu>%d %n", &x.t, &n, &x.u, &k) < 3) break; x.n = n; sw->push_back(x); e += k; } }
static void diverged(const char* w) { fprintf(stderr, "VP-DIVERGED schedule: %s (thread %d event %lu, next entry %zu of %zu)\n", w, me, th[me]->ev, swp, sw->size()); _exit(79); }
static void to(int u) {
    if (u < 0 || u >= nth) diverged("unknown thread");
    if (th[u]->status == 3) { th[u]->status = 0; th[u]->timeout = true; }
    if (th[u]->status != 0) diverged("target not runnable");
    if (u == me) return;
    pthread_mutex_lock(&mx); cur = u; pthread_cond_signal(&th[u]->cv); while (cur != me) pthread_cond_wait(&th[me]->cv, &mx); pthread_mutex_unlock(&mx);
}
static bool due() { return swp < sw->size() && (*sw)[swp].t == me && (*sw)[swp].n == th[me]->ev; }
extern "C" {
void vp_ev() { if (!multi) return; th[me]->ev++; if (due()) to((*sw)[swp++].u); }
void vp_sched() { vp_ev(); }
int vp_tid() { return me; }
void vp_lock_delta(int) {}
static void must(const char* w) { if (!due()) { if (swp >= sw->size()) { bool any = false; for (int i = 0; i < nth; i++) if (th[i]->status == 0 || th[i]->status == 3) any = true; if (!any) { fprintf(stderr, "VP-DEADLOCK\n"); _exit(77); } fprintf(stderr, "VP-SCHEDULE-END\n"); _exit(80); } diverged(w); } to((*sw)[swp++].u); }
static int blk(const void* a, int st) { init(); if (!multi) { if (st == 3) return 1; fprintf(stderr, "VP-DEADLOCK\n"); _exit(77); } Th& t = *th[me]; t.ev++; t.timeout = false; t.status = st; t.wait = a; must("block"); bool r = t.timeout; t.timeout = false; return r; }
int vp_block(const void* a) { return blk(a, 1); }
int vp_block_timed(const void* a) { return blk(a, 3); }
void vp_wake(const void* a, uint64_t n) { for (int i = 0; i < nth; i++) { Th& t = *th[i]; if ((t.status == 1 || t.status == 3) && t.wait == a && n) { t.status = 0; t.timeout = false; n--; } } }
static void* entry(void* p) {
    me = (int)(long)p; pthread_mutex_lock(&mx); while (cur != me) pthread_cond_wait(&th[me]->cv, &mx); pthread_mutex_unlock(&mx);
    th[me]->fn(th[me]->arg); Th& t = *th[me]; t.status = 2; t.ev++;
    for (int i = 0; i < nth; i++) if (th[i]->status == 1 && th[i]->wait == (void*)(0x7000000000000000ull | me)) th[i]->status = 0;
    if (!due()) { bool any = false; for (int i = 0; i < nth; i++) if (th[i]->status == 0 || th[i]->status == 3) any = true; if (!any) { fprintf(stderr, "VP-DEADLOCK\n"); _exit(77); } if (swp >= sw->size()) { fprintf(stderr, "VP-SCHEDULE-END\n"); _exit(80); } diverged("thread end"); }
    int u = (*sw)[swp++].u; if (th[u]->status == 3) { th[u]->status = 0; th[u]->timeout = true; }
    pthread_mutex_lock(&mx); cur = u; pthread_cond_signal(&th[u]->cv); pthread_mutex_unlock(&mx); return nullptr;
}
int vp_thread_create(void* (*f)(void*), void* a) { init(); multi = true; int id = nth++; th[id] = new Th; th[id]->fn = f; th[id]->arg = a; pthread_create(&th[id]->pt, nullptr, entry, (void*)(long)id); return id; }
void vp_join(int id) { Th& t = *th[me]; t.ev++; while (th[id]->status != 2) { t.status = 1; t.wait = (void*)(0x7000000000000000ull | id); must("join"); } }
int vp_thread_done(int id) { return th[id]->status == 2; }
static std::map<uint64_t, uint64_t>& kv() { static auto* m = new std::map<uint64_t, uint64_t>; return *m; }
uint64_t vp_kv_get(uint64_t k) { return kv()[k]; }
void vp_kv_set(uint64_t k, uint64_t v) { kv()[k] = v; }
long vp_dtoa(char* b, unsigned long cap, const char* f, double d) { return snprintf(b, cap, f, d); }
double vp_strtod(const char* s, char** e) { return strtod(s, e); }
double vp_math(int op, double x, double y) { switch (op) { case 0: return pow(x, y); case 1: return log(x); case 2: return sqrt(x); case 3: return ceil(x); case 4: return floor(x); case 5: return round(x); case 6: return fmod(x, y); case 7: return exp(x); case 8: return log10(x); default: return log2(x); } }
int vp_uncaught() { return std::uncaught_exceptions(); }
int vp_is_symbolic(uint64_t) { return 0; }
void* vp_malloc(size_t n) { return malloc(n); }
void vp_free(void* p) { free(p); }
}
__attribute__((constructor(101))) static void early() { init(); }
