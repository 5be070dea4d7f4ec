// Threading stand-ins for sqlite_model.cpp: one SQLite call runs at a time. A demo may define vp_sched to act between calls.
#include <mutex>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
static std::recursive_mutex m;
extern "C" {
__attribute__((weak)) void vp_sched() {}
void vp_atomic(int d) { if (d > 0) m.lock(); else m.unlock(); }
void vp_fail(const char* s) { fprintf(stderr, "stand-in: %s\n", s); _Exit(3); }
void vp_print(const char*, int64_t) {}
void vp_prints(const char*, const char*) {}
}
