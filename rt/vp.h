// Harness API. Under the symbolic executor these are intrinsics; natively they replay a recorded counterexample (rt/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_sym(void* p, size_t n, const char* name);
uint64_t vp_u64(const char* name);
uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi);   // inclusive
void vp_assume(int c);
void vp_check(int c, const char* label);
void vp_fail(const char* label);
void vp_reach(const char* label);
uint64_t vp_conc(uint64_t v);                                    // enumerate the feasible values (fork per value)
int vp_native(void);
uint64_t vp_param(const char* name);                             // per-case bound, set by the driver
void vp_steps(uint64_t n);                                       // termination bound for the code that follows (0 = off)
void vp_print(const char* s, int64_t v);
void vp_prints(const char* s, const char* v);
void vp_stop(void);
void vp_allow_abort(int on);                                       // paths on which the code aborts the process on purpose end there, unchecked
void vp_nosched(int on);
void vp_atomic(int delta);                                        // +1/-1: the calling thread is not preempted in between
void vp_sched(void);
int vp_tid(void);
void vp_main(void);
}
#ifdef __cplusplus
#include <string>
static inline uint64_t vp_choice(const char* name, uint64_t n) { return vp_conc(vp_range(name, 0, n - 1)); }
static inline int64_t vp_int(const char* name, int64_t lo, int64_t hi) { return lo + (int64_t)vp_range(name, 0, (uint64_t)(hi - lo)); }
static inline bool vp_bool(const char* name) { return vp_range(name, 0, 1) != 0; }
// Symbolic string of every length 0..max (length enumerated by forking, bytes symbolic).
static inline std::string vp_str(const char* name, size_t minLen, size_t maxLen) {
    size_t n = minLen + vp_choice((std::string(name) + ".len").c_str(), maxLen - minLen + 1);
    std::string s(n, '?');
    if (n) vp_sym(&s[0], n, name);
    return s;
}
#endif
