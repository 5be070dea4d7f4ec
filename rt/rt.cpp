// Runtime for the symbolic executor: re-implements the out-of-line parts of libstdc++/libc that the real code calls.
// Compiled to bitcode only. Anything marked weak can be replaced by a harness.
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <new>
#include <stdexcept>
#include <string>
#include <list>
#include <map>
#include <unordered_map>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <shared_mutex>
#include <chrono>
#include <random>
#include <system_error>
#include <functional>
#include <pthread.h>
#include <sys/time.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <memory>
#define WEAK __attribute__((weak))
extern "C" {
void* vp_malloc(size_t); void vp_free(void*);
int vp_tid(); void vp_sched(); int vp_block(const void*); int vp_block_timed(const void*); void vp_wake(const void*, uint64_t n); int vp_thread_create(void* (*)(void*), void*); void vp_join(int); void vp_lock_delta(int);
uint64_t vp_kv_get(uint64_t); void vp_kv_set(uint64_t, uint64_t); uint64_t vp_conc(uint64_t); double vp_strtod(const char*, char**); long vp_dtoa(char*, unsigned long, const char*, double); double vp_math(int, double, double); int vp_uncaught();
void vp_fail(const char*); void vp_print(const char*, int64_t);
}
// ---- allocation ----
void* operator new(size_t n) { void* p = vp_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vp_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vp_malloc(n); }
void* operator new(size_t n, std::align_val_t) { return operator new(n); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, size_t) noexcept { vp_free(p); }
void operator delete[](void* p, size_t) noexcept { vp_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vp_free(p); }
// ---- exceptions ----
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
// __cow_string: keep a leaked C string.
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string& s) { char* p = (char*)vp_malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)vp_malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(T) T::T(const std::string& s) : logic_error(s) {} T::T(const char* s) : logic_error(s) {} T::~T() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
#define RE(T) T::T(const std::string& s) : runtime_error(s) {} T::T(const char* s) : runtime_error(s) {} T::~T() noexcept {}
RE(range_error) RE(overflow_error) RE(underflow_error)
system_error::~system_error() noexcept {}
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
class _VpCat : public error_category { public: const char* name() const noexcept override { return "vp"; } string message(int e) const override { return "error"; } };
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
static _VpCat _vpcat;
inline namespace _V2 { const error_category& generic_category() noexcept { return _vpcat; }
const error_category& system_category() noexcept { return _vpcat; } }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
class _VpSysErr : public system_error {};
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
int uncaught_exceptions() noexcept { return vp_uncaught(); }
bool uncaught_exception() noexcept { return vp_uncaught() > 0; }
extern const nothrow_t nothrow = nothrow_t{};
static std::ostream _vo1, _vo2, _vo3;
}
extern "C" { // cout/cerr/clog aliases
}
// ---- containers ----
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
static const size_t kPrimes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 53, 79, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : kPrimes) if (p >= n) { _M_next_resize = p; return p; } return 98317; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (_M_next_resize == 0 && want < 11) want = 11; if (want >= nb) { size_t t = want + 1; if (t < nb * 2) t = nb * 2; return {true, _M_next_bkt(t)}; } _M_next_resize = nb; return {false, 0}; }
    return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { // any hash function is a valid model; the value is made concrete so that buckets are concrete
    const unsigned char* c = (const unsigned char*)p; uint32_t h = (uint32_t)seed; for (size_t i = 0; i < n; i++) h = h * 31 + (unsigned char)vp_conc(c[i]); return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
typedef _Rb_tree_node_base* RB; typedef const _Rb_tree_node_base* CRB;
static RB rbInc(RB x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { RB y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static RB rbDec(RB x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { RB y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { RB y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
RB _Rb_tree_increment(RB x) throw() { return rbInc(x); }
CRB _Rb_tree_increment(CRB x) throw() { return rbInc(const_cast<RB>(x)); }
RB _Rb_tree_decrement(RB x) throw() { return rbDec(x); }
CRB _Rb_tree_decrement(CRB x) throw() { return rbDec(const_cast<RB>(x)); }
static void rotL(RB x, RB& root) { RB y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(RB x, RB& root) { RB y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, RB x, RB p, _Rb_tree_node_base& h) throw() {
    RB& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        RB g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) { RB y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); } }
        else { RB y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); } }
    }
    root->_M_color = _S_black;
}
RB _Rb_tree_rebalance_for_erase(RB z, _Rb_tree_node_base& h) throw() {
    RB &root = h._M_parent, &leftmost = h._M_left, &rightmost = h._M_right; RB y = z, x = 0, xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { RB m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { RB m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                RB w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
            } else {
                RB w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
}
// ---- threads ----
extern "C" {
static inline int self() { return vp_tid() + 1; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    vp_sched();
    if (m->__data.__kind == 1 && m->__data.__lock && m->__data.__owner == self()) { m->__data.__count++; return 0; }
    while (m->__data.__lock) vp_block(m);
    vp_lock_delta(1); m->__data.__lock = 1; m->__data.__owner = self(); m->__data.__count = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    vp_sched();
    if (m->__data.__kind == 1 && m->__data.__lock && m->__data.__owner == self()) { m->__data.__count++; return 0; }
    if (m->__data.__lock) return EBUSY;
    vp_lock_delta(1); m->__data.__lock = 1; m->__data.__owner = self(); m->__data.__count = 1; return 0;
}
WEAK void vp_timed_out(const timespec*) {} // harness hook: a wait expired at this absolute time
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
    vp_sched();
    if (m->__data.__kind == 1 && m->__data.__lock && m->__data.__owner == self()) { m->__data.__count++; return 0; }
    while (m->__data.__lock) if (vp_block_timed(m)) { vp_timed_out(ts); return ETIMEDOUT; }
    vp_lock_delta(1); m->__data.__lock = 1; m->__data.__owner = self(); m->__data.__count = 1; return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) { return pthread_mutex_timedlock(m, t); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!m->__data.__lock || m->__data.__owner != self()) { vp_fail("unlock-of-unowned-mutex"); return EPERM; }
    if (--m->__data.__count) return 0;
    vp_lock_delta(-1); m->__data.__lock = 0; m->__data.__owner = 0; vp_wake(m, ~0ull); return 0;
}
int pthread_mutexattr_init(pthread_mutexattr_t*) { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t*, int) { return 0; }
// rwlock: __readers counts readers, __cur_writer = writer id
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { vp_sched(); while (l->__data.__cur_writer) vp_block(l); l->__data.__readers++; vp_lock_delta(1); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { vp_sched(); if (l->__data.__cur_writer) return EBUSY; l->__data.__readers++; vp_lock_delta(1); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { vp_sched(); while (l->__data.__cur_writer || l->__data.__readers) vp_block(l); l->__data.__cur_writer = self(); vp_lock_delta(1); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { vp_sched(); if (l->__data.__cur_writer || l->__data.__readers) return EBUSY; l->__data.__cur_writer = self(); vp_lock_delta(1); return 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const timespec* ts) { vp_sched(); while (l->__data.__cur_writer || l->__data.__readers) if (vp_block_timed(l)) { vp_timed_out(ts); return ETIMEDOUT; } l->__data.__cur_writer = self(); vp_lock_delta(1); return 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) { return pthread_rwlock_clockwrlock(l, 0, t); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const timespec* ts) { vp_sched(); while (l->__data.__cur_writer) if (vp_block_timed(l)) { vp_timed_out(ts); return ETIMEDOUT; } l->__data.__readers++; vp_lock_delta(1); return 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) { return pthread_rwlock_clockrdlock(l, 0, t); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { vp_lock_delta(-1);
    if ((int)l->__data.__cur_writer == self()) l->__data.__cur_writer = 0; else if (l->__data.__readers) l->__data.__readers--; else { vp_fail("unlock-of-unowned-rwlock"); return EPERM; }
    vp_wake(l, ~0ull); return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { pthread_mutex_unlock(m); vp_block(c); while (m->__data.__lock) vp_block(m); vp_lock_delta(1); m->__data.__lock = 1; m->__data.__owner = self(); m->__data.__count = 1; return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { pthread_mutex_unlock(m); int t = vp_block_timed(c); if (t) vp_timed_out(ts); while (m->__data.__lock) vp_block(m); vp_lock_delta(1); m->__data.__lock = 1; m->__data.__owner = self(); m->__data.__count = 1; return t ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return pthread_cond_clockwait(c, m, 0, t); }
int pthread_cond_signal(pthread_cond_t* c) { vp_wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { vp_wake(c, ~0ull); return 0; }
pthread_t pthread_self() { return (pthread_t)(vp_tid() + 1); }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) { *t = vp_thread_create(f, a) + 1; vp_sched(); return 0; }
int pthread_join(pthread_t t, void** r) { vp_join((int)t - 1); return 0; }
int pthread_detach(pthread_t) { return 0; }
int pthread_attr_init(pthread_attr_t*) { return 0; }
int pthread_attr_setstacksize(pthread_attr_t*, size_t) { return 0; }
int pthread_attr_destroy(pthread_attr_t*) { return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
WEAK int pthread_setname_np(pthread_t, const char*) { return 0; }
int __gthread_active_p_vp() { return 1; }
int sched_yield() { vp_sched(); return 0; }
// futex: std::atomic::wait / notify (waiters are woken by address; a wait whose value already changed returns at once)
WEAK long syscall(long nr, ...) { va_list ap; va_start(ap, nr); int* addr = va_arg(ap, int*); int op = va_arg(ap, int); int val = va_arg(ap, int); const void* to = va_arg(ap, const void*); va_end(ap);
    if (nr != 202) { vp_fail("syscall-unmodelled"); return -1; }
    op &= 127; if (op == 0 || op == 9) { vp_sched(); if (*(volatile int*)addr != val) { *__errno_location() = EAGAIN; return -1; } if (to) vp_block_timed(addr); else vp_block(addr); return 0; }
    if (op == 1 || op == 10) { vp_wake(addr, val); return 0; }
    vp_fail("futex-unmodelled"); return -1; }
WEAK int nanosleep(const timespec*, timespec*) { vp_sched(); return 0; }
WEAK int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { vp_sched(); return 0; }
WEAK int usleep(unsigned) { vp_sched(); return 0; }
WEAK unsigned sleep(unsigned) { vp_sched(); return 0; }
}
namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
thread::_State::~_State() {}
static void* vpThreadRun(void* p) { unique_ptr<thread::_State> s((thread::_State*)p); s->_M_run(); return nullptr; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { pthread_create(&_M_id._M_thread, nullptr, vpThreadRun, s.release()); }
void thread::join() { pthread_join(_M_id._M_thread, nullptr); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { vp_sched(); } }
}
// ---- clocks (harnesses override vp_now_us) ----
extern "C" WEAK uint64_t vp_now_us() { return 1700000000000000ull; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)vp_now_us() * 1000)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)vp_now_us() * 1000)); }
} } }
extern "C" {
WEAK int gettimeofday(struct timeval* tv, void*) { uint64_t t = vp_now_us(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
WEAK int clock_gettime(clockid_t, timespec* ts) { uint64_t t = vp_now_us(); ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0; }
WEAK time_t time(time_t* p) { time_t t = vp_now_us() / 1000000; if (p) *p = t; return t; }
static void civil(int64_t z, int& Y, int& M, int& D) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; D = doy - (153 * mp + 2) / 5 + 1; M = mp < 10 ? mp + 3 : mp - 9; Y = (int)(y + (M <= 2)); }
static int64_t daysOf(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
struct tm* gmtime_r(const time_t* t, struct tm* r) { int64_t s = (int64_t)vp_conc((uint64_t)*t); int64_t d = s / 86400, rem = s % 86400; if (rem < 0) { rem += 86400; d--; } int Y, M, D; civil(d, Y, M, D); r->tm_year = Y - 1900; r->tm_mon = M - 1; r->tm_mday = D; r->tm_hour = rem / 3600; r->tm_min = rem % 3600 / 60; r->tm_sec = rem % 60; r->tm_wday = (int)(((d % 7) + 11) % 7); r->tm_yday = (int)(d - daysOf(Y, 1, 1)); r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT"; return r; }
static struct tm vpTm;
struct tm* gmtime(const time_t* t) { return gmtime_r(t, &vpTm); }
struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
struct tm* localtime(const time_t* t) { return gmtime_r(t, &vpTm); }
time_t timegm(struct tm* t) { int64_t y = (int64_t)t->tm_year + 1900, m = t->tm_mon; y += m / 12; m %= 12; if (m < 0) { m += 12; y--; } int64_t d = daysOf(y, (int)m + 1, 1) + (int64_t)t->tm_mday - 1; time_t r = d * 86400 + (int64_t)t->tm_hour * 3600 + (int64_t)t->tm_min * 60 + t->tm_sec; gmtime_r(&r, t); return r; }
time_t mktime(struct tm* t) { return timegm(t); }
static int put2(char* b, size_t& n, size_t cap, int v, int w) { char t[16]; int i = 0; unsigned u = v < 0 ? -v : v; do { t[i++] = '0' + u % 10; u /= 10; } while (u || i < w); if (v < 0 && n < cap) b[n++] = '-'; while (i && n < cap) b[n++] = t[--i]; return 0; }
size_t strftime(char* b, size_t cap, const char* f, const struct tm* t) {
    static const char* dn[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}; static const char* mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    size_t n = 0; if (!cap) return 0; size_t lim = cap - 1;
    for (; *f; f++) {
        if (*f != '%') { if (n < lim) b[n++] = *f; else return 0; continue; }
        switch (*++f) {
            case 'Y': put2(b, n, lim, t->tm_year + 1900, 1); break; case 'm': put2(b, n, lim, t->tm_mon + 1, 2); break; case 'd': put2(b, n, lim, t->tm_mday, 2); break; case 'H': put2(b, n, lim, t->tm_hour, 2); break; case 'M': put2(b, n, lim, t->tm_min, 2); break; case 'S': put2(b, n, lim, t->tm_sec, 2); break; case 'y': put2(b, n, lim, (t->tm_year + 1900) % 100, 2); break; case 'j': put2(b, n, lim, t->tm_yday + 1, 3); break;
            case 'F': put2(b, n, lim, t->tm_year + 1900, 1); if (n < lim) b[n++] = '-'; put2(b, n, lim, t->tm_mon + 1, 2); if (n < lim) b[n++] = '-'; put2(b, n, lim, t->tm_mday, 2); break;
            case 'T': put2(b, n, lim, t->tm_hour, 2); if (n < lim) b[n++] = ':'; put2(b, n, lim, t->tm_min, 2); if (n < lim) b[n++] = ':'; put2(b, n, lim, t->tm_sec, 2); break;
            case 'a': for (int i = 0; i < 3; i++) if (n < lim) b[n++] = dn[t->tm_wday][i]; break; case 'A': for (const char* p = dn[t->tm_wday]; *p; p++) if (n < lim) b[n++] = *p; break;
            case 'b': for (int i = 0; i < 3; i++) if (n < lim) b[n++] = mn[t->tm_mon][i]; break; case 'B': for (const char* p = mn[t->tm_mon]; *p; p++) if (n < lim) b[n++] = *p; break;
            case 'Z': for (const char* p = "GMT"; *p; p++) if (n < lim) b[n++] = *p; break; case '%': if (n < lim) b[n++] = '%'; break;
            default: vp_fail("strftime-unmodelled"); return 0;
        }
    }
    b[n] = 0; return n;
}
char* strptime(const char* s, const char* f, struct tm* t) {
    auto num = [&](int maxd, int lo, int hi, int& out) -> bool { while (*s == ' ') s++; int v = 0, k = 0; while (k < maxd && *s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); s++; k++; } if (!k || v < lo || v > hi) return false; out = v; return true; };
    for (; *f; f++) {
        if (*f == ' ') { while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; continue; }
        if (*f != '%') { if (*s++ != *f) return nullptr; continue; }
        int v; switch (*++f) {
            case 'Y': if (!num(4, 0, 9999, v)) return nullptr; t->tm_year = v - 1900; break; case 'm': if (!num(2, 1, 12, v)) return nullptr; t->tm_mon = v - 1; break; case 'd': if (!num(2, 1, 31, v)) return nullptr; t->tm_mday = v; break; case 'H': if (!num(2, 0, 23, v)) return nullptr; t->tm_hour = v; break; case 'M': if (!num(2, 0, 59, v)) return nullptr; t->tm_min = v; break; case 'S': if (!num(2, 0, 61, v)) return nullptr; t->tm_sec = v; break;
            default: vp_fail("strptime-unmodelled"); return nullptr;
        }
    }
    return (char*)s;
}
void tzset() {}
// ---- errno, ctype, strings ----
static __thread int vpErrno;
int* __errno_location() { return &vpErrno; }
#define CT(name, expr) int name(int c) { return (expr) ? 1 : 0; }
CT(isdigit, (unsigned)c - '0' < 10) CT(isupper, (unsigned)c - 'A' < 26) CT(islower, (unsigned)c - 'a' < 26) CT(isalpha, ((unsigned)c | 32) - 'a' < 26)
CT(isalnum, (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10)) CT(isspace, (c == ' ') | ((unsigned)c - '\t' < 5)) CT(isprint, (unsigned)c - 0x20 < 0x5f) CT(isgraph, (unsigned)c - 0x21 < 0x5e)
CT(iscntrl, ((unsigned)c < 0x20) | (c == 0x7f)) CT(isblank, (c == ' ') | (c == '\t')) CT(isxdigit, ((unsigned)c - '0' < 10) | (((unsigned)c | 32) - 'a' < 6)) CT(ispunct, ((unsigned)c - 0x21 < 0x5e) & !((((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10)))
int tolower(int c) { return (unsigned)c - 'A' < 26 ? c | 32 : c; }
int toupper(int c) { return (unsigned)c - 'a' < 26 ? c & ~32 : c; }
int strcmp(const char* a, const char* b) { for (; *a == *b && *a; a++, b++) {} return *(unsigned char*)a - *(unsigned char*)b; }
int strncmp(const char* a, const char* b, size_t n) { if (!n) return 0; for (; --n && *a && *a == *b; a++, b++) {} return *(unsigned char*)a - *(unsigned char*)b; }
int strcasecmp(const char* a, const char* b) { for (; *a && (*a == *b || tolower((unsigned char)*a) == tolower((unsigned char)*b)); a++, b++) {} return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { if (!n) return 0; for (; --n && *a && (*a == *b || tolower((unsigned char)*a) == tolower((unsigned char)*b)); a++, b++) {} return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
char* vp_strchr(const char* s, int c) asm("strchr"); char* vp_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* vp_strrchr(const char* s, int c) asm("strrchr"); char* vp_strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* vp_strstr(const char* h, const char* n) asm("strstr"); char* vp_strstr(const char* h, const char* n) { if (!*n) return (char*)h; for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; } return 0; }
char* vp_strcasestr(const char* h, const char* n) asm("strcasestr"); char* vp_strcasestr(const char* h, const char* n) { if (!*n) return (char*)h; for (; *h; h++) { size_t i = 0; while (n[i] && tolower((unsigned char)h[i]) == tolower((unsigned char)n[i])) i++; if (!n[i]) return (char*)h; } return 0; }
char* vp_strpbrk(const char* s, const char* a) asm("strpbrk"); char* vp_strpbrk(const char* s, const char* a) { for (; *s; s++) if (strchr(a, *s)) return (char*)s; return 0; }
size_t strspn(const char* s, const char* a) { size_t i = 0; while (s[i] && strchr(a, s[i])) i++; return i; }
size_t strcspn(const char* s, const char* a) { size_t i = 0; while (s[i] && !strchr(a, s[i])) i++; return i; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { const char* p = (const char*)h; for (size_t i = 0; i + nn <= hn; i++) if (!memcmp(p + i, n, nn)) return (void*)(p + i); return 0; }
WEAK char* strerror(int) { return (char*)"error"; }
WEAK char* strerror_r(int, char* b, size_t n) { return (char*)"error"; }
static uint64_t strtox(const char* s, char** e, int base, bool& neg, bool& over, uint64_t lim) {
    const char* p = s; while (isspace((unsigned char)*p)) p++; neg = false; over = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    uint64_t v = 0; bool any = false;
    for (;; p++) { unsigned c = (unsigned char)*p; unsigned d; if (c - '0' < 10) d = c - '0'; else if ((c | 32) - 'a' < 26) d = (c | 32) - 'a' + 10; else break; if (d >= (unsigned)base) break; any = true; if (v > (~0ull - d) / base) over = true; v = v * base + d; }
    if (e) *e = (char*)(any ? p : s); return v;
}
long strtol(const char* s, char** e, int b) { bool neg, over; uint64_t v = strtox(s, e, b, neg, over, 0); if (over || v > (uint64_t)INT64_MAX + neg) { vpErrno = ERANGE; return neg ? INT64_MIN : INT64_MAX; } return neg ? (long)(0 - v) : (long)v; }
unsigned long strtoul(const char* s, char** e, int b) { bool neg, over; uint64_t v = strtox(s, e, b, neg, over, 0); if (over) { vpErrno = ERANGE; return ~0ul; } return neg ? 0 - v : v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long vpa(const char* s, char** e, int b) asm("strtol"); long vpa(const char* s, char** e, int b) { return strtol(s, e, b); }
long vpb(const char* s, char** e, int b) asm("strtoll"); long vpb(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long vpc(const char* s, char** e, int b) asm("strtoul"); unsigned long vpc(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long vpd(const char* s, char** e, int b) asm("strtoull"); unsigned long vpd(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
static bool vpPfx(const char* p, const char* w) { for (; *w; w++, p++) if ((*p | 32) != *w) return false; return true; }
// The numeric prefix is found by branching on the characters; only the characters of an actual number are made concrete.
double strtod(const char* s, char** e) {
    const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; const char* st = p; if (*p == '+' || *p == '-') p++;
    bool any = false;
    if (vpPfx(p, "inf")) { p += 3; if (vpPfx(p, "inity")) p += 5; any = true; }
    else if (vpPfx(p, "nan")) { p += 3; any = true; if (*p == '(') { const char* q = p + 1; while ((*q >= '0' && *q <= '9') || ((*q | 32) >= 'a' && (*q | 32) <= 'z') || *q == '_') q++; if (*q == ')') p = q + 1; } }
    else if (*p == '0' && (p[1] | 32) == 'x' && ((p[2] >= '0' && p[2] <= '9') || ((p[2] | 32) >= 'a' && (p[2] | 32) <= 'f') || (p[2] == '.' && ((p[3] >= '0' && p[3] <= '9') || ((p[3] | 32) >= 'a' && (p[3] | 32) <= 'f'))))) {
        any = true; p += 2; while ((*p >= '0' && *p <= '9') || ((*p | 32) >= 'a' && (*p | 32) <= 'f')) p++; if (*p == '.') { p++; while ((*p >= '0' && *p <= '9') || ((*p | 32) >= 'a' && (*p | 32) <= 'f')) p++; }
        if ((*p | 32) == 'p') { const char* q = p + 1; if (*q == '+' || *q == '-') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') q++; p = q; } }
    } else {
        while (*p >= '0' && *p <= '9') { p++; any = true; } if (*p == '.') { const char* q = p + 1; bool f = false; while (*q >= '0' && *q <= '9') { q++; f = true; } if (any || f) { p = q; any = true; } }
        if (any && (*p | 32) == 'e') { const char* q = p + 1; if (*q == '+' || *q == '-') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') q++; p = q; } }
    }
    if (!any) { if (e) *e = (char*)s; return 0; }
    char buf[80]; size_t n = p - st; if (n > 79) n = 79; for (size_t i = 0; i < n; i++) buf[i] = st[i]; buf[n] = 0; if (e) *e = (char*)p; return vp_strtod(buf, 0);
}
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
double pow(double a, double b) { return vp_math(0, a, b); } double log(double a) { return vp_math(1, a, 0); } double sqrt(double a) { return vp_math(2, a, 0); } double ceil(double a) { return vp_math(3, a, 0); } double floor(double a) { return vp_math(4, a, 0); } double round(double a) { return vp_math(5, a, 0); } double fmod(double a, double b) { return vp_math(6, a, b); } double exp(double a) { return vp_math(7, a, 0); } double log10(double a) { return vp_math(8, a, 0); } double log2(double a) { return vp_math(9, a, 0); }
int vsnprintf(char* b, size_t cap, const char* f, va_list ap) {
    size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) b[n] = c; n++; };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++; bool zero = false, left = false, alt = false, plus = false; for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '#') alt = true; else if (*f == '+') plus = true; else if (*f == ' ') {} else break; }
        int w = 0, p = -1; if (*f == '*') { w = va_arg(ap, int); f++; if (w < 0) { left = true; w = -w; } } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
        if (*f == '.') { f++; p = 0; if (*f == '*') { p = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') p = p * 10 + *f++ - '0'; }
        int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { l++; f++; } while (*f == 'h') f++;
        char t[72]; int k = 0; bool neg = false; char c = *f;
        if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
            uint64_t v; if (c == 'd' || c == 'i') { int64_t x = l ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? 0 - (uint64_t)x : x; } else v = (l || c == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10; const char* dg = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
            while (v || !k) { t[k++] = dg[v % base]; v /= base; } while (k < p) t[k++] = '0'; if ((alt && base == 16) || c == 'p') { t[k++] = 'x'; t[k++] = '0'; }
            int tot = k + (neg || plus); if (!left && !zero) for (int i = tot; i < w; i++) put(' '); if (neg) put('-'); else if (plus) put('+'); if (zero && !left) for (int i = tot; i < w; i++) put('0'); while (k) put(t[--k]); if (left) for (int i = tot; i < w; i++) put(' ');
        } else if (c == 's') { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; size_t len = 0; while ((p < 0 || len < (size_t)p) && s[len]) len++; if (!left) for (size_t i = len; i < (size_t)w; i++) put(' '); for (size_t i = 0; i < len; i++) put(s[i]); if (left) for (size_t i = len; i < (size_t)w; i++) put(' '); }
        else if (c == 'c') put((char)va_arg(ap, int)); else if (c == '%') put('%');
        else if (c == 'f' || c == 'g' || c == 'e' || c == 'F' || c == 'G') { double d = va_arg(ap, double); char ff[16]; int i = 0; ff[i++] = '%'; if (w) { if (zero) ff[i++] = '0'; if (w >= 10) ff[i++] = '0' + w / 10; ff[i++] = '0' + w % 10; } if (p >= 0) { ff[i++] = '.'; if (p >= 10) ff[i++] = '0' + p / 10; ff[i++] = '0' + p % 10; } ff[i++] = c; ff[i] = 0; char o[400]; long m = vp_dtoa(o, sizeof o, ff, d); for (long q = 0; q < m; q++) put(o[q]); }
        else { vp_fail("printf-unmodelled"); break; }
    }
    if (cap) b[n < cap ? n : cap - 1] = 0; return (int)n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 20, f, ap); va_end(ap); return r; }
WEAK int printf(const char*, ...) { return 0; }
WEAK int fprintf(FILE*, const char*, ...) { return 0; }
WEAK int puts(const char*) { return 0; }  WEAK size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; } WEAK int fflush(FILE*) { return 0; }
WEAK void syslog(int, const char*, ...) {} WEAK void openlog(const char*, int, int) {} WEAK int setlogmask(int) { return 255; } WEAK void closelog() {}
WEAK char* getenv(const char*) { return nullptr; } WEAK int getpid() { return 42; } WEAK int backtrace(void**, int) { return 0; } WEAK char** backtrace_symbols(void* const*, int) { return nullptr; }
WEAK char* __cxa_demangle(const char*, char*, size_t*, int* st) { if (st) *st = -1; return nullptr; }
void qsort(void* b, size_t n, size_t s, int (*c)(const void*, const void*)) { char* p = (char*)b; char t[256]; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(p + (j - 1) * s, p + j * s) > 0; j--) { memcpy(t, p + j * s, s); memcpy(p + j * s, p + (j - 1) * s, s); memcpy(p + (j - 1) * s, t, s); } }
int __cxa_guard_acquire(uint64_t* g) { vp_sched(); if (*(char*)g) return 0; while (((char*)g)[1]) vp_block(g); if (*(char*)g) return 0; ((char*)g)[1] = 1; return 1; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; ((char*)g)[1] = 0; vp_wake(g, ~0ull); }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; vp_wake(g, ~0ull); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void* __dso_handle = nullptr;
}
// ---- random ----
extern "C" WEAK uint64_t vp_random_u64() { uint64_t s = vp_kv_get(77) * 6364136223846793005ull + 1442695040888963407ull; vp_kv_set(77, s); return s; }
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (unsigned)vp_random_u64(); }
random_device::result_type random_device::_M_getval_pretr1() { return (unsigned)vp_random_u64(); }
}
template class std::basic_string<char>;
template std::basic_ostream<char>& std::operator<< <char, std::char_traits<char>, std::allocator<char>>(std::basic_ostream<char>&, const std::string&);
template std::basic_ostream<char>& std::operator<< <char, std::char_traits<char>>(std::basic_ostream<char>&, std::string_view);
extern "C" {
WEAK char __libc_single_threaded = 0;
char* __xpg_basename(char* p) { char* r = p; for (char* q = p; *q; q++) if (*q == '/' && q[1]) r = q + 1; return r; }
}
// ---- sscanf: the numeric conversions ----
extern "C" WEAK int vsscanf(const char* s, const char* f, va_list ap) {
    int n = 0; const char* b = s;
    for (; *f; f++) {
        if (*f == ' ' || *f == '\t' || *f == '\n') { while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; continue; }
        if (*f != '%') { if (*s != *f) return n; s++; continue; }
        f++; bool skip = false; if (*f == '*') { skip = true; f++; } int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0'; if (!w) w = 1 << 30;
        int L = 0; while (*f == 'l') { L++; f++; } if (*f == 'z') { L = 1; f++; }
        if (*f == '%') { if (*s != '%') return n; s++; continue; }
        if (*f == 'n') { *va_arg(ap, int*) = s - b; continue; }
        if (*f == 'c') { if (w == 1 << 30) w = 1; char* o = skip ? nullptr : va_arg(ap, char*); for (int i = 0; i < w; i++) { if (!*s) return n ? n : -1; if (o) *o++ = *s; s++; } if (!skip) n++; continue; }
        while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
        if (*f == 's') { char* o = skip ? nullptr : va_arg(ap, char*); if (!*s) return n ? n : -1; while (w-- && *s && *s != ' ' && !(*s >= 9 && *s <= 13)) { if (o) *o++ = *s; s++; } if (o) { *o = 0; n++; } continue; }
        if (!*s) return n ? n : -1;
        int base = *f == 'x' || *f == 'X' ? 16 : 10; bool neg = false; if (w > 0 && (*s == '-' || *s == '+')) { neg = *s == '-'; s++; w--; }
        uint64_t v = 0; bool any = false;
        if (base == 16 && w >= 2 && *s == '0' && (s[1] | 32) == 'x') { s += 2; w -= 2; any = true; }
        for (; w > 0; w--, s++) { unsigned c = (unsigned char)*s, d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; v = v * base + d; any = true; }
        if (!any) return n; if (neg) v = -v;
        if (!skip) { if (L) *va_arg(ap, uint64_t*) = v; else *va_arg(ap, unsigned*) = (unsigned)v; n++; }
    }
    return n;
}
extern "C" WEAK int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
#include <signal.h>
// ---- signals are outside the model: registering handlers and masks does nothing ----
extern "C" {
WEAK int sigaltstack(const stack_t*, stack_t*) { return 0; }
WEAK int sigaction(int, const struct sigaction*, struct sigaction*) { return 0; }
WEAK int sigprocmask(int, const sigset_t*, sigset_t*) { return 0; }
WEAK int sigfillset(sigset_t*) { return 0; }
WEAK int sigemptyset(sigset_t*) { return 0; }
WEAK int sigaddset(sigset_t*, int) { return 0; }
WEAK int sigdelset(sigset_t*, int) { return 0; }
}
