//VP property: L09
//VP threads: yes
//VP opts: --races
//VP case pollers: quick KIND=0 N=2 --preempt 3 | thorough KIND=0 N=2 --preempt 4 | reach done
//VP case full: quick KIND=2 N=3 --preempt 3 | thorough KIND=2 N=3 --preempt 4 | reach done
//VP case sender: quick KIND=1 N=2 --preempt 2 | thorough KIND=1 N=2 --preempt 3 | reach done
//VP bound: capacity 2; two producers pushing N entries each, one consumer; at most the stated number of preemptive context switches at any load or store of shared memory (voluntary blocking is unbounded); sequentially consistent memory
//VP assume: shutdown() is called after the producers finished (the destructor's contract); one consumer
#include "../rt/vp.h"
#include "common.h"
#include <libstuff/SRingBuffer.h>
#include <thread>
typedef SRingBuffer<std::string, 2> RB;
static RB r; static std::atomic<int> begun{0}, popped{0}; static int pushed[2], got[2], nxt[2] = {-1, -1};
static void prod(int id, size_t n) {
    for (size_t i = 0; i < n; i++) {
        int p0 = popped; begun++; bool ok = r.push(std::string(1, (char)(id * 16 + i)));
        if (ok) pushed[id]++; else { int s1 = begun - 1; begun--; vp_check(s1 - p0 >= 2, "push-refused-only-when-full"); }
    }
}
static void take(const std::optional<std::string>& s) { vp_check(s && s->size() == 1, "popped-entry-intact"); int id = (*s)[0] >> 4, i = (*s)[0] & 15; vp_check(id >= 0 && id < 2 && i > nxt[id], "per-producer-order"); nxt[id] = i; got[id]++; popped++; }
static bool one() { auto [e, st] = r.pop(); if (st != State::Ready) return st != State::Shutdown; take(e); return true; }
void vp_main() {
    size_t K = vp_param("KIND"), N = vp_param("N");
    vp_nosched(1); std::thread a([&] { prod(0, N); }), b, c;
    if (K != 2) b = std::thread([&] { prod(1, K == 0 ? 1 : N); });
    if (K == 1) c = std::thread([&] { while (true) { r.wait(); if (!one()) break; } }); // the sender loop of SFluentdLogger: wait, pop, until the shutdown marker
    else c = std::thread([&] { for (int k = 0; k < 3; k++) one(); });
    vp_nosched(0); a.join(); if (K != 2) b.join();
    if (K == 1) r.shutdown();
    c.join();
    if (K != 1) for (int k = 0; k < 4; k++) one();
    vp_check(r.pop().second == State::Empty, "empty-at-end");
    vp_check(got[0] == pushed[0] && got[1] == pushed[1], "every-accepted-entry-popped-once");
    vp_reach("done");
}
