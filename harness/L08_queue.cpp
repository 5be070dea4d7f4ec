//VP property: L08
//VP tus: libstuff/libstuff.cpp libstuff/SLog.cpp libstuff/SData.cpp
//VP env: pipe_model.cpp
//VP threads: yes
//VP opts: --races
//VP case wakeup: quick KIND=0 N=2 --preempt 2 | thorough KIND=0 N=2 --preempt 3 | reach done
//VP case consumers: quick KIND=1 N=2 --preempt 2 | thorough KIND=1 N=2 --preempt 3 | reach done
//VP case inspect: quick KIND=2 N=2 --preempt 2 | thorough KIND=2 N=2 --preempt 3 | reach done
//VP bound: two producers pushing N entries each; at most the stated number of preemptive context switches (at lock, pipe and unlocked shared-memory operations)
//VP assume: the pipe never fills up (fewer than 64 KiB of pending wake-up bytes)
#include "../rt/vp.h"
#include "common.h"
#include <libstuff/SSynchronizedQueue.h>
#include <thread>
typedef SSynchronizedQueue<std::string> Q;
static Q* q; static int total, nxt[2], got; static size_t N;
static void prod(int id) { for (size_t i = 0; i < N; i++) q->push(std::string(1, (char)(id * 16 + i))); }
static std::mutex gm; static bool ordered = true;
static void take(const std::string& s) { vp_check(s.size() == 1, "entry-intact"); int id = s[0] >> 4, i = s[0] & 15; vp_check(id >= 0 && id < 2, "entry-intact"); if (ordered) vp_check(i == nxt[id], "per-producer-fifo-exactly-once"); nxt[id]++; got++; }
static bool tryPop() { try { std::string s = q->pop(); std::lock_guard<std::mutex> l(gm); take(s); return true; } catch (const out_of_range&) { return false; } }
void vp_main() {
    quiet(); size_t K = vp_param("KIND"); N = vp_param("N"); vp_nosched(1); q = new Q; total = 2 * N; int seen = 0;
    std::thread a([] { prod(0); }), b([] { prod(1); }), c, d;
    if (K == 0) c = std::thread([] { while (got < total) { fd_map m; q->prePoll(m); S_poll(m, 3600000000ull); q->postPoll(m); while (tryPop()) {} } }); // a worker's wait: never sleeps with work pending
    if (K == 1) { ordered = false; auto f = [] { for (int i = 0; i < 3; i++) tryPop(); }; c = std::thread(f); d = std::thread(f); }
    if (K == 2) c = std::thread([&] { for (int i = 0; i < 2; i++) { size_t n = q->size(); int k = 0; std::string all; q->each([&](std::string& s) { k++; all += s; }); vp_check(k >= (int)n, "size-then-each"); try { const std::string& f = q->front(); vp_check(f.size() == 1, "front-intact"); } catch (const out_of_range&) { vp_check(n == 0, "front-of-non-empty"); } if (q->empty()) vp_check(n == 0, "empty-after-nonempty"); } });
    vp_nosched(0); a.join(); b.join(); if (c.joinable()) c.join(); if (d.joinable()) d.join(); vp_nosched(1);
    while (tryPop()) {}
    vp_check(got == total && nxt[0] == (int)N && nxt[1] == (int)N, "exactly-once"); vp_check(q->empty() && q->size() == 0, "empty-at-end"); vp_reach("done");
    delete q;
}
