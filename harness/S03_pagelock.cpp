//VP property: S03
//VP tus: libstuff/*.cpp ConflictLockGuard.cpp BedrockConflictManager.cpp
//VP env: os_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case threads: quick MODE=0 USERS=3 ROUNDS=1 PAGES=2 --preempt 2 | thorough MODE=0 USERS=3 ROUNDS=2 PAGES=2 --preempt 2 | reach end waited
//VP case prune: quick MODE=1 EXTRA=2 --steps 400000000 | thorough MODE=1 EXTRA=3 --steps 900000000 | reach end pruned
//VP case prunethreads: quick MODE=2 --preempt 1 --steps 400000000 | thorough MODE=2 --preempt 2 --steps 400000000 | reach end
//VP case report: quick MODE=3 OPS=3 | thorough MODE=3 OPS=4 | reach end
//VP bound: threads: USERS threads each locking ROUNDS pages out of PAGES (or none); prune: a history of 500 unused and EXTRA held or new locks in any order; prunethreads: locks of two threads while 500 unused locks exist; report: all sequences of OPS recordings of two commands and any set of four tables; all interleavings with up to the stated number of preemptions
#include "../rt/vp.h"
#include "common.h"
#include <ConflictLockGuard.h>
#include <BedrockConflictManager.h>
#include <thread>
static bool held[4]; static bool waited;
static void use(uint64_t id) { if (id && held[id]) waited = true; ConflictLockGuard g(id); if (id) { vp_check(!held[id], "one-holder-per-page"); held[id] = true; } vp_sched(); if (id) { vp_check(held[id], "still-held"); held[id] = false; } }
static void consistent() { vp_check(ConflictLockGuard::mutexes.size() == ConflictLockGuard::mutexOrder.size() && ConflictLockGuard::mutexes.size() == ConflictLockGuard::mutexCounts.size() && ConflictLockGuard::mutexes.size() == ConflictLockGuard::mutexOrderFastLookup.size(), "bookkeeping-agrees"); }
static void threads() { vector<std::thread> t; vector<vector<uint64_t>> p; for (size_t i = 0; i < vp_param("USERS"); i++) { p.push_back({}); for (size_t k = 0; k < vp_param("ROUNDS"); k++) p.back().push_back(vp_choice("page", vp_param("PAGES") + 1)); } vp_nosched(0); for (size_t i = 0; i < p.size(); i++) t.emplace_back([&, i] { for (auto x : p[i]) use(x); }); for (auto& x : t) x.join(); vp_nosched(1); consistent(); for (auto& c : ConflictLockGuard::mutexCounts) vp_check(c.second == 0, "nobody-left"); for (uint64_t x = 1; x <= vp_param("PAGES"); x++) use(x); if (waited) vp_reach("waited"); vp_reach("end"); }
static void prune() {
    for (uint64_t i = 1000; i < 1498; i++) { ConflictLockGuard g(i); } size_t n = vp_param("EXTRA"); { unique_ptr<ConflictLockGuard> a; bool hold = vp_choice("hold the oldest", 2); if (hold) a = make_unique<ConflictLockGuard>(1000); bool again = vp_choice("reuse", 2); if (again) { ConflictLockGuard g(1001); }
    vector<unique_ptr<ConflictLockGuard>> keep; for (size_t i = 0; i < n + 2; i++) { auto g = make_unique<ConflictLockGuard>(1 + i); if (vp_choice("keep", 2)) keep.push_back(move(g)); vp_check(ConflictLockGuard::mutexes.count(1 + i) == 1, "lock-in-use-is-kept"); consistent(); vp_check(ConflictLockGuard::mutexes.size() <= 501 + keep.size() + hold, "unused-locks-are-limited"); }
    if (hold) { vp_check(ConflictLockGuard::mutexes.count(1000) == 1 && ConflictLockGuard::mutexCounts.at(1000) == 1, "held-lock-survives"); bool other = false; std::thread t([&] { ConflictLockGuard g(1000); other = true; }); vp_check(!other, "still-excludes"); a.reset(); t.join(); vp_check(other, "then-free"); } if (again) vp_check(ConflictLockGuard::mutexes.count(1001) == 1, "recently-used-lock-is-kept"); vp_check(ConflictLockGuard::mutexes.count(1002) == 0 || ConflictLockGuard::mutexes.size() <= 500 + keep.size() + 1 + hold, "oldest-goes-first"); if (!ConflictLockGuard::mutexes.count(1002)) vp_reach("pruned"); }
    for (auto& c : ConflictLockGuard::mutexCounts) vp_check(c.second == 0, "nobody-left"); vp_reach("end");
}
static void prunethreads() { for (uint64_t i = 1000; i < 1500; i++) { ConflictLockGuard g(i); } vp_nosched(0); std::thread a([] { use(1); use(2); }), b([] { use(2); use(1); }), c([] { ConflictLockGuard g(1000); }); a.join(); b.join(); c.join(); vp_nosched(1); consistent(); vp_check(ConflictLockGuard::mutexes.size() <= 503, "limited"); for (auto& c : ConflictLockGuard::mutexCounts) vp_check(c.second == 0, "nobody-left"); vp_reach("end"); }
static void report() {
    BedrockConflictManager m; static const char* names[] = {"Get", "Put"}; static const char* tables[] = {"a", "b", "journal0001", "json_each"}; size_t count[2] = {}, use[2][4] = {}; for (size_t k = 0; k < vp_param("OPS"); k++) { size_t c = vp_choice("command", 2), s = vp_choice("tables", 16); set<string> t; for (size_t i = 0; i < 4; i++) if (s >> i & 1) { t.insert(tables[i]); use[c][i]++; } count[c]++; m.recordTables(names[c], t); }
    string r; for (size_t c = 0; c < 2; c++) { if (!count[c]) continue; r += string("Command: ") + names[c] + "\nTotal Count: " + to_string(count[c]) + "\nTable usage\n"; for (size_t i = 0; i < 2; i++) if (use[c][i]) r += string("    ") + tables[i] + ": " + to_string(use[c][i]) + "\n"; r += "\n"; } vp_check(m.generateReport() == r, "counts-every-use-of-a-real-table"); vp_reach("end");
}
void vp_main() { quiet(); vp_nosched(1); size_t m = vp_param("MODE"); if (m == 0) threads(); else if (m == 1) prune(); else if (m == 2) prunethreads(); else report(); }
