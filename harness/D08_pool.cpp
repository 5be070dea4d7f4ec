//VP property: D08
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLitePool.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case one: quick MAX=2 USERS=3 ROUNDS=1 HOLD=0 --preempt 2 | thorough MAX=2 USERS=3 ROUNDS=2 HOLD=0 --preempt 2 | reach end waited
//VP case two: quick MAX=3 USERS=3 ROUNDS=1 HOLD=0 --preempt 2 | thorough MAX=3 USERS=3 ROUNDS=2 HOLD=0 --preempt 2 | reach end waited second
//VP case crowd: quick MAX=3 USERS=3 ROUNDS=1 HOLD=1 --preempt 2 | thorough MAX=3 USERS=4 ROUNDS=1 HOLD=1 --preempt 2 | reach end waited
//VP bound: USERS threads each taking ROUNDS handles from a pool of MAX-1 handles besides the base handle, released explicitly, by scope or twice, at first with every handle free or (crowd) all taken by the main thread and released while the users wait; all interleavings with up to the stated number of preemptions at lock operations and unlocked shared accesses
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>
#include <thread>
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
static SQLitePool* pool; static bool used[8]; static SQLite* seen[8]; static size_t inUse = 0, most = 0, rounds; static bool create[4], explicitRelease[4], waited = false;
static void user(int i) {
    for (size_t k = 0; k < rounds; k++) {
        if (inUse >= vp_param("MAX") - 1) waited = true;
        SQLiteScopedHandle h(*pool, pool->getIndex(create[i])); size_t x = h._index;
        vp_check(x < vp_param("MAX") - 1, "index-within-the-limit"); vp_check(!used[x], "handle-given-to-one-user-at-a-time"); used[x] = true; inUse++; if (inUse > most) most = inUse; vp_check(inUse <= vp_param("MAX") - 1, "limit-respected");
        SQLite& db = h.db(); vp_check(&db != &pool->getBase(), "base-handle-is-not-pooled"); for (size_t j = 0; j < 8; j++) vp_check(j == x || seen[j] != &db, "handles-are-distinct"); vp_check(!seen[x] || seen[x] == &db, "handle-is-reused"); seen[x] = &db;
        vp_sched(); vp_check(used[x], "still-mine"); used[x] = false; inUse--;
        if (explicitRelease[i]) { h.release(); h.release(); }
    }
}
void vp_main() {
    quiet(); vp_nosched(1); size_t n = vp_param("USERS"); rounds = vp_param("ROUNDS");
    for (size_t i = 0; i < n; i++) { create[i] = vp_bool("create"); explicitRelease[i] = vp_bool("explicit"); }
    pool = new SQLitePool(vp_param("MAX"), "/nonexistent/a.db", 0, 100, -1); bool hold = vp_param("HOLD"); vector<size_t> mine; if (hold) for (size_t i = 0; i + 1 < vp_param("MAX"); i++) { mine.push_back(pool->getIndex(false)); used[mine[i]] = true; inUse++; } vector<std::thread> t; for (size_t i = 0; i < n; i++) t.emplace_back([i] { user(i); });
    vp_nosched(0); for (auto x : mine) { used[x] = false; inUse--; pool->returnToPool(x); } for (auto& x : t) x.join(); vp_nosched(1); vp_check(pool->_inUseHandles.empty(), "all-returned"); vp_check(pool->_availableHandles.size() >= 1 && pool->_availableHandles.size() <= vp_param("MAX") - 1, "returned-handles-available"); 
    if (waited) vp_reach("waited"); if (most == 2) vp_reach("second"); delete pool; vp_reach("end");
}
