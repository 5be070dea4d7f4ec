//VP property: D07
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP override: quiet_timing.cpp
//VP threads: yes
//VP case limits: quick MODE=0 STEPS=4 | thorough MODE=0 STEPS=5 | reach end timeout abort ontime
//VP case lock: quick MODE=1 STEPS=0 --preempt 3 | thorough MODE=1 STEPS=0 --preempt 4 | reach end refused aborted waited
//VP bound: sequences of STEPS operations; every SQL statement takes any time from 1 to 3 ms and the limit is any value from 1 us to 10 ms (longer ones only add slow-query log lines); the commit-lock timeout is 2.5 s or any value from 0 to 10 ms; the progress handler runs or does not run during a statement; one other thread holding the commit lock
//VP assume: SQLite behaves as env/sqlite_model.cpp; an expired timed wait advances the clock to its deadline
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <libstuff/SQResult.h>
#include <thread>
#include <condition_variable>
static bool armed; static uint64_t clk = 1700000000000000ull; static atomic<bool> flag{false}; static bool mayAbort;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" void vp_timed_out(const timespec* t) { uint64_t d = (uint64_t)t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000; if (d > clk) clk = d; }
extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) { if (armed && where == 1 && (strstr(sql, "INTO t ") || strstr(sql, "FROM t;"))) { clk += vp_range("took", 1000, 3000); if (mayAbort && vp_bool("abort now")) flag = true; } return 0; }
extern "C" int vp_sqlite_progress() { return armed ? vp_bool("progress?") : 0; }
static string content(SQLite& db) { bool a = armed; armed = false; SQResult r; string s; SQuery(db.getDBHandle(), "SELECT a FROM t;", r); for (auto& x : r) s += x[0] + ","; armed = a; return s; }
static void limits() {
    SQLite db("/nonexistent/a.db", 0, 100, -1), other(db); db.beginTransaction(); db.write("CREATE TABLE t (a INTEGER);"); db.prepare(); db.commit();
    bool set = false, ref = false; uint64_t start = 0, limit = 0; armed = true; int next = 1;
    for (size_t i = 0; i < vp_param("STEPS"); i++) {
        size_t op = vp_choice("op", 6);
        if (op == 0) { limit = vp_range("limit", 1, 9999); db.setTimeout(limit); start = clk; set = true; }
        else if (op == 1) { db.clearTimeout(); set = false; }
        else if (op == 2) { ref = !ref; flag = vp_bool("flag"); mayAbort = ref && !flag; if (ref) db.setAbortRef(flag); else { db.clearAbortRef(); flag = false; } }
        else if (op == 3) { if (db.insideTransaction()) db.rollback(); else db.beginTransaction(); }
        else {
            if (op == 5 && !db.insideTransaction()) continue;
            int out = 0; uint64_t e = 0; string before = content(other), v = to_string(next++); SQResult r;
            try { bool ok = op == 4 ? db.read("SELECT a FROM t;", r) : db.write("INSERT INTO t VALUES (" + v + "); INSERT INTO t VALUES (" + v + ");"); vp_check(ok, "only-timeouts-and-aborts-fail"); }
            catch (const SQLite::timeout_error& x) { out = 1; e = x.time(); } catch (const SException& x) { out = 2; vp_check(SStartsWith(x.what(), "499") || sqlite3_get_autocommit(db.getDBHandle()), "abort-error"); }
            bool late = set && clk > start + limit, ab = ref && flag;
            if (sqlite3_get_autocommit(db.getDBHandle()) && db.insideTransaction() && !out) vp_fail("an-interrupted-write-is-not-reported-as-done");
            vp_check(out == 0 || late || ab, "no-timeout-before-the-limit-and-no-abort-without-request"); vp_check(!(late || ab) || out, "late-or-aborted-queries-fail");
            if (out == 1) { vp_check(late && e > limit && e <= clk - start, "timeout-reports-elapsed-time"); vp_reach("timeout"); } else if (out == 2) vp_reach("abort"); else if (set) vp_reach("ontime");
            vp_check(content(other) == before, "nothing-committed"); if (out && op == 5) { db.rollback(); vp_check(content(db) == before, "rolled-back"); }
        }
    }
    if (db.insideTransaction()) db.rollback(); db.clearTimeout(); db.clearAbortRef(); clk += 100000000; flag = true; mayAbort = false;
    vp_check(db.beginTransaction() && db.write("INSERT INTO t VALUES (77);") && db.prepare() && db.commit() == SQLITE_OK && content(other) == "77,", "usable-without-limit-afterwards"); vp_reach("end");
}
static SQLite *a, *b; static atomic<bool> held{false}; static bool refused = false;
static void lockwait() {
    a = new SQLite("/nonexistent/a.db", 0, 100, -1); b = new SQLite(*a); a->beginTransaction(); a->write("CREATE TABLE t (a INTEGER);"); a->prepare(); a->commit();
    uint64_t T = vp_choice("long", 2) ? 2500000 : vp_range("timeout", 0, 9999); bool forever = vp_bool("held for long"), useFlag = vp_bool("abortable"); static bool release = false; static mutex m; static condition_variable cv; 
    std::thread x([&] { b->exclusiveLockDB(); held = true; vp_sched(); if (useFlag) flag = true; if (forever) { unique_lock<mutex> l(m); while (!release) cv.wait(l); } b->exclusiveUnlockDB(); });
    a->beginTransaction(); SQResult r; vp_check(a->read("SELECT a FROM t;", r), "read"); a->_uncommittedQuery = ""; uint64_t start = clk;
    vp_nosched(0); bool ok = a->prepare(nullptr, nullptr, chrono::microseconds(T), useFlag ? &flag : nullptr); vp_nosched(1); bool was = flag;
    vp_check(!a->_shouldAbortPtr, "abort-reference-dropped"); if (!ok) { vp_check(clk >= start + T || (useFlag && was), "refused-only-after-the-timeout-or-an-abort"); vp_check(!a->_mutexLocked, "refused-prepare-holds-no-lock"); a->rollback(); if (useFlag && was && clk < start + T) vp_reach("aborted"); else vp_reach("refused"); }
    else { if (clk > start) vp_reach("waited"); vp_check(a->commit() == SQLITE_OK, "commit"); }
    { lock_guard<mutex> l(m); release = true; } cv.notify_all(); x.join();
    std::thread y([] { vp_check(b->beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE) && b->prepare() && b->commit() == SQLITE_OK, "nothing-left-locked"); }); y.join();
    vp_check(a->beginTransaction() && a->prepare() && a->commit() == SQLITE_OK, "usable-afterwards"); vp_reach("end");
}
void vp_main() { quiet(); vp_nosched(1); if (vp_param("MODE")) lockwait(); else limits(); }
