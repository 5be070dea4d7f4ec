//VP property: D01
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case faults: quick STEPS=4 FAULTS=1 | thorough STEPS=5 FAULTS=2 | reach end committed rolledback
//VP case nofault: quick STEPS=4 FAULTS=0 | thorough STEPS=6 FAULTS=0 | reach end committed
//VP bound: sequences of at most STEPS operations on one handle, at most FAULTS injected SQLite errors, all combinations
//VP assume: SQLite behaves as env/sqlite_model.cpp; process aborts on failed internal assertions are deliberate
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <thread>
static bool armed; static size_t faults; static uint64_t clk = 1700000000000000ull;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) {
    if (!armed || !faults || !where) return 0;
    bool user = strstr(sql, "INTO t ") || strstr(sql, "FROM t;"), begin = strstr(sql, "BEGIN"), jr = strstr(sql, "INTO journal"), com = !strncmp(sql, "COMMIT", 6);
    if (!user && !begin && !jr && !com) return 0;
    if (!vp_choice("fault?", 2)) return 0;
    faults--;
    if (com) return SQLITE_BUSY_SNAPSHOT;
    if (begin) return SQLITE_IOERR;
    switch (vp_choice("code", 4)) { case 0: return SQLITE_BUSY_SNAPSHOT; case 1: return SQLITE_IOERR; case 2: return SQLITE_CONSTRAINT; default: return SQLITE_FULL | 1 << 24; }
}
struct Disarm { bool a = armed; Disarm() { armed = false; } ~Disarm() { armed = a; } };
static string content(SQLite& db) { Disarm d;  SQResult r; string s; SQuery(db.getDBHandle(), "SELECT a FROM t;", r); for (auto& x : r) s += x[0] + ","; s += "|"; SQResult j; SQuery(db.getDBHandle(), "SELECT query FROM journalEntries ORDER BY id;", j); for (auto& x : j) s += x[0]; return s; }
void vp_main() {
    quiet(); vp_allow_abort(1); vp_nosched(1);
    SQLite db("/nonexistent/vp.db", 0, 1000, 0); SQLite other(db);
    db.beginTransaction(); db.write("CREATE TABLE t (a INTEGER);"); db.prepare(); db.commit();
    size_t K = vp_param("STEPS"); faults = vp_param("FAULTS"); armed = true;
    string mine, model = content(other); uint64_t commits = 1; string hash = db.getCommittedHash(); int next = 1; bool prepared = false, dirty = false;
    vector<string> want, pend; 
    for (size_t i = 0; i < K; i++) {
        size_t op = vp_choice("op", 8);
        if (op <= 1) { bool was = db.insideTransaction(); bool ok = false, threw = false; try { ok = db.beginTransaction(op ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED); } catch (const SException&) { threw = true; }
            vp_check(!was || threw, "begin-inside-transaction-is-refused"); vp_check(!was || !db.insideTransaction(), "refused-begin-leaves-no-transaction"); vp_check(ok == db.insideTransaction(), "begin-result"); pend.clear(); prepared = dirty = false; }
        else if (op == 2) { string v = to_string(next++); bool ok = false; try { ok = db.write("INSERT INTO t VALUES (" + v + ");"); } catch (const SException&) { vp_check(!db.insideTransaction() || sqlite3_get_autocommit(db.getDBHandle()), "write-refused-inside-transaction"); } catch (const SQLite::constraint_error&) { } catch (const SQLite::timeout_error&) { ok = false; dirty = true; } if (ok) { pend.push_back(v); } }
        else if (op == 3) { db.setTimeout(1000000); armed = false; clk += 2000000; bool t = false; if (db.insideTransaction()) { try { db.write("INSERT INTO t VALUES (99);"); } catch (const SQLite::timeout_error&) { t = true; } catch (const SException&) { t = sqlite3_get_autocommit(db.getDBHandle()); } vp_check(t, "timed-out-write-throws"); dirty = true; } else { SQResult r; try { db.read("SELECT a FROM t;", r); } catch (const SQLite::timeout_error&) { t = true; } vp_check(t, "timed-out-read-throws"); } db.clearTimeout(); armed = true; }
        else if (op == 4) { SQResult r; bool in = db.insideTransaction(); bool ok = db.read("SELECT a FROM t;", r); if (ok && !dirty && in) vp_check(r.size() == want.size() + pend.size(), "reads-see-own-writes-and-committed-rows"); }
        else if (op == 5) { if (!db.insideTransaction() || prepared || dirty) continue; uint64_t id = 0; string h; bool ok = db.prepare(&id, &h); vp_check(!ok || id == commits + 1, "prepared-id-follows-last-commit"); prepared = ok; if (!ok) { db.rollback(); pend.clear(); } }
        else if (op == 6) { if (!prepared) continue; int rc = db.commit(); vp_check(rc == SQLITE_OK || rc == SQLITE_BUSY_SNAPSHOT, "commit-result"); if (rc == SQLITE_OK) { for (auto& p : pend) want.push_back(p); commits++; vp_check(!db.insideTransaction(), "commit-ends-transaction"); hash = db.getCommittedHash(); model = content(other); vp_reach("committed"); } else { vp_check(db.insideTransaction(), "conflicted-commit-awaits-rollback"); db.rollback(); vp_reach("rolledback"); } pend.clear(); prepared = dirty = false; }
        else { db.rollback(); pend.clear(); prepared = dirty = false; vp_check(!db.insideTransaction(), "rollback-ends-transaction"); }
        if (db.insideTransaction() && sqlite3_get_autocommit(db.getDBHandle())) dirty = true;
        vp_check(db.getCommitCount() == commits && db.getCommittedHash() == hash, "commit-count-and-hash-change-only-on-commit");
        vp_check(content(other) == model, "database-changes-only-on-commit");
    }
    armed = false; db.rollback(); vp_check(!db.insideTransaction() && db.getUncommittedQuery().empty() && db.getUncommittedHash().empty(), "rollback-cleans-handle");
    vp_check(sqlite3_get_autocommit(db.getDBHandle()), "rollback-ends-sqlite-transaction");
    SQResult rr; vp_check(db.read("SELECT random();", rr) && rr.size() == 1, "handle-reads-anything-after-rollback");
    string exp; for (auto& w : want) exp += w + ","; vp_check(content(other).substr(0, exp.size() + 1) == exp + "|", "committed-rows-are-exactly-those-of-committed-transactions");
    // Nothing is left locked: another thread can run an exclusive transaction, and this handle can be used again.
    std::thread t([&] { vp_check(other.beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE), "other-begin"); vp_check(other.write("INSERT INTO t VALUES (1000);"), "other-write"); vp_check(other.prepare(), "other-prepare"); vp_check(other.commit() == SQLITE_OK, "other-commit"); });
    t.join();
    vp_check(db.beginTransaction() && db.write("INSERT INTO t VALUES (1001);") && db.prepare() && db.commit() == SQLITE_OK && db.getCommitCount() == commits + 2, "handle-usable-after-rollback");
    vp_reach("end");
}
