//VP property: D06
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case reads: quick STEPS=4 ALL=0 | thorough STEPS=5 ALL=0 | reach end hit partial
//VP case functions: quick STEPS=3 ALL=1 | thorough STEPS=4 ALL=1 | reach end hit partial
//VP bound: sequences of STEPS operations (reads with and without bound parameters, writes, no-op and failing writes, foreign commits, transaction boundaries) over 5 queries, parameter values 0 to 12
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <libstuff/SQResult.h>
static uint64_t clk = 1700000000000000ull;
extern "C" uint64_t vp_now_us() { return clk; }
static string flat(const SQResult& r) { string s; for (auto& h : r.headers) s += h + ","; s += ":"; for (auto& row : r) { for (size_t i = 0; i < row.size(); i++) s += row[i] + "|"; s += ";"; } return s; }
void vp_main() {
    quiet(); vp_nosched(1); SQLite db("/nonexistent/a.db", 0, 100, -1), other(db); db.beginTransaction(); db.write("CREATE TABLE t (a INTEGER, b TEXT);"); db.write("CREATE TABLE u (k INTEGER PRIMARY KEY);"); db.write("INSERT INTO t VALUES (1, 'x');"); db.prepare(); db.commit();
    static const char* q[] = {"SELECT a FROM t;", "SELECT count(*) AS n FROM t;", "SELECT b FROM t WHERE a = :p;", "SELECT random();", "SELECT datetime('now');", "SELECT last_insert_rowid();", "SELECT CURRENT_TIMESTAMP;", "SELECT current_date, current_time;", "SELECT unixepoch('now');", "SELECT total_changes();", "SELECT randomblob(8);"};
    string last; int fresh = 10; map<string, int> seen;
    for (size_t i = 0; i < vp_param("STEPS"); i++) {
        size_t op = vp_choice("op", 8);
        if (op <= 1) {
            size_t k = op == 1 ? 2 : vp_choice("q", vp_param("ALL") ? 11 : 6); map<string, SQLite::Parameter> p; if (op == 1) p[":p"] = SQLite::Parameter::i(vp_int("p", 0, 12));
            SQResult r, w; bool ok = db.read(q[k], p, r); if (k >= 6) { clk += 90061000000ull; ok = db.read(q[k], p, r); } int e = SQuery(db.getDBHandle(), q[k], p, w); vp_check(ok == !e, "read-succeeds-as-the-query-does");
            if (ok && k != 3 && k != 10) vp_check(flat(r) == flat(w), "read-returns-what-the-query-returns-now");
            if (k == 3 || k == 10) { vp_check(r.size() == 1 && r[0][0] != last && r[0][0] != w[0][0], "random-is-never-cached"); last = r[0][0]; } else if (ok && db.insideTransaction() && op == 0 && k < 3 && seen[q[k]]++) vp_reach("hit");
            SQResult empty; vp_check(!db.read("SELECT nosuch FROM t;", empty) && empty.empty(), "failing-query-returns-nothing");
        }
        else if (op == 2) { if (!db.insideTransaction()) continue; string v = to_string(fresh++); vp_check(db.write("INSERT INTO t VALUES (" + v + ", 'w" + v + "');"), "write"); seen.clear(); }
        else if (op == 3) { if (!db.insideTransaction()) continue; db.writeUnmodified("UPDATE t SET a = a + 1 WHERE a > 5; DELETE FROM t WHERE a = 1;"); seen.clear(); }
        else if (op == 7) { if (!db.insideTransaction()) continue; string v = to_string(fresh++); bool c = vp_bool("constraint"); try { vp_check(!db.write("INSERT INTO t VALUES (" + v + ", 'f'); INSERT INTO u VALUES (" + v + "); INSERT INTO " + (c ? "u VALUES (" + v + ");" : "nosuch VALUES (1);")), "write-fails"); } catch (const SQLite::constraint_error&) {} seen.clear(); vp_reach("partial"); }
        else if (op == 4) { string v = to_string(fresh++); other.beginTransaction(); other.write("INSERT INTO t VALUES (" + v + ", 'o');"); other.prepare(); vp_check(other.commit() == SQLITE_OK, "foreign-commit"); }
        else if (op == 5) { clk += 5000000; if (db.insideTransaction()) db.rollback(); else db.beginTransaction(); seen.clear(); }
        else { clk += 7000000; if (db.insideTransaction()) { if (db.prepare() && db.commit() == SQLITE_OK) {} else db.rollback(); seen.clear(); } else { db.beginTransaction(); seen.clear(); } }
    }
    if (db.insideTransaction()) db.rollback(); vp_reach("end");
}
