//VP property: D03
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP override: sha_ideal.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case statements: quick STEPS=3 TEXT=1 BUSY=0 | thorough STEPS=4 TEXT=1 BUSY=0 | reach end replayed denied constraint
//VP case text: quick STEPS=2 TEXT=4 BUSY=0 | thorough STEPS=2 TEXT=6 BUSY=0 | reach end replayed
//VP case busy: quick STEPS=2 TEXT=1 BUSY=2 | thorough STEPS=3 TEXT=1 BUSY=3 | reach end replayed
//VP bound: transactions of at most STEPS statements from 14 kinds; bound text and blobs of at most TEXT arbitrary bytes (text without NUL); at most BUSY transient SQLITE_BUSY results
//VP assume: SQLite behaves as env/sqlite_model.cpp; SQLite's own rendering of bound doubles and of NUL bytes in bound text is outside; a caller rolls back when a write it issued returns false
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <plugins/Compression.h>
#include <libstuff/SQResult.h>
static size_t busy;
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
extern "C" unsigned sleep(unsigned) { return 0; }
extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) { if (!busy || strncmp(sql, "INSERT INTO t", 13) && strncmp(sql, "UPDATE t", 8)) return 0; if (!vp_choice("busy?", 2)) return 0; busy--; return SQLITE_BUSY; }
static bool rewrite(int action, const char* table, string& q) { if (action == SQLITE_INSERT && table && !strcmp(table, "mock")) { q = "INSERT INTO t VALUES ('rewritten', 7);"; return true; } return false; }
static string dump(SQLite& db) {
    string s; SQResult r; for (auto q : {"SELECT name, sql FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'journal%' ORDER BY name;", "SELECT a, b FROM t ORDER BY rowid;", "SELECT k FROM u ORDER BY k;", "SELECT k FROM mock ORDER BY k;"}) { r.clear(); vp_check(!SQuery(db.getDBHandle(), q, r), "dump"); for (auto& row : r) for (size_t i = 0; i < row.size(); i++) s += row[i] + "\x01"; s += "\x02"; } return s;
}
typedef SQLite::Parameter P;
static void replay(SQLite& from, SQLite& to) {
    for (auto& p : from.popCommittedTransactions()) {
        vp_check(to.beginTransaction(), "follower-begin"); vp_check(to.writeUnmodified(BedrockPlugin_Compression::decompress(p.second.first)), "follower-can-replay"); uint64_t id; string h; vp_check(to.prepare(&id, &h), "follower-prepare");
        vp_check(id == p.first && h == p.second.second, "follower-computes-leaders-id-and-hash"); vp_check(to.commit() == SQLITE_OK, "follower-commit");
    }
    vp_check(dump(from) == dump(to), "replayed-database-equals-leaders"); vp_check(from.getCommittedHash() == to.getCommittedHash() && from.getCommitCount() == to.getCommitCount(), "replayed-count-and-hash"); vp_reach("replayed");
}
void vp_main() {
    quiet(); vp_nosched(1); SQLite db("/nonexistent/a.db", 0, 100, 0), fo("/nonexistent/b.db", 0, 100, -1);
    db.setRewriteHandler(rewrite); db.beginTransaction(); db.write("CREATE TABLE t (a TEXT, b INTEGER);"); db.write("CREATE TABLE u (k INTEGER PRIMARY KEY);"); db.write("CREATE TABLE mock (k INTEGER);"); db.write("INSERT INTO u VALUES (1);"); db.write("INSERT INTO t VALUES ('base', 1);"); db.prepare(); db.commit(); replay(db, fo);
    size_t K = vp_param("STEPS"), TEXT = vp_param("TEXT"), only = TEXT > 1 ? 2 : 14; busy = vp_param("BUSY"); bool noop = false; db.beginTransaction();
    for (size_t i = 0; i < K; i++) {
        bool ok = true; string before = !noop || TEXT > 1 ? "" : dump(db); SQResult r; size_t op = vp_choice("op", busy ? 4 : only);
        if (op == 0) { string v = vp_str("text", 0, TEXT); for (char c : v) vp_assume(c != 0); ok = db.write("INSERT INTO t VALUES (:a, :b);", {{":a", P::text(v)}, {":b", P::i(-5)}}); }
        else if (op == 1) ok = db.writeIdempotent("INSERT INTO t (b, a) VALUES (@n, $blob);", {{"$blob", P::blob(vp_str("blob", 0, TEXT))}, {"@n", P::null()}, {":unused", P::i(3)}});
        else if (op == 2) ok = db.write("INSERT INTO t VALUES ('m1', 1); INSERT INTO t VALUES ('m2', :x); UPDATE t SET b = b + 1 WHERE a = :y;", {{":x", P::i(2)}, {":y", P::text("m1")}});
        else if (op == 3) ok = db.write("UPDATE t SET b = b + 1 WHERE a = 'base';");
        else if (op == 4) ok = db.write("DELETE FROM t WHERE b = 1;");
        else if (op == 5) ok = db.write("INSERT OR IGNORE INTO u VALUES (1);");
        else if (op == 6) { try { db.write("INSERT INTO u VALUES (1);"); vp_check(noop, "constraint-violation-throws"); } catch (const SQLite::constraint_error&) { vp_reach("constraint"); } }
        else if (op == 7) { static const char* fn[] = {"random()", "changes()", "last_insert_rowid()", "sqlite_version()", "CURRENT_TIMESTAMP", "current_date", "CURRENT_TIME", "randomblob(4)", "total_changes()"}; ok = db.write("INSERT INTO t VALUES ("s + fn[vp_choice("fn", i ? 1 : 9)] + ", 3);"); if (!noop) { vp_check(!ok, "non-deterministic-function-in-write-is-refused"); vp_reach("denied"); ok = true; } }
        else if (op == 8) { db.setUpdateNoopMode(!noop); noop = !noop; }
        else if (op == 9) { db.enableRewrite(true); ok = db.write("INSERT INTO mock VALUES (4);"); db.enableRewrite(false); }
        else if (op == 10) { ok = db.write("INSERT INTO u VALUES (2) ON CONFLICT (k) DO NOTHING RETURNING k;", r); }
        else if (op == 11) { ok = db.writeIdempotent("REPLACE INTO u VALUES (:k);", {{":k", P::i(vp_int("k", -2, 2))}}); }
        else if (op == 12) { ok = db.write("INSERT INTO t SELECT a, b + 10 FROM t WHERE b > 0 ORDER BY b;"); }
        else { ok = db.write("ALTER TABLE mock ADD COLUMN c INTEGER;") ; if (!ok) { vp_check(i > 0, "alter"); ok = true; } }
        if (!ok) { db.rollback(); if (noop) db.setUpdateNoopMode(false); replay(db, fo); vp_check(vp_param("BUSY") || op == 13, "write-succeeds"); vp_reach("end"); return; }
        if (noop && TEXT == 1 && op != 8 && op != 1 && op != 11) vp_check(dump(db) == before, "write-in-noop-mode-changes-nothing");
    }
    if (noop) db.setUpdateNoopMode(false);
    uint64_t id; string h; vp_check(db.prepare(&id, &h), "prepare"); vp_check(db.commit() == SQLITE_OK, "commit"); replay(db, fo); vp_reach("end");
}
