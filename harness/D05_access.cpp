//VP property: D05
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case codes: quick MODE=0 N=3 | thorough MODE=0 N=4 | reach end allowed denied hidden
//VP case queries: quick MODE=1 N=2 | thorough MODE=1 N=3 | reach end
//VP bound: every action code from 0 to 255 with table, column and pragma names of at most N arbitrary bytes; sequences of N statements from 15 kinds
//VP assume: SQLite behaves as env/sqlite_model.cpp and asks the authorizer as documented
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <libstuff/SQResult.h>
extern "C" int vp_sqlite_auth(sqlite3* c, int code, const char* a, const char* b, const char* d, const char* e);
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
static bool noNul(const string& s) { for (char c : s) if (!c) return false; return true; }
static void codes() {
    size_t N = vp_param("N"); SQLite db("/nonexistent/a.db", 0, 100, -1); string wt = vp_str("wlTable", 1, N), wc = vp_str("wlColumn", 1, 1); vp_assume(noNul(wt) && noNul(wc)); map<string, set<string>> wl; wl[wt].insert(wc); wl["pub"]; db.whitelist = &wl;
    int code = (int)vp_range("code", 0, 255); size_t kind = vp_choice("names", 3); string t = kind == 0 ? vp_str("table", 0, N) : kind == 1 ? "schema_version" : "pub", c = vp_str("column", 0, 1); vp_assume(noNul(t) && noNul(c));
    bool nul2 = vp_bool("noSecond"); if (nul2 && (code == SQLITE_READ)) return;
    int r = vp_sqlite_auth(db.getDBHandle(), code, t.c_str(), nul2 ? nullptr : c.c_str(), "main", nullptr);
    bool ok = code == SQLITE_SELECT || code == SQLITE_ANALYZE || code == SQLITE_FUNCTION || (code == SQLITE_PRAGMA && kind == 1 && nul2), rd = code == SQLITE_READ;
    if (rd) { bool white = t == wt && c == wc; vp_check(r == (white ? SQLITE_OK : SQLITE_IGNORE), "read-allowed-exactly-for-whitelisted-columns"); if (white) vp_reach("allowed"); else vp_reach("hidden"); }
    else if (kind == 0 && code == SQLITE_PRAGMA) vp_check(r == SQLITE_DENY || SToLower(t) == "schema_version", "other-pragmas-are-denied");
    else { vp_check(r == (ok ? SQLITE_OK : SQLITE_DENY), "only-selects-allowed-under-whitelist"); if (ok) vp_reach("allowed"); else vp_reach("denied"); }
    // The custom authorizer can only take rights away.
    bool allow = vp_bool("custom"); int seen = 0; db.setAuthorizer([&](int a, const char*, const char*, const char*, const char*) { seen++; vp_check(a == code, "authorizer-sees-the-action"); return allow; });
    int r2 = vp_sqlite_auth(db.getDBHandle(), code, t.c_str(), nul2 ? nullptr : c.c_str(), "main", nullptr); vp_check(r2 == (allow ? r : SQLITE_DENY) && seen == 1, "custom-authorizer-denial-is-final");
    db.whitelist = nullptr; r2 = vp_sqlite_auth(db.getDBHandle(), code, t.c_str(), nul2 ? nullptr : c.c_str(), "main", nullptr); vp_check(r2 == (allow ? SQLITE_OK : SQLITE_DENY), "without-whitelist-only-the-authorizer-decides");
}
static string all(SQLite& db) { SQResult r; string s; for (auto q : {"SELECT name, sql FROM sqlite_master ORDER BY name;", "SELECT a, b FROM pub;", "SELECT x FROM sec;"}) { r.clear(); vp_check(!SQuery(db.getDBHandle(), q, r), "dump"); for (auto& row : r) for (size_t i = 0; i < row.size(); i++) s += row[i] + "|"; } return s; }
static void queries() {
    SQLite db("/nonexistent/a.db", 0, 100, -1), other(db); db.beginTransaction(); db.write("CREATE TABLE pub (a TEXT, b TEXT);"); db.write("CREATE TABLE sec (x TEXT);"); db.write("INSERT INTO pub VALUES ('open', 'SECRET');"); db.write("INSERT INTO sec VALUES ('SECRET');"); db.prepare(); db.commit();
    map<string, set<string>> wl{{"pub", {"a"}}}; string before = all(other); bool tx = vp_bool("inTransaction"); if (tx) db.beginTransaction();
    static const char* q[] = {"SELECT a FROM pub;", "SELECT b FROM pub;", "SELECT * FROM pub;", "SELECT x FROM sec;", "SELECT (SELECT x FROM sec);", "SELECT a FROM pub WHERE b = 'SECRET';", "SELECT max(b) FROM pub;", "SELECT pub.a, s.x FROM pub, sec s;", "INSERT INTO pub VALUES ('q', 'q');", "UPDATE pub SET a = b;", "DELETE FROM pub;", "DROP TABLE pub;", "CREATE TABLE n (z);", "PRAGMA schema_version;", "PRAGMA query_only = true;", "SELECT a FROM pub UNION SELECT x FROM sec;"};
    // Privileged code may have run the same query in this transaction before the restriction was put in place.
    size_t warm = vp_choice("warm", 3); if (warm) { SQResult r; db.read(q[warm == 1 ? 1 : 3], r); }
    db.whitelist = &wl;
    for (size_t i = 0; i < vp_param("N"); i++) {
        size_t k = vp_choice("q", 16); bool viaWrite = vp_bool("viaWrite"); SQResult r; bool ok = false;
        if (!viaWrite) ok = db.read(q[k], r); else if (tx) { try { ok = db.write(q[k], r); } catch (const SException&) {} } else continue;
        for (auto& row : r) for (size_t c = 0; c < row.size(); c++) vp_check(string(row[c]).find("SECRET") == string::npos, "hidden-column-never-returned");
        if (k == 0) vp_check(ok && r.size() == 1 && r[0][0] == "open", "whitelisted-column-readable");
        if (k >= 8 && k <= 12) vp_check(!ok, "write-refused-under-whitelist");
        if (k == 5) vp_check(r.empty(), "hidden-column-not-usable-in-conditions");
    }
    vp_check(all(other) == before, "nothing-written-under-whitelist"); db.whitelist = nullptr; vp_check(all(db) == before, "nothing-written-in-the-transaction"); if (tx) db.rollback();
}
void vp_main() { quiet(); vp_nosched(1); if (vp_param("MODE")) queries(); else codes(); vp_reach("end"); }
