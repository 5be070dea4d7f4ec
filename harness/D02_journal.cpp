//VP property: D02
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP override: sha_ideal.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case history: quick STEPS=3 MAXJ=100 DICT=1 SYM=0 PRE=0 | thorough STEPS=4 MAXJ=100 DICT=1 SYM=0 PRE=0 | reach end committed
//VP case trim: quick STEPS=3 MAXJ=1 DICT=0 SYM=0 PRE=2 | thorough STEPS=4 MAXJ=2 DICT=0 SYM=0 PRE=3 | reach end committed trimmed
//VP case text: quick STEPS=1 MAXJ=100 DICT=1 SYM=2 PRE=0 | thorough STEPS=2 MAXJ=100 DICT=1 SYM=2 PRE=0 | reach end committed
//VP bound: at most STEPS operations (commit by either handle, blank commit, rollback, conflict, pop, restart) after PRE commits; statement text of at most SYM arbitrary bytes; up to 3 journal tables
//VP assume: SQLite behaves as env/sqlite_model.cpp, zstd as env/zstd_model.cpp; SHA-1 as a collision-free function
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <plugins/Compression.h>
#include <libstuff/SQResult.h>
static bool conflict;
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) { if (conflict && where && !strncmp(sql, "COMMIT", 6)) { conflict = false; return SQLITE_BUSY_SNAPSHOT; } return 0; }
struct C { string q, h; };
static vector<C> log_; static map<uint64_t, pair<string, string>> popped;
static void pop(SQLite& db) { for (auto& p : db.popCommittedTransactions()) vp_check(popped.insert(p).second, "transaction-popped-twice"); }
static void record(SQLite& db, const string& raw, uint64_t id, const string& hash) {
    string prev = log_.empty() ? "" : log_.back().h; log_.push_back({raw, SToHex(SHashSHA1(prev + raw))});
    vp_check(hash == log_.back().h, "hash-chains-from-previous-hash-and-text"); vp_check(id == log_.size(), "commit-ids-are-consecutive");
    vp_check(db.getCommitCount() == log_.size() && db.getCommittedHash() == log_.back().h, "commit-count-and-hash-are-of-the-last-commit"); vp_reach("committed");
}
static void tx(SQLite& db, const string& sql, const map<string, SQLite::Parameter>& p) {
    vp_check(db.beginTransaction(), "begin"); if (!sql.empty()) vp_check(db.write(sql, p), "write");
    string raw = db.getUncommittedQuery(); uint64_t id = 0; string h; vp_check(db.prepare(&id, &h), "prepare"); vp_check(db.getUncommittedHash() == h, "uncommitted-hash-is-the-prepared-one"); vp_check(BedrockPlugin_Compression::decompress(db.getUncommittedQuery()) == raw, "shipped-text-decompresses-to-the-journaled-text");
    vp_check(db.commit() == SQLITE_OK, "commit"); record(db, raw, id, h);
}
void vp_main() {
    quiet(); vp_nosched(1); int gen = 0, journals = 0; size_t MAXJ = vp_param("MAXJ"), firstPop = 0;
    auto a = make_unique<SQLite>("/nonexistent/vp.db", 0, MAXJ, journals); auto b = make_unique<SQLite>(*a);
    tx(*a, "CREATE TABLE t (a TEXT);", {});
    if (vp_param("DICT")) { tx(*a, "CREATE TABLE zstdDictionaries (dictionaryID INTEGER PRIMARY KEY, description TEXT, dictionary BLOB);", {}); tx(*b, "INSERT INTO zstdDictionaries VALUES (1, 'd', 'F'), (2, 'd', 'G');", {}); BedrockPlugin_Compression::loadDictionariesFromDB(*a); }
    for (uint64_t i = 0; i < vp_param("PRE"); i++) tx(*a, "INSERT INTO t VALUES ('p');", {});
    size_t K = vp_param("STEPS"), SYM = vp_param("SYM"); int n = 0;
    for (size_t i = 0; i < K; i++) {
        size_t op = SYM ? vp_choice("op", 2) : vp_choice("op", 7);
        SQLite& db = op == 1 ? *b : *a;
        if (op <= 1) {
            if (vp_param("DICT")) SQLite::journalZstdDictionaryID.store(vp_choice("dict", 3));
            if (SYM) { tx(db, "INSERT INTO t VALUES (:v);", {{":v", SQLite::Parameter::text(vp_str("v", 1, SYM))}}); }
            else tx(db, "INSERT INTO t VALUES ('" + to_string(n++) + "');", {});
        } else if (op == 2) tx(*b, "", {});
        else if (op == 3 || op == 4) { db.beginTransaction(); db.write("INSERT INTO t VALUES ('lost');"); vp_check(db.prepare(), "prepare"); if (op == 4) { conflict = true; vp_check(db.commit() == SQLITE_BUSY_SNAPSHOT, "conflict"); } db.rollback(); }
        else if (op == 5) pop(*a);
        else { // Restart: all handles close, shared state is rebuilt from the file, possibly with more journal tables.
            pop(*a); a.reset(); b.reset(); if (journals == 0) journals = vp_choice("journals", 2); a = make_unique<SQLite>("/nonexistent/vp.db#" + to_string(++gen), 0, MAXJ, journals); b = make_unique<SQLite>(*a);
        }
        vp_check(a->getCommitCount() == log_.size() && b->getCommittedHash() == log_.back().h, "commit-count-and-hash-survive");
    }
    pop(*a); vp_check(popped.size() == log_.size() - firstPop, "every-commit-is-popped-once");
    size_t kept = 0;
    for (uint64_t id = 1; id <= log_.size(); id++) {
        auto it = popped.find(id); vp_check(it != popped.end() && it->second.second == log_[id - 1].h && BedrockPlugin_Compression::decompress(it->second.first) == log_[id - 1].q, "popped-transaction-is-the-committed-one");
        string q, h; bool have = b->getCommit(id, &q, &h);
        if (id + MAXJ > log_.size()) vp_check(have, "recent-commits-are-never-trimmed");
        if (have) { kept++; vp_check(h == log_[id - 1].h && q == log_[id - 1].q, "journal-returns-each-commit-intact"); string h2; vp_check(b->getCommit(id, nullptr, &h2) && h2 == h, "journal-hash-only"); }
    }
    if (kept < log_.size()) vp_reach("trimmed");
    vp_check(!b->getCommit(log_.size() + 1) && !b->getCommit(0), "no-commit-beyond-the-last");
    uint64_t lo = log_.size() > MAXJ ? log_.size() - MAXJ + 1 : 1, from = lo + vp_choice("from", log_.size() - lo + 1), to = from + vp_choice("to", log_.size() - from + 2); bool open = to == log_.size() + 1;
    SQResult r; vp_check(a->getCompressedCommits(from, open ? 0 : to, r) == 0, "range-query"); if (open) to = log_.size();
    vp_check(r.size() == to - from + 1, "range-has-every-commit-once");
    for (size_t i = 0; i < r.size(); i++) vp_check(r[i][0] == log_[from - 1 + i].h && BedrockPlugin_Compression::decompress(r[i][1]) == log_[from - 1 + i].q, "range-is-in-commit-order");
    vp_reach("end");
}
