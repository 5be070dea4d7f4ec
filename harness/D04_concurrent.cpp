//VP property: D04
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp
//VP override: sha_ideal.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case writers: quick MODE=0 --preempt 1 | thorough MODE=0 --preempt 2 | reach end conflict both
//VP case disable: quick MODE=1 --preempt 1 | thorough MODE=1 --preempt 2 | reach end refused both
//VP case block: quick MODE=2 --preempt 1 | thorough MODE=2 --preempt 2 | reach end both
//VP case exclusive: quick MODE=3 --preempt 1 | thorough MODE=3 --preempt 2 | reach end both
//VP bound: two writer threads with one transaction each (retried once on conflict) and one observer or controller thread; at most the stated number of preemptions at lock operations, SQL statements and unlocked shared accesses
//VP assume: SQLite behaves as env/sqlite_model.cpp, with conflicts detected per table
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <libstuff/SQResult.h>
#include <thread>
static SQLite *a, *b, *o; static atomic<int> callbacks{0}; static size_t MODE; static bool done[2], same; static int tries[2]; static string rawq[2], val[2];
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
static void writer(int i) {
    SQLite& db = i ? *b : *a; bool excl = MODE == 3 && i == 0;
    for (tries[i] = 1; tries[i] <= 2; tries[i]++) {
        vp_check(db.beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin");
        SQResult r; vp_check(db.read(same ? "SELECT count(*) FROM t0;" : i ? "SELECT count(*) FROM t1;" : "SELECT count(*) FROM t0;", r), "read");
        vp_check(db.write("INSERT INTO " + string(same || !i ? "t0" : "t1") + " VALUES (" + to_string(i) + ", " + string(r[0][0]) + ", " + SQ(val[i]) + ");"), "write"); rawq[i] = db.getUncommittedQuery();
        uint64_t id; string h; vp_check(db.prepare(&id, &h), "prepare"); vp_check(db.getCommitCount() + 1 == id, "no-commit-by-others-between-prepare-and-commit");
        int rc = db.commit(); if (rc == SQLITE_OK) { done[i] = true; return; }
        vp_check(!excl, "exclusive-transaction-cannot-conflict"); vp_check(rc == SQLITE_BUSY_SNAPSHOT || rc == SQLite::COMMIT_DISABLED, "commit-result"); if (rc == SQLITE_BUSY_SNAPSHOT) vp_reach("conflict"); else vp_reach("refused"); db.rollback();
    }
}
void vp_main() {
    quiet(); vp_nosched(1); MODE = vp_param("MODE"); same = MODE == 0 || MODE == 3 ? vp_bool("sameTable") : false;
    a = new SQLite("/nonexistent/a.db", 0, 100, 1, 0, false, "PASSIVE", {[] { callbacks++; }}); b = new SQLite(*a); o = new SQLite(*a);
    a->beginTransaction(); a->write("CREATE TABLE t0 (w INTEGER, n INTEGER, v TEXT);"); a->write("CREATE TABLE t1 (w INTEGER, n INTEGER, v TEXT);"); a->prepare(); a->commit(); o->popCommittedTransactions(); string h0 = a->getCommittedHash();
    for (auto& v : val) { v = "?"; vp_sym(&v[0], 1, "value"); vp_assume(v[0] >= 'a' && v[0] <= 'z'); }
    std::thread x([] { writer(0); }), y([] { writer(1); }), z; map<uint64_t, pair<string, string>> got; uint64_t seenCount = 1;
    if (MODE == 1) z = std::thread([&] { o->setCommitEnabled(false); uint64_t c = o->getCommitCount(); vp_sched(); vp_sched(); vp_check(o->getCommitCount() == c, "no-commit-completes-while-commits-are-disabled"); SQResult r; SQuery(o->getDBHandle(), "SELECT count(*) FROM journalEntries;", r); vp_check(string(r[0][0]) == to_string(c), "no-commit-reaches-the-database-while-disabled"); o->setCommitEnabled(true); });
    else if (MODE == 2) z = std::thread([&] { o->exclusiveLockDB(); uint64_t c = o->getCommitCount(); vp_sched(); vp_sched(); SQResult r; SQuery(o->getDBHandle(), "SELECT count(*) FROM journalEntries;", r); vp_check(string(r[0][0]) == to_string(c) && o->getCommitCount() == c, "nothing-commits-while-writes-are-blocked"); o->exclusiveUnlockDB(); });
    else z = std::thread([&] { for (int k = 0; k < 2; k++) { auto m = o->popCommittedTransactions(); for (auto& p : m) vp_check(got.insert(p).second, "popped-once"); uint64_t c = o->getCommitCount(); vp_check(c >= seenCount, "commit-count-never-goes-back"); seenCount = c; } });
    vp_nosched(0); x.join(); y.join(); z.join(); vp_nosched(1);
    for (auto& p : o->popCommittedTransactions()) vp_check(got.insert(p).second, "popped-once");
    size_t n = done[0] + done[1]; vp_check(o->getCommitCount() == 1 + n && got.size() == n, "each-commit-counted-and-popped-once"); vp_check((size_t)callbacks == 1 + n, "after-commit-callbacks-run-once-per-commit");
    if (MODE != 1) vp_check(n == 2 || same, "independent-writers-both-commit"); vp_check(n >= 1 || MODE == 1, "some-writer-commits"); if (n == 2) vp_reach("both");
    string prev = h0; uint64_t id = 2; set<string> want; for (int i = 0; i < 2; i++) if (done[i]) want.insert(rawq[i]);
    for (auto& p : got) { vp_check(p.first == id, "ids-consecutive"); string q, h; vp_check(o->getCommit(id, &q, &h), "journaled"); vp_check(q == p.second.first && h == p.second.second && h == SToHex(SHashSHA1(prev + q)), "hash-chain-follows-commit-order"); vp_check(want.erase(q), "journal-holds-the-committed-queries"); prev = h; id++; }
    vp_check(want.empty() && o->getCommittedHash() == prev, "last-hash");
    for (int i = 0; i < 2; i++) { SQResult r; SQuery(o->getDBHandle(), string("SELECT v FROM ") + (same || !i ? "t0" : "t1") + " WHERE w = " + to_string(i) + ";", r); vp_check(r.size() == (done[i] ? 1 : 0) && (!done[i] || string(r[0][0]) == val[i]), "committed-value-is-stored-and-nothing-else"); }
    // Conflicting transactions behave as if they had run one after the other.
    if (same) { SQResult r; SQuery(o->getDBHandle(), "SELECT n FROM t0 ORDER BY n;", r); for (size_t k = 0; k < r.size(); k++) vp_check(string(r[k][0]) == to_string(k), "same-table-transactions-are-serializable"); }
    std::thread t([] { vp_check(o->beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE), "lock-free-at-end"); o->rollback(); }); t.join(); vp_reach("end");
}
