//VP property: C05
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case fields: quick MSGS=3 FAULT=0 | thorough MSGS=4 FAULT=0 | reach end applied refused ignored
//VP case faults: quick MSGS=3 FAULT=1 | thorough MSGS=4 FAULT=1 | reach end applied refused
//VP bound: MSGS TRANSACTION messages, each taken from the leader's next four positions with at most one field missing, replaced or with one arbitrary byte; a node in any state; faults: one SQLite error at BEGIN, the replicated statement, the journal insert or COMMIT (conflict)
//VP assume: SQLite behaves as env/sqlite_model.cpp; a failed application ends the follower (an exception leaves the replication thread)
#include "cluster.h"
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) {}
void vp_net_shutdown(SQLitePeer* p) {}
static bool armed; static int faults;
extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) {
    if (!armed || !faults || where != 1) return 0; bool com = !strncmp(sql, "COMMIT", 6); if (!com && !strstr(sql, "INTO t ") && !strstr(sql, "BEGIN") && !strstr(sql, "INTO journal")) return 0;
    if (!vp_choice("fails?", 2)) return 0; faults--; return com ? SQLITE_BUSY_SNAPSHOT : SQLITE_FULL;
}
static void same(SQLite& l, SQLite& f, uint64_t n) {
    armed = false; vp_check(f.getCommitCount() == n, "exactly-the-valid-transactions-applied"); SQResult a, b; SQuery(f.getDBHandle(), "SELECT a FROM t;", b); vp_check(b.size() == n - 1, "rows-match-the-commits");
    for (uint64_t i = 1; i <= n; i++) { string q, h, q2, h2; vp_check(l.getCommit(i, &q, &h) && f.getCommit(i, &q2, &h2) && q == q2 && h == h2, "same-transaction-at-every-position"); if (i == n) vp_check(h == f.getCommittedHash(), "hash-of-the-last-commit"); }
    string q; vp_check(!f.getCommit(n + 1, &q, nullptr), "nothing-beyond");
}
void vp_main() {
    quiet(); vp_nosched(1); atomic<int> conf{3}; auto lp = mkPool("/nonexistent/a.db", 6), fp = mkPool("/nonexistent/b.db", 2); SQLite &l = lp->getBase(), &f = fp->getBase();
    SQLiteNode n(server, fp, "me", "", peerNames(1), conf, 1000000, "v"); n._haveBeenWAITING = n._haveSeenPeerOnSameVersion = true; n._priority = 3; SQLitePeer* p = n._peerList[0]; p->loggedIn = true; p->priority = 5; p->state = St::LEADING; p->setCommit(6, l.getCommittedHash());
    St st = vp_param("FAULT") ? St::FOLLOWING : (St)(1 + vp_choice("state", 8)); n._state = st; if (st == St::FOLLOWING || st == St::SUBSCRIBING) n._leadPeer = p; n._replicateThread = (thread*)1; n._replicateThreadShouldExitTime = 0; faults = 1;
    uint64_t at = 2; bool dead = false; size_t good = 0;
    for (size_t k = 0; k < (st == St::FOLLOWING ? vp_param("MSGS") : 1); k++) {
        bool odd = !vp_param("FAULT") && st == St::FOLLOWING; uint64_t pos = !odd ? at + 1 : 2 + vp_choice("position", 4); string q, h; l.getCommit(pos, &q, &h); SData m("TRANSACTION"); m["CommitCount"] = "6"; m["Hash"] = l.getCommittedHash(); m["leaderSendTime"] = "5"; m["ID"] = to_string(pos); m["NewCount"] = to_string(pos); m["NewHash"] = h; m.content = q;
        size_t mut = odd ? vp_choice("change", 10) : 0; bool valid = pos == at + 1 && st == St::FOLLOWING && !dead, changed = false;
        if (mut == 1) { m.erase("ID"); changed = true; } if (mut == 2) { m.erase("NewCount"); changed = true; } if (mut == 3) { m.erase("NewHash"); changed = true; }
        if (mut == 4) { char c; vp_sym(&c, 1, "count"); m["NewCount"] = string(1, c); valid = valid && vp_conc(c == '0' + (char)pos); }
        if (mut == 5) { char c; vp_sym(&c, 1, "hash byte"); size_t at_ = vp_choice("at", 3) * (h.size() - 1) / 2; string x = h; x[at_] = c; m["NewHash"] = x; valid = valid && vp_conc(c == h[at_]); }
        if (mut == 6) { m.content = "INSERT INTO t VALUES (77);"; changed = true; } if (mut == 7) { m.content = "INSERT INTO nowhere VALUES (1);"; changed = true; } if (mut == 8) { m.content = ""; changed = true; } if (mut == 9) { m["NewHash"] = h.substr(0, h.size() - 1); changed = true; }
        if (changed) valid = false;
        bool threw = false; n._onMESSAGE(p, m); if (st != St::FOLLOWING) { vp_check(n._replicateQueue.empty() && n._state == st, "only-a-follower-applies"); same(l, f, 2); vp_reach("ignored"); continue; }
        vp_check(n._replicateQueue.size() == 1, "queued"); armed = vp_param("FAULT"); n._replicateThreadShouldExitTime = 1700000001000000ull; try { n._replicate(); } catch (const SException&) { threw = true; } n._replicateThreadShouldExitTime = 0; armed = false;
        if (vp_param("FAULT")) { vp_check(threw == (faults == 0), "an-error-stops-replication"); valid = !threw; } else vp_check(threw == !valid, "applied-iff-it-is-the-next-transaction-and-gives-the-leaders-hash");
        if (valid) { at++; good++; vp_reach("applied"); } else { vp_reach("refused"); } same(l, f, at); if (threw) break;
    }
    n._replicateThread = nullptr; n._state = St::SEARCHING; vp_reach("end");
}
