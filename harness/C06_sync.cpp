//VP property: C06
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case receive: quick MODE=0 N=3 FAULT=0 | thorough MODE=0 N=4 FAULT=0 | reach end complete partial failed
//VP case faults: quick MODE=0 N=3 FAULT=1 | thorough MODE=0 N=4 FAULT=1 | reach end complete failed
//VP case serve: quick MODE=1 N=4 FAULT=0 | thorough MODE=1 N=6 FAULT=0 | reach end sent nothing mismatch ahead
//VP case batches: quick MODE=2 N=104 FAULT=0 --steps 400000000 | thorough MODE=2 N=207 FAULT=0 --steps 900000000 | reach end
//VP case choose: quick MODE=3 N=3 FAULT=0 | thorough MODE=3 N=4 FAULT=0 | reach end none leader other
//VP bound: receive: a SYNCHRONIZE_RESPONSE or SUBSCRIPTION_APPROVED with up to N commits, at most one of them changed in one field, dropped or repeated, or the count changed; faults: one SQLite error while applying it; serve: a requester with any position from 0 to N and matching or different hash, served while leading with unsent commits or not, while another thread may commit; batches: batches of a whole catch-up of N commits between two nodes; choose: every state, flag, latency from 0 to 3 and commit count from 0 to 4 of N peers
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "cluster.h"
#include <deque>
#include <condition_variable>
static uint64_t clk = 1700000000000000ull; static vector<pair<SQLitePeer*, SData>> sent; static vector<SQLitePeer*> dropped; static function<void(SQLitePeer*, const SData&)> hook;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
static mutex answerMutex; static condition_variable answerSent; static bool answered;
void vp_net_send(SQLitePeer* p, const SData& m) { lock_guard<mutex> lock(answerMutex); sent.push_back({p, m}); if (m.methodLine == "SYNCHRONIZE_RESPONSE") { answered = true; answerSent.notify_all(); } }
void vp_net_shutdown(SQLitePeer* p) { dropped.push_back(p); }
static bool armed; static int faults;
extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) {
    if (!armed || !faults || where != 1) return 0; bool com = !strncmp(sql, "COMMIT", 6); if (!com && !strstr(sql, "INTO t ") && !strstr(sql, "BEGIN") && !strstr(sql, "INTO journal")) return 0;
    if (!vp_choice("fails?", 2)) return 0; faults--; return com ? SQLITE_BUSY_SNAPSHOT : SQLITE_FULL;
}
static void same(SQLite& l, SQLite& f, uint64_t n) {
    vp_check(f.getCommitCount() == n, "exactly-the-valid-prefix-applied"); SQResult a, b; if (n) { SQuery(f.getDBHandle(), "SELECT a FROM t;", b); vp_check(b.size() == n - 1, "rows-match-the-commits"); }
    for (uint64_t i = 1; i <= n; i++) { string q, h, q2, h2; vp_check(l.getCommit(i, &q, &h) && f.getCommit(i, &q2, &h2) && q == q2 && h == h2, "same-transaction-at-every-position"); if (i == n) vp_check(h == f.getCommittedHash(), "hash-of-the-last-commit"); }
    vp_check(!f.insideTransaction() && f.getUncommittedHash().empty() && !f._mutexLocked, "no-transaction-left-open");
}
static void receive() {
    size_t N = vp_param("N"); atomic<int> conf{3}; size_t has = vp_param("FAULT") ? 1 : vp_choice("has", 2) * 2; uint64_t peerHas = has + N; auto lp = mkPool("/nonexistent/a.db", peerHas + 1), fp = mkPool("/nonexistent/b.db", has); SQLite &l = lp->getBase(), &f = fp->getBase();
    SQLiteNode n(server, fp, "me", "", peerNames(2), conf, 1000000, "v"); n._haveBeenWAITING = n._haveSeenPeerOnSameVersion = true; n._priority = 3; for (auto p : n._peerList) { p->loggedIn = true; p->priority = 5; p->setCommit(0, ""); } SQLitePeer *p = n._peerList[0], *o = n._peerList[1];
    bool sub = vp_choice("subscribing", 2); n._state = sub ? St::SUBSCRIBING : St::SYNCHRONIZING; if (sub) n._leadPeer = p; else n._syncPeer = p; p->state = sub ? St::LEADING : St::FOLLOWING; o->state = St::FOLLOWING;
    size_t k = vp_param("FAULT") ? N - 1 : 1 + vp_choice("commits", N), mut = vp_param("FAULT") ? 0 : vp_choice("change", 13), at = mut && mut < 10 ? vp_choice("at", k) : 0; uint64_t good = k; bool count = true;
    string h; l.getCommit(peerHas, nullptr, &h); SData m(sub ? "SUBSCRIPTION_APPROVED" : "SYNCHRONIZE_RESPONSE"); m["CommitCount"] = to_string(peerHas); m["Hash"] = h; m["NumCommits"] = to_string(k);
    for (size_t i = 0; i < k; i++) {
        string q, hh; l.getCommit(has + i + 1, &q, &hh); SData c("COMMIT"); c["CommitIndex"] = to_string(has + i + 1); c["Hash"] = hh; c.content = q;
        if (mut && mut < 10 && i == at) {
            if (mut == 1) c.erase("CommitIndex"); if (mut == 2) c.erase("Hash"); if (mut == 3) c["Hash"] = "ABC"; if (mut == 4) c.content = "INSERT INTO t VALUES (99);"; if (mut == 5) c["CommitIndex"] = "-3"; if (mut == 6) c.methodLine = "TRANSACTION"; if (mut == 7) c.content = "INSERT INTO nowhere VALUES (1);";
            if (mut == 8) { char x; vp_sym(&x, 1, "index"); c["CommitIndex"] = string(1, x); if (vp_conc(x != (char)('0' + has + i + 1))) good = i; } else if (mut == 9) { char x; vp_sym(&x, 1, "hash byte"); c["Hash"] = string(hh).replace(3, 1, string(1, x)); if (vp_conc(x != hh[3])) good = i; } else good = i;
            if (mut == 4 && has + i == 0) good = i; }
        if (mut == 10 && i == 0) { count = false; continue; } // the first commit is missing
        m.content += c.serialize(); if (mut == 11 && i + 1 == k) { m.content += c.serialize(); } // the last one is repeated
    }
    if (mut == 10) good = 0; if (mut == 11) count = false; if (mut == 12) { size_t w = vp_choice("number", 4); if (w == 0) m.erase("NumCommits"); else m["NumCommits"] = w == 1 ? to_string(k + 1) : w == 2 ? to_string(k - 1) : "x"; if (w == 0) good = 0; count = false; }
    bool ok = good == k && count; armed = vp_param("FAULT"); faults = 1; n._onMESSAGE(p, m); armed = false; St to = n._state;
    if (vp_param("FAULT") && !faults) { ok = false; good = f.getCommitCount() - has; vp_check(good < k, "a-failed-commit-is-not-counted"); }
    same(l, f, has + good);
    if (!ok) { vp_check(to == St::SEARCHING && !n._syncPeer && !n._leadPeer && !p->loggedIn && !dropped.empty(), "a-bad-response-drops-the-peer-and-searches"); size_t c = 0; for (auto& x : sent) c += x.second.methodLine == "RECONNECT"; vp_check(c == 1, "peer-told-to-reconnect"); vp_reach("failed"); }
    else if (sub) { vp_check(to == St::FOLLOWING && n._leadPeer == p, "follows-after-subscribing"); vp_reach("complete"); }
    else if (has + k == peerHas) { vp_check(to == St::WAITING && !n._syncPeer, "waits-when-complete"); vp_reach("complete"); }
    else { vp_check(to == St::SYNCHRONIZING && n._syncPeer == p, "asks-for-more"); size_t c = 0; for (auto& x : sent) if (x.second.methodLine == "SYNCHRONIZE") { c++; vp_check(x.first == p && x.second["CommitCount"] == to_string(has + k) && x.second["Hash"] == f.getCommittedHash(), "from-where-it-is"); } vp_check(c == 1, "one-request"); vp_reach("partial"); }
    // whatever happened, the next response brings it up to date
    if (!ok) { n._state = St::SYNCHRONIZING; n._syncPeer = p; p->loggedIn = true; uint64_t c0 = f.getCommitCount(); SData r("SYNCHRONIZE_RESPONSE"); r["CommitCount"] = to_string(peerHas); r["Hash"] = h; r["NumCommits"] = to_string(peerHas - c0); for (uint64_t i = c0 + 1; i <= peerHas; i++) { string q, hh; l.getCommit(i, &q, &hh); SData c("COMMIT"); c["CommitIndex"] = to_string(i); c["Hash"] = hh; c.content = q; r.content += c.serialize(); } n._onMESSAGE(p, r); vp_check(n._state == St::WAITING, "recovers"); same(l, f, peerHas); }
    n._state = St::SEARCHING;
}
// What a node hands to a peer that asks for commits.
static void serve() {
    size_t N = vp_param("N"); atomic<int> conf{3}; auto lp = mkPool("/nonexistent/a.db", N); SQLite& l = lp->getBase(); SQLiteNode n(server, lp, "me", "", peerNames(1), conf, 1000000, "v"); SQLitePeer* p = n._peerList[0]; p->loggedIn = true;
    bool lead = vp_choice("leading", 2); size_t sentUpTo = N; n._state = lead ? St::LEADING : St::FOLLOWING; if (lead) { sentUpTo = N - vp_choice("unsent", 2); n._lastSentTransactionID = sentUpTo; }
    uint64_t at = vp_choice("at", N + 2); bool wrong = at && at <= N && vp_choice("other hash", 2); string h = "x"; if (at && at <= N) l.getCommit(at, nullptr, &h); if (wrong) { char c; vp_sym(&c, 1, "hash byte"); wrong = vp_conc(c != h[5]); h[5] = c; }
    bool all = lead || vp_choice("all", 2); p->setCommit(at, at ? h : ""); if (lead) vp_assume(at <= sentUpTo || at > N); SData r("X"); bool threw = false; try { SQLiteNode::_queueSynchronize(&n, p, l, r, all); } catch (const SException&) { threw = true; }
    vp_check(threw == (at > N), "refuses-only-a-peer-that-is-ahead"); if (threw) { vp_check(r.content.empty(), "nothing-handed-out"); vp_reach("ahead"); vp_reach("end"); return; }
    if (wrong) { vp_check(r.content.empty() && !r.isSet("NumCommits") && r["hashMismatchNumber"] == to_string(at) && r.isSet("hashMismatchValue"), "a-forked-peer-gets-no-commits"); vp_reach("mismatch"); vp_reach("end"); return; }
    vp_check(!r.isSet("hashMismatchNumber") && r["NumCommits"] == to_string(sentUpTo - at), "the-rest-and-nothing-more"); string s = r.content; uint64_t i = at; while (!s.empty()) { SData c; int k = c.deserialize(s); vp_check(k > 0, "well-formed"); s.erase(0, k); i++; string q, hh; l.getCommit(i, &q, &hh); vp_check(c.methodLine == "COMMIT" && c["CommitIndex"] == to_string(i) && c["Hash"] == hh && c.content == q, "each-commit-in-order-with-hash-and-text"); }
    vp_check(i == sentUpTo, "complete"); if (at == sentUpTo) vp_reach("nothing"); else vp_reach("sent"); vp_reach("end");
}
static void batches() {
    size_t N = vp_param("N"), has = vp_choice("has", 3) * 2; atomic<int> c1{3}, c2{3}; auto lp = mkPool("/nonexistent/a.db", N), fp = mkPool("/nonexistent/b.db", has); SQLite &l = lp->getBase(), &f = fp->getBase();
    SQLiteNode n(server, fp, "me", "", peerNames(1), c1, 1000000, "v"), m(server, lp, "p0", "", "h9:15009?nodeName=me", c2, 1000000, "v"); n._haveBeenWAITING = m._haveBeenWAITING = true; SQLitePeer *p = n._peerList[0], *q = m._peerList[0]; p->loggedIn = q->loggedIn = true; p->priority = 5; p->state = St::WAITING; string h; l.getCommit(N, nullptr, &h); p->setCommit(N, h); m._state = St::WAITING; n._priority = 1; sent.clear();
    n.update(); vp_check(n._state == St::SYNCHRONIZING, "starts"); int rounds = 0; size_t i = 0;
    while (n._state == St::SYNCHRONIZING && rounds < 6) { SData x("?"); for (; i < sent.size(); i++) if (sent[i].first == p && sent[i].second.methodLine == "SYNCHRONIZE") x = sent[i].second; vp_check(x.methodLine == "SYNCHRONIZE", "asks"); rounds++; uint64_t before = f.getCommitCount();
        answered = false; m._onMESSAGE(q, x); { unique_lock<mutex> lock(answerMutex); answerSent.wait(lock, [] { return answered; }); } while (m._pendingSynchronizeResponses) this_thread::sleep_for(1ms); SData a("?"); for (; i < sent.size(); i++) if (sent[i].first == q && sent[i].second.methodLine == "SYNCHRONIZE_RESPONSE") a = sent[i].second; vp_check(a.methodLine == "SYNCHRONIZE_RESPONSE", "one-answer"); n._onMESSAGE(p, a); vp_check(f.getCommitCount() > before, "every-round-makes-progress"); }
    vp_check(n._state == St::WAITING, "synchronised"); same(l, f, N); vp_reach("end"); n._state = m._state = St::SEARCHING;
}
static void choose() {
    size_t N = vp_param("N"); atomic<int> conf{3}; auto fp = mkPool("/nonexistent/b.db", 2); SQLiteNode n(server, fp, "me", "", peerNames(N), conf, 1000000, "v"); struct Q { bool in, forked; int state; uint64_t count, lat; }; vector<Q> qs;
    for (size_t i = 0; i < N; i++) { SQLitePeer* p = n._peerList[i]; string t = to_string(i); Q q{vp_bool(("in" + t).c_str()), vp_bool(("forked" + t).c_str()), (int)vp_range(("state" + t).c_str(), 0, 8), vp_range(("count" + t).c_str(), 0, 4), vp_range(("latency" + t).c_str(), 0, 3)}; p->loggedIn = q.in; p->forked = q.forked; p->state = (St)q.state; p->setCommit(q.count, ""); p->latency = q.lat; qs.push_back(q); }
    n._syncPeer = nullptr; n._updateSyncPeer(); SQLitePeer* c = n._syncPeer; int ci = -1; for (size_t i = 0; i < N; i++) if (n._peerList[i] == c) ci = i; bool any = false, other = false; 
    auto usable = [&](Q& q) { return q.in && !q.forked && q.count > 2; }; for (auto& q : qs) if (usable(q)) { any = true; if (!leadingish(q.state)) other = true; }
    vp_check((c != nullptr) == any, "a-sync-peer-iff-one-has-more-commits"); if (!c) { vp_reach("none"); vp_reach("end"); return; }
    Q& b = qs[ci]; vp_check(usable(b), "sync-peer-is-connected-unforked-and-ahead"); vp_check(leadingish(b.state) == !other, "the-leader-only-when-there-is-no-other"); if (leadingish(b.state)) { vp_reach("leader"); vp_reach("end"); return; }
    for (auto& q : qs) if (usable(q) && !leadingish(q.state)) { vp_check(!(q.lat && (!b.lat || q.lat < b.lat)), "the-fastest-peer"); if (q.lat == b.lat) vp_check(q.count <= b.count, "the-freshest-of-equals"); } vp_reach("other"); vp_reach("end");
}
void vp_main() { quiet(); vp_nosched(1); size_t m = vp_param("MODE"); if (m == 0) { receive(); vp_reach("end"); } else if (m == 1) serve(); else if (m == 2) batches(); else choose(); }
