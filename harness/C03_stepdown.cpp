//VP property: C03
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case step: quick RACE=0 PEERS=2 | thorough RACE=0 PEERS=3 | reach end stays stops
//VP case race: quick RACE=1 PEERS=2 --preempt 2 | thorough RACE=1 PEERS=2 --preempt 3 | reach end committed refused
//VP bound: a leader with 0 to 2 unsent transactions and PEERS peers in any state (flags, priority from -1 to 6, commit count from 0 to 4); one update, disconnection, shutdown request or shutdown-priority change; race: one worker thread committing a transaction while the node stops leading for each of those reasons, at most the stated number of preemptions
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "cluster.h"
#include <thread>
static vector<pair<SQLitePeer*, SData>> sent; static vector<SQLitePeer*> dropped;
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) { sent.push_back({p, m}); }
void vp_net_shutdown(SQLitePeer* p) { dropped.push_back(p); }
struct P { bool in, perma, forked, sub; int prio; uint64_t count; int state; };
static bool trigger(SQLiteNode& node, size_t what) { if (what == 1) { node._peerList[0]->reset(); node._onDisconnect(node._peerList[0]); return true; } if (what == 2) node.beginShutdown(); if (what == 3) node.setShutdownPriority(); node.update(); return what > 1; }
// Every transaction went out exactly once, in order, with its hash and text, to exactly the given peers, and before the node announced that it stopped leading.
static void shipped(SQLiteNode& node, SQLite& db, const vector<bool>& to, uint64_t first, uint64_t last, bool stopped) {
    for (size_t i = 0; i < to.size(); i++) { uint64_t next = first; bool announced = false; for (auto& m : sent) if (m.first == node._peerList[i]) { if (m.second.methodLine == "STATE" && m.second["State"] == "SEARCHING") announced = true; if (m.second.methodLine != "TRANSACTION") continue;
            string q, h; vp_check(to[i], "only-subscribers-get-transactions"); vp_check(!announced, "transactions-precede-the-end-of-leadership"); vp_check(m.second["NewCount"] == to_string(next) && m.second["ID"] == to_string(next), "in-order-once"); vp_check(db.getCommit(next, &q, &h) && m.second["NewHash"] == h && m.second.content == q, "content-and-hash-of-the-commit"); next++; }
        if (to[i]) vp_check(next == last + 1, "every-commit-reaches-every-subscriber"); }
}
void vp_main() {
    quiet(); vp_nosched(1); size_t n = vp_param("PEERS"); atomic<int> conf{5}; bool race = vp_param("RACE");
    auto pool = mkPool("/nonexistent/a.db", 2); SQLite& db = pool->getBase(); SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); node._haveBeenWAITING = node._haveSeenPeerOnSameVersion = true;
    node._priority = 5; node._state = St::STANDINGUP; for (auto p : node._peerList) { p->loggedIn = true; p->priority = 2; p->standupResponse = Rs::APPROVE; } node.update(); vp_check(node._state == St::LEADING && node._lastSentTransactionID == 2, "leads");
    SQLite w(db); size_t k = race ? 0 : vp_choice("unsent", 3); for (size_t i = 0; i < k; i++) { w.beginTransaction(); w.write("INSERT INTO t VALUES (" + to_string(50 + i) + ");"); w.prepare(); vp_check(w.commit() == SQLITE_OK, "commit"); } sent.clear();
    uint64_t mine = 2 + k; vector<P> ps; vector<bool> to; 
    for (size_t i = 0; i < n; i++) { SQLitePeer* p = node._peerList[i]; P s; string t = to_string(i); if (race) s = {true, false, false, i == 0, 2, 0, (int)St::FOLLOWING}; else s = {vp_bool(("in" + t).c_str()), vp_bool(("perma" + t).c_str()), vp_bool(("forked" + t).c_str()), vp_choice(("sub" + t).c_str(), 2) == 1, (int)vp_int(("prio" + t).c_str(), -1, 6), vp_range(("count" + t).c_str(), 0, 4), (int)vp_range(("state" + t).c_str(), 0, 8)};
        p->loggedIn = s.in; p->permaFollower = s.perma; p->forked = s.forked; p->subscribed = s.sub; p->priority = s.prio; p->setCommit(s.count, ""); p->state = (St)s.state; ps.push_back(s); to.push_back(s.sub && !s.forked); }
    size_t what = vp_choice("event", 4);
    if (race) {
        int rc = -1; bool stop = what != 0; if (what == 0) { node._peerList[1]->state = St::WAITING; node._peerList[1]->priority = 6; } if (what == 1) node._peerList[1]->loggedIn = false;
        std::thread x([&] { w.beginTransaction(); vp_check(w.write("INSERT INTO t VALUES (99);"), "write"); if (w.prepare()) { rc = w.commit(); if (rc) w.rollback(); } else w.rollback(); });
        vp_nosched(0); trigger(node, what); vp_nosched(1); bool done = rc == SQLITE_OK; uint64_t upto = db.getCommitCount(); x.join(); (void)stop;
        vp_check(node._state == St::SEARCHING, "stopped-leading"); vp_check(db.getCommitCount() == upto && (!done || upto == 3), "nothing-commits-after-leaving"); vp_check((rc == SQLITE_OK) == (upto == 3), "reported-as-it-happened"); if (what != 1) shipped(node, db, to, 3, upto, true); else shipped(node, db, {false, false}, 3, 2, true);
        vp_check(w.beginTransaction() && w.write("INSERT INTO t VALUES (98);") && w.prepare() && w.commit() == SQLite::COMMIT_DISABLED && db.getCommitCount() == upto, "commits-stay-disabled"); w.rollback();
        if (rc == SQLITE_OK) vp_reach("committed"); else vp_reach("refused"); vp_reach("end"); return;
    }
    trigger(node, what); St now = node._state; vp_check(now == St::LEADING || now == St::SEARCHING, "next-state"); bool stopped = now == St::SEARCHING;
    if (what == 1) { to[0] = false; size_t full = 0, in = 0; for (size_t i = 1; i < n; i++) if (!ps[i].perma) { full++; in += ps[i].in; } vp_check(stopped == (in * 2 < full), "stops-leading-iff-quorum-is-lost"); if (stopped) shipped(node, db, to, 3, mine, true); else vp_check(sent.empty(), "quiet"); }
    else { bool why = what >= 2; for (auto& s : ps) why |= s.state == (int)St::LEADING || (s.state == (int)St::WAITING && (s.prio > 5 || s.count > mine)); vp_check(stopped == why, "stops-leading-iff-it-should"); shipped(node, db, to, 3, mine, stopped); if (what == 2) vp_check(!stopped || dropped.size() == n, "shutdown-closes-connections"); }
    if (stopped) { vp_check(!db._sharedData._commitEnabled, "commits-disabled-after-leading"); for (auto p : node._peerList) vp_check(!p->subscribed, "nobody-stays-subscribed"); w.beginTransaction(); w.write("INSERT INTO t VALUES (98);"); w.prepare(); vp_check(w.commit() == SQLite::COMMIT_DISABLED && db.getCommitCount() == mine, "a-late-commit-is-refused"); w.rollback(); size_t a = 0; for (auto& m : sent) a += m.second.methodLine == "STATE" && m.second["State"] == "SEARCHING"; size_t u = 0; for (auto p : node._peerList) u += !p->forked; vp_check(a == u, "announced"); vp_reach("stops"); }
    else { vp_check(db._sharedData._commitEnabled, "a-leader-may-commit"); for (size_t i = 0; i < n; i++) if (what != 1 || i) vp_check(node._peerList[i]->subscribed == ps[i].sub, "subscriptions-kept"); vp_reach("stays"); }
    vp_reach("end");
}
