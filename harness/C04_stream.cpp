//VP property: C04
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case subscribe: quick STEPS=5 START=0 | thorough STEPS=6 START=0 | reach end following applied
//VP case stream: quick STEPS=5 START=1 | thorough STEPS=6 START=1 | reach end following applied lost stepdown
//VP bound: one leader and one follower, STEPS operations in any order out of: commit on the leader, leader update, delivery of one message in either direction, follower applying its queue, follower update, connection loss, leader stepping down; the follower starts waiting with 0 to 2 of the leader's commits, or following
//VP assume: SQLite behaves as env/sqlite_model.cpp; messages of one connection arrive in order or not at all
#include "cluster.h"
#include <deque>
static SQLiteNode *L, *F; static deque<SData> toL, toF; static bool cutL, cutF; static bool up = true; static uint64_t clk = 1700000000000000ull;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) { if (!L || !F || !up) return; if (p == L->_peerList[0]) toF.push_back(m); else toL.push_back(m); }
void vp_net_shutdown(SQLitePeer* p) { if (L && p == L->_peerList[0]) cutL = true; else cutF = true; }
static SQLite *ldb, *fdb;
static void drain() { if (F->_state != St::FOLLOWING || F->_replicateQueue.empty()) return; F->_replicateThreadShouldExitTime = clk + 1000000; try { F->_replicate(); } catch (const SException& e) { vp_fail("replication-failed"); } F->_replicateThreadShouldExitTime = 0; vp_reach("applied"); }
struct Own { Own() { F->_replicateThread = nullptr; } ~Own() { if (F->_state == St::FOLLOWING) F->_replicateThread = (thread*)1; } }; // the harness runs the replication loop itself
static void lead() { if (L->_state == St::LEADING) L->update(); } // once it stopped leading the leader stays as it is
static void agree() {
    uint64_t l = ldb->getCommitCount(), f = fdb->getCommitCount(); vp_check(f <= l, "follower-has-nothing-the-leader-lacks");
    for (uint64_t i = 1; i <= f; i++) { string q, h, q2, h2; vp_check(ldb->getCommit(i, &q, &h) && fdb->getCommit(i, &q2, &h2) && q == q2 && h == h2, "same-transaction-at-every-position"); }
    string h; if (f) { fdb->getCommit(f, nullptr, &h); vp_check(h == fdb->getCommittedHash(), "hash-of-the-last-commit"); } vp_check(!fdb->insideTransaction() && fdb->getUncommittedHash().empty(), "nothing-half-applied");
    SQResult a, b; if (f) { SQuery(fdb->getDBHandle(), "SELECT a FROM t;", b); vp_check(b.size() == f - 1, "rows-match-the-commits"); }
}
static void lost() { up = false; toL.clear(); toF.clear(); L->_peerList[0]->reset(); L->_onDisconnect(L->_peerList[0]); drain(); { Own o; F->_peerList[0]->reset(); F->_onDisconnect(F->_peerList[0]); } vp_check(F->_state == St::SEARCHING && !F->_leadPeer && F->_replicateQueue.empty(), "follower-searches-after-losing-the-leader"); vp_reach("lost"); }
static void give(bool leader) {
    SQLiteNode* n = leader ? L : F; deque<SData>& q = leader ? toL : toF; if (q.empty()) return; SData m = q.front(); q.pop_front(); if (!leader && m.methodLine != "TRANSACTION") drain();
    { Own o; if (!leader && m.methodLine == "TRANSACTION" && F->_state == St::FOLLOWING) F->_replicateThread = (thread*)1; n->_onMESSAGE(n->_peerList[0], m); } if (cutL || cutF) lost();
}
void vp_main() {
    quiet(); vp_nosched(1); atomic<int> c1{5}, c2{3}; size_t has = vp_param("START") ? 2 : vp_choice("commits", 3); auto lp = mkPool("/nonexistent/a.db", 2), fp = mkPool("/nonexistent/b.db", has); ldb = &lp->getBase(); fdb = &fp->getBase();
    L = new SQLiteNode(server, lp, "L", "", "h1:15001?nodeName=F", c1, 1000000, "v"); F = new SQLiteNode(server, fp, "F", "", "h0:15000?nodeName=L", c2, 1000000, "v"); SQLitePeer *pf = L->_peerList[0], *pl = F->_peerList[0]; for (auto n : {L, F}) n->_haveBeenWAITING = n->_haveSeenPeerOnSameVersion = true;
    L->_priority = 5; F->_priority = 3; pf->loggedIn = pl->loggedIn = true; pf->priority = 3; pl->priority = 5; pf->setCommit(has, has ? fdb->getCommittedHash() : ""); pl->setCommit(2, ldb->getCommittedHash()); pf->standupResponse = Rs::APPROVE; L->_state = St::STANDINGUP; L->update(); pl->state = St::LEADING; pf->state = St::WAITING; pf->subscribed = false; F->_state = St::WAITING; toF.clear(); toL.clear();
    SQLite w(*ldb); int v = 10; bool down = false; { Own o; F->update(); } vp_check(F->_state == St::SUBSCRIBING && !toL.empty(), "subscribes");
    if (vp_param("START")) { while (!toL.empty() || !toF.empty()) { give(true); give(false); } vp_check(F->_state == St::FOLLOWING && pf->subscribed, "following"); }
    for (size_t k = 0; k < vp_param("STEPS"); k++) {
        size_t op = vp_choice("op", 8);
        if (op == 0) { if (L->_state != St::LEADING || !w.beginTransaction()) vp_stop(); w.write("INSERT INTO t VALUES (" + to_string(v++) + ");"); w.prepare(); vp_check(w.commit() == SQLITE_OK, "leader-commit"); }
        else if (op == 1) lead();
        else if (op == 2) { if (toF.empty()) vp_stop(); give(false); }
        else if (op == 3) { if (toL.empty()) vp_stop(); give(true); }
        else if (op == 4) { if (F->_replicateQueue.empty()) vp_stop(); drain(); }
        else if (op == 5) { if (F->_state != St::FOLLOWING || pl->state == St::LEADING) vp_stop(); drain(); Own o; F->update(); }
        else if (op == 6) { if (!up || !vp_param("START")) vp_stop(); lost(); }
        else { if (down || !up || !vp_param("START")) vp_stop(); down = true; L->setShutdownPriority(); }
        agree();
    }
    // let everything arrive
    for (int r = 0; r < 8 && up; r++) { lead(); while (up && (!toL.empty() || !toF.empty())) { give(true); give(false); } drain(); }
    agree(); if (up && F->_state == St::FOLLOWING) { vp_check(fdb->getCommitCount() == ldb->getCommitCount(), "follower-catches-up-with-every-commit"); vp_reach("following"); }
    if (down && up) { vp_check(L->_state == St::SEARCHING, "stepped-down"); if (F->_state == St::FOLLOWING) { Own o; F->update(); } vp_check(F->_state == St::SEARCHING && fdb->getCommitCount() == ldb->getCommitCount(), "follower-has-every-commit-when-the-leader-steps-down"); vp_reach("stepdown"); }
    vp_reach("end");
}
