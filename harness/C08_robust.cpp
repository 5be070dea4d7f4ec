//VP property: C08
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case header: quick BYTES=1 SECOND=0 | thorough BYTES=2 SECOND=0 | reach end kept rejected
//VP case then: quick BYTES=1 SECOND=1 | thorough BYTES=1 SECOND=2 | reach end kept rejected
//VP bound: one message of any type the protocol knows (or another) with all its headers, of which one is missing, empty, huge, negative or BYTES arbitrary bytes, or with a damaged payload, from the leader, the sync peer or another peer, logged in or not, to a node in every state; then: two updates and SECOND ordinary messages afterwards
//VP assume: SQLite behaves as env/sqlite_model.cpp; proof of a fork with half the cluster (C07) and a replicated transaction that cannot be applied (C05) stop the node by design
#include "cluster.h"
#include <condition_variable>
static uint64_t clk = 1700000000000000ull; static vector<pair<SQLitePeer*, SData>> sent; static vector<SQLitePeer*> dropped; static mutex sendMutex; static condition_variable sendCV;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) { lock_guard<mutex> l(sendMutex); sent.push_back({p, m}); sendCV.notify_all(); }
void vp_net_shutdown(SQLitePeer* p) { dropped.push_back(p); }
struct T { const char* name; vector<const char*> headers; };
static const vector<T> types = { {"LOGIN", {"Priority", "State", "Version"}}, {"STATE", {"State", "Priority", "StateChangeCount"}}, {"STANDUP_RESPONSE", {"StateChangeCount", "Response"}}, {"SYNCHRONIZE", {}}, {"SYNCHRONIZE_RESPONSE", {"NumCommits", "hashMismatchNumber", "hashMismatchValue", "ShuttingDown"}}, {"SUBSCRIBE", {}}, {"SUBSCRIPTION_APPROVED", {"NumCommits"}}, {"TRANSACTION", {"ID", "NewCount", "NewHash", "leaderSendTime", "dbCountAtStart"}}, {"FOLLOWER_STATUS", {}}, {"FORKED", {}}, {"RECONNECT", {"Reason"}}, {"PING", {"Timestamp"}}, {"PONG", {"Timestamp"}}, {"", {}} };
static SData build(const T& t, SQLite& l, uint64_t has) {
    SData m(t.name); m["CommitCount"] = "3"; m["Hash"] = l.getCommittedHash(); for (auto h : t.headers) m[h] = !strcmp(h, "State") ? "WAITING" : !strcmp(h, "Response") ? "approve" : !strcmp(h, "Version") ? "v" : !strcmp(h, "ID") ? "ASYNC_3" : !strcmp(h, "NewHash") ? l.getCommittedHash() : !strcmp(h, "NumCommits") ? "1" : "3"; m.erase("hashMismatchNumber"); m.erase("hashMismatchValue"); m.erase("ShuttingDown");
    string q, h; l.getCommit(3, &q, &h); if (!strcmp(t.name, "TRANSACTION")) m.content = q; if (m.isSet("NumCommits")) { SData c("COMMIT"); c["CommitIndex"] = "3"; c["Hash"] = h; c.content = q; m.content = c.serialize(); } return m;
}
void vp_main() {
    quiet(); vp_nosched(1); atomic<int> conf{5}; auto lp = mkPool("/nonexistent/l.db", 3), pool = mkPool("/nonexistent/a.db", 2); SQLite &l = lp->getBase(), &db = pool->getBase(); string hash = db.getCommittedHash();
    { SQLiteNode node(server, pool, "me", "", peerNames(4), conf, 1000000, "v"); node._haveBeenWAITING = node._haveSeenPeerOnSameVersion = true; node._priority = 5; size_t i = 0; for (auto p : node._peerList) { p->loggedIn = true; p->priority = ++i; p->state = St::FOLLOWING; p->setCommit(2, hash); p->version = "v"; }
    SQLitePeer *p = node._peerList[0], *o = node._peerList[3]; St st = (St)(1 + vp_choice("state", 8)); bool role = vp_choice("my peer", 2), in = vp_choice("logged in", 2); node._state = st; node._stateTimeout = clk + 10000000; node._lastSentTransactionID = 2;
    SQLitePeer* src = role ? p : o; if (st == St::SYNCHRONIZING) { node._syncPeer = src; src->setCommit(3, l.getCommittedHash()); } else if (st == St::SUBSCRIBING || st == St::FOLLOWING) { node._leadPeer = src; src->state = St::LEADING; src->priority = 9; src->setCommit(3, l.getCommittedHash()); } p->loggedIn = in; if (!in) p->setCommit(0, "");
    size_t k = vp_choice("type", types.size()); const T& t = types[k]; SData m = build(t, l, 2); vector<string> hs(t.headers.begin(), t.headers.end()); hs.push_back("CommitCount"); hs.push_back("Hash"); hs.push_back("commandAddress"); hs.push_back(""); string h = hs[vp_choice("header", hs.size())];
    if (h.empty()) { size_t w = vp_choice("payload", 4); if (w == 1) m.content.clear(); if (w == 2) m.content = m.content.substr(0, m.content.size() / 2); if (w == 3) m.content += string("\0\n\r", 3) + "COMMIT\r\n"; }
    else { size_t w = vp_choice("value", 5); if (w == 0) m.erase(h); else if (w == 1) m[h] = ""; else if (w == 2) m[h] = "99999999999999999999"; else if (w == 3) m[h] = "-1"; else { string v(vp_param("BYTES"), 0); vp_sym(&v[0], v.size(), "bytes"); m[h] = v; } }
    uint64_t before = db.getCommitCount(); if (k == 7 && st == St::FOLLOWING) vp_allow_abort(1); sent.clear(); node._onMESSAGE(p, m);
    { unique_lock<mutex> lk(sendMutex); if (node._pendingSynchronizeResponses) sendCV.wait(lk, [] { return !sent.empty(); }); } while (node._pendingSynchronizeResponses) this_thread::sleep_for(1ms);
    vp_check(dropped.empty() || (dropped.size() <= 4), "bounded"); bool rejected = !dropped.empty(); vp_reach(rejected ? "rejected" : "kept");
    uint64_t now = db.getCommitCount(); bool may = in && ((st == St::SYNCHRONIZING && k == 4) || (st == St::SUBSCRIBING && k == 6) || (st == St::FOLLOWING && k == 7)) && (role || k == 7);
    vp_check(now == before || (may && now == before + 1 && db.getCommittedHash() == l.getCommittedHash()), "data-changes-only-by-a-valid-transaction-of-the-right-peer"); if (now == before) vp_check(db.getCommittedHash() == hash, "hash-unchanged");
    vp_check(k == 7 && st == St::FOLLOWING || !db.insideTransaction(), "nothing-left-open"); vp_check(node._state >= St::SEARCHING && node._state <= St::FOLLOWING, "a-valid-state"); vp_check(node._state != St::LEADING || st == St::LEADING, "no-message-makes-a-leader"); vp_check(k == 0 || k == 1 || k == 9 || p->permaFollower == false, "role-kept");
    size_t others = 0; for (auto d : dropped) others += d != p; for (auto& x : sent) if (x.second.methodLine == "RECONNECT" && x.first != p) others++; if (!leadingish((int)st) && k != 0) vp_check(others == 0 || (src == o && !in && 0) || st == St::SYNCHRONIZING || st == St::SUBSCRIBING, "other-peers-stay-connected");
    if (vp_param("SECOND")) for (size_t s = 0; s < vp_param("SECOND"); s++) { if (k != 7) for (int u = 0; u < 2; u++) node.update(); SData f = build(types[8], l, 2); node._onMESSAGE(o, f); vp_check(k == 7 || !db.insideTransaction(), "nothing-left-open-later"); }
    if (node._replicateThread) { lock_guard<mutex> lk(node._replicateMutex); } node._state = node._state == St::FOLLOWING ? St::FOLLOWING : St::SEARCHING; if (node._state == St::FOLLOWING) { clk += 30000000; node._changeState(St::SEARCHING); } }
    vp_reach("end");
}
