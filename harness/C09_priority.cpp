//VP property: C09
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case change: quick MODE=0 PEERS=2 | thorough MODE=0 PEERS=3 | reach end refused changed deferred same stepdown search
//VP case announce: quick MODE=1 PEERS=2 | thorough MODE=1 PEERS=3 | reach end
//VP case report: quick MODE=2 PEERS=2 | thorough MODE=2 PEERS=3 | reach end same lower higher
//VP bound: change: any new priority from -2 to 6, any current and configured priority from -1 to 6, any state, PEERS peers with any priority from 0 to 6, state and flags; announce: what is sent to a peer that connects, in every state; report: a peer that announces any other priority while the node is in any state
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "cluster.h"
static vector<pair<SQLitePeer*, SData>> sent; static vector<SQLitePeer*> dropped; static uint64_t clk = 1700000000000000ull;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) { sent.push_back({p, m}); }
void vp_net_shutdown(SQLitePeer* p) { dropped.push_back(p); }
static void change() {
    size_t n = vp_param("PEERS"); int want = (int)vp_int("new priority", -2, 6), prio = (int)vp_int("my priority", -1, 6), confd = (int)vp_int("configured", 0, 6); atomic<int> conf{confd}; auto pool = mkPool("/nonexistent/a.db", 1); SQLite& db = pool->getBase(); SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); St st = (St)(1 + vp_choice("state", 8)); node._state = st; node._priority = prio; if (st == St::SYNCHRONIZING) node._syncPeer = node._peerList[0]; if (st == St::SUBSCRIBING || st == St::FOLLOWING) node._leadPeer = node._peerList[0];
    struct Q { bool in, perma; int prio, state; }; vector<Q> q; int full = 0; bool used = false, better = false; 
    for (size_t i = 0; i < n; i++) { SQLitePeer* p = node._peerList[i]; string t = to_string(i); Q x{vp_bool(("in" + t).c_str()), vp_bool(("perma" + t).c_str()), (int)vp_int(("priority" + t).c_str(), -1, 6), (int)vp_range(("state" + t).c_str(), 0, 8)}; p->loggedIn = x.in; p->permaFollower = x.perma; p->priority = x.prio; p->state = (St)x.state; q.push_back(x); }
    for (auto& x : q) { full += !x.perma; if (x.in && want > 0 && x.prio == want) used = true; if (x.in && x.prio > want && x.state == (int)St::FOLLOWING) better = true; }
    bool bad = want < 0 || want == 1 || used || (want == 0 && prio > 0 && full < (int)(n + 2) / 2); sent.clear(); dropped.clear(); int old = -99; bool threw = false; try { old = node.setPriority(want); } catch (const SException&) { threw = true; }
    vp_check(threw == bad, "refuses-exactly-the-impossible-priorities"); int c = conf, now = node._priority; St to = node._state;
    if (bad) { vp_check(c == confd && now == prio && to == st && sent.empty(), "a-refused-change-has-no-effect"); vp_reach("refused"); vp_reach("end"); return; }
    vp_check(old == confd && c == want && dropped.empty(), "configured-priority-set-and-old-one-returned"); if (want == confd) { vp_check(now == prio && to == st && sent.empty(), "no-change-no-effect"); vp_reach("same"); vp_reach("end"); return; }
    if (prio == -1 || prio == 1) { vp_check(now == prio && to == st && sent.empty(), "a-node-that-is-not-ready-keeps-its-priority"); vp_reach("deferred"); vp_reach("end"); return; }
    vp_check(now == want, "priority-set"); bool leads = st == St::FOLLOWING && q[0].in && q[0].state == (int)St::LEADING && q[0].prio < want; St exp = st == St::LEADING && better ? St::STANDINGDOWN : leads ? St::SEARCHING : st; vp_check(to == exp, "gives-way-to-a-better-follower-and-replaces-a-worse-leader");
    vector<int> told(n, 0); for (auto& x : sent) for (size_t i = 0; i < n; i++) if (x.first == node._peerList[i] && x.second.methodLine == "STATE") { if (!told[i]++) vp_check(SToInt(x.second["Priority"]) == want && x.second["State"] == SQLiteNode::stateName(st), "announces-the-new-priority-first"); if (st != exp && told[i] == 2) vp_check(x.second["State"] == SQLiteNode::stateName(exp), "then-the-new-state"); } for (size_t i = 0; i < n; i++) vp_check(told[i] == (st == exp ? 1 : 2), "every-peer-is-told");
    vp_check(db.getCommitCount() == 1, "database-untouched"); vp_reach(exp == st ? "changed" : exp == St::STANDINGDOWN ? "stepdown" : "search"); vp_reach("end"); node._state = St::SEARCHING;
}
// What a node tells a peer that connects; what a peer may believe about who it is.
static void announce() {
    size_t n = vp_param("PEERS"); int prio = (int)vp_conc((uint64_t)(vp_int("my priority", -1, 6) + 1)) - 1, confd = vp_choice("configured", 2) * 5; atomic<int> conf{confd}; auto pool = mkPool("/nonexistent/a.db", 1 + vp_choice("commits", 2)); SQLite& db = pool->getBase(); SQLiteNode node(server, pool, "me", "addr", peerNames(n), conf, 1000000, "vers"); St st = (St)(1 + vp_choice("state", 8)); node._state = st; node._priority = prio; for (auto p : node._peerList) p->loggedIn = false; SQLitePeer* c = node._peerList[vp_choice("peer", n)]; sent.clear(); node._onConnect(c);
    vp_check(sent.size() == 1 && sent[0].first == c, "one-login"); SData& m = sent[0].second; vp_check(m.methodLine == "LOGIN" && m["Name"] == "me" && m["Priority"] == to_string(prio) && m["State"] == SQLiteNode::stateName(st) && m["Version"] == "vers" && m["Permafollower"] == (confd ? "false" : "true") && m["CommitCount"] == to_string(db.getCommitCount()) && m["Hash"] == db.getCommittedHash() && SQLiteNode::stateFromName(m["State"]) == st, "introduces-itself-truthfully");
    // and the other side records it
    atomic<int> c2{7}; auto pool2 = mkPool("/nonexistent/b.db", 1); SQLiteNode other(server, pool2, "p0", "", "h9:15009?nodeName=me", c2, 1000000, "vers"); other._priority = 7; other._haveSeenPeerOnSameVersion = vp_choice("seen", 2); other._haveBeenWAITING = vp_choice("waited", 2); other._priority = other._haveSeenPeerOnSameVersion && other._haveBeenWAITING ? 7 : -1; bool learn = !other._haveSeenPeerOnSameVersion && other._haveBeenWAITING; SQLitePeer* q = other._peerList[0]; dropped.clear(); other._onMESSAGE(q, m);
    vp_check(q->priority == prio && q->permaFollower == (prio == 0) && q->state == st && string(q->version.load()) == "vers" && q->commitCount == db.getCommitCount() && other._haveSeenPeerOnSameVersion, "peer-recorded-as-it-introduced-itself"); if (learn) vp_check(other._priority == 7 && dropped.size() == 1, "ready-once-it-has-seen-its-own-version"); else if (st != St::STANDINGUP) vp_check(other._priority == (other._haveBeenWAITING ? 7 : -1) && dropped.empty() && q->loggedIn, "otherwise-unchanged"); vp_reach("end"); node._state = other._state = St::SEARCHING;
}
static void report() {
    size_t n = vp_param("PEERS"); int prio = (int)vp_int("my priority", 2, 6); atomic<int> conf{prio}; auto pool = mkPool("/nonexistent/a.db", 1); SQLite& db = pool->getBase(); SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); node._haveBeenWAITING = node._haveSeenPeerOnSameVersion = true; node._priority = prio; St st = (St)(1 + vp_choice("state", 8)); node._state = st; for (auto p : node._peerList) { p->loggedIn = true; p->priority = 9; p->setCommit(1, db.getCommittedHash()); p->state = St::WAITING; } SQLitePeer *c = node._peerList[0], *o = node._peerList[1]; if (st == St::SYNCHRONIZING) node._syncPeer = o; if (st == St::SUBSCRIBING || st == St::FOLLOWING) { node._leadPeer = o; o->state = St::LEADING; }
    St cs = vp_choice("his state", 2) ? St::FOLLOWING : St::WAITING; c->state = cs; int his = (int)vp_conc((uint64_t)(vp_int("priority", -1, 6) + 1)) - 1; SData m("STATE"); m["CommitCount"] = "1"; m["Hash"] = db.getCommittedHash(); m["State"] = SQLiteNode::stateName(cs); m["Priority"] = to_string(his); m["StateChangeCount"] = "3"; sent.clear(); node._onMESSAGE(c, m); vp_check(c->priority == his && c->permaFollower == (his == 0) && c->state == cs && c->loggedIn, "recorded"); vp_check(node._priority == prio && node._state == st && conf == prio && o->priority == 9, "nothing-else-changes"); vp_reach(his == prio ? "same" : his < prio ? "lower" : "higher"); vp_reach("end"); node._state = St::SEARCHING;
}
void vp_main() { quiet(); vp_nosched(1); size_t m = vp_param("MODE"); if (m == 0) change(); else if (m == 1) announce(); else report(); }
