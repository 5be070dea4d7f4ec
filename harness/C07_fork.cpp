//VP property: C07
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case detect: quick MODE=0 PEERS=4 | thorough MODE=0 PEERS=5 | reach end survived matched searching
//VP case ignore: quick MODE=1 PEERS=2 | thorough MODE=1 PEERS=3 | reach end pong
//VP case mute: quick MODE=2 PEERS=3 | thorough MODE=2 PEERS=4 | reach end
//VP case powerless: quick MODE=3 PEERS=1 | thorough MODE=3 PEERS=2 | reach end same
//VP bound: detect: from 1 to PEERS peers, each forked or not and full or permafollower, own configured priority zero or not, and a fork found through LOGIN (any commit count from 0 to 3, one arbitrary hash byte), SYNCHRONIZE_RESPONSE or FORKED in the states where they occur; ignore: any message type in any state, with any headers of the protocol; powerless: one update in SEARCHING, WAITING, SYNCHRONIZING with PEERS peers plus a forked one, compared with the same situation where the forked peer reports something else (any state, priority from -1 to 6, commit count from 0 to 3, latency)
//VP assume: SQLite behaves as env/sqlite_model.cpp; a peer that says FORKED is believed
#include "cluster.h"
static vector<pair<SQLitePeer*, SData>> sent; static vector<SQLitePeer*> dropped; static uint64_t clk = 1700000000000000ull;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) { sent.push_back({p, m}); }
void vp_net_shutdown(SQLitePeer* p) { dropped.push_back(p); }
static SData msg(const string& type, SQLite& db) { SData m(type); m["CommitCount"] = to_string(db.getCommitCount()); m["Hash"] = db.getCommittedHash(); return m; }
static void detect() {
    size_t n = 1 + vp_choice("peers", vp_param("PEERS")); bool perma = vp_choice("permafollower", 2); atomic<int> conf{perma ? 0 : 5}; auto pool = mkPool("/nonexistent/a.db", 2); SQLite& db = pool->getBase();
    SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); node._haveBeenWAITING = node._haveSeenPeerOnSameVersion = true; node._priority = perma ? 0 : 5; size_t full = perma ? 0 : 1, forked = 0; size_t kind = vp_choice("how", 3); bool hisPerma = vp_choice("his", 2);
    SQLitePeer* c = node._peerList[0]; c->permaFollower = hisPerma; c->loggedIn = kind != 0; c->priority = hisPerma ? 0 : 3; c->state = St::FOLLOWING; c->setCommit(0, ""); full += !hisPerma;
    for (size_t i = 1; i < n; i++) { SQLitePeer* p = node._peerList[i]; string t = to_string(i); bool pf = vp_choice(("perma" + t).c_str(), 2), f = vp_choice(("forked" + t).c_str(), 2); p->permaFollower = pf; p->forked = f; p->loggedIn = true; p->state = St::FOLLOWING; p->priority = pf ? 0 : 1; p->setCommit(0, ""); if (!pf) { full++; forked += f; } }
    static const St states[] = {St::SEARCHING, St::WAITING, St::LEADING, St::FOLLOWING, St::SUBSCRIBING, St::SYNCHRONIZING}; St st = kind == 1 ? St::SYNCHRONIZING : states[vp_choice("state", 6)]; if (perma) vp_assume(st != St::LEADING); node._state = st; bool his = kind == 1 || (st >= St::SUBSCRIBING || st == St::SYNCHRONIZING ? kind == 2 && vp_choice("my leader", 2) : false);
    SQLitePeer* other = n > 1 ? node._peerList[1] : c; if (st == St::SYNCHRONIZING) node._syncPeer = his ? c : other; if (st == St::FOLLOWING || st == St::SUBSCRIBING) { node._leadPeer = his ? c : other; node._leadPeer.load()->state = St::LEADING; } if (!his && n == 1 && (node._syncPeer || node._leadPeer)) return;
    SData m; bool fork = true; uint64_t count = 0;
    if (kind == 0) { m = msg("LOGIN", db); m["Priority"] = hisPerma ? "0" : "3"; m["State"] = "FOLLOWING"; m["Version"] = "v"; count = vp_choice("count", 4); m["CommitCount"] = to_string(count); string h = "AB"; if (count && count <= 2) { db.getCommit(count, nullptr, &h); char x; vp_sym(&x, 1, "hash byte"); vp_assume(x != 0); fork = vp_conc(x != h[7]); h[7] = x; } else fork = count == 0; m["Hash"] = h; if (count == 0) { m["Hash"] = ""; fork = false; } }
    else if (kind == 1) { m = msg("SYNCHRONIZE_RESPONSE", db); m["hashMismatchNumber"] = "1"; m["hashMismatchValue"] = "0123"; }
    else m = msg("FORKED", db);
    bool die = fork && forked + !hisPerma >= (full + 1) / 2; if (die) vp_allow_abort(1);
    sent.clear(); node._onMESSAGE(c, m); vp_check(!die, "stops-when-forked-from-half-the-cluster"); vp_check(c->forked == fork, "marked-as-forked-iff-histories-differ"); vp_check(db.getCommitCount() == 2 && !db.insideTransaction(), "database-untouched");
    if (!fork) { vp_check(c->loggedIn && node._state == st, "a-matching-peer-logs-in"); vp_reach("matched"); vp_reach("end"); return; }
    size_t told = 0; for (auto& x : sent) if (x.second.methodLine == "FORKED") { told++; vp_check(x.first == c, "told-the-right-peer"); } if (kind == 0) vp_check(told == 1 && !c->loggedIn, "tells-the-peer-and-does-not-log-it-in");
    if (kind == 2) { vp_check(his ? node._state == St::SEARCHING && !node._leadPeer && !node._syncPeer : node._state == st, "searches-when-its-source-is-forked"); if (his) vp_reach("searching"); }
    if (kind == 1) { node._onDisconnect(c); vp_check(node._state == St::SEARCHING && !node._syncPeer && !dropped.empty(), "gives-up-on-a-forked-sync-peer"); }
    vp_reach("survived"); vp_reach("end"); node._state = St::SEARCHING;
}
static const char* types[] = {"LOGIN", "STATE", "STANDUP_RESPONSE", "SYNCHRONIZE", "SYNCHRONIZE_RESPONSE", "SUBSCRIBE", "SUBSCRIPTION_APPROVED", "TRANSACTION", "FOLLOWER_STATUS", "FORKED", "RECONNECT", "PING", "NONSENSE"};
static void ignoring() {
    size_t n = vp_param("PEERS"); atomic<int> conf{5}; auto pool = mkPool("/nonexistent/a.db", 2); SQLite& db = pool->getBase(); SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); node._haveBeenWAITING = node._haveSeenPeerOnSameVersion = true; node._priority = 5; SQLitePeer *c = node._peerList[0], *o = node._peerList[1]; for (auto p : node._peerList) { p->loggedIn = true; p->priority = 1; p->state = St::FOLLOWING; p->setCommit(2, db.getCommittedHash()); }
    St st = (St)(1 + vp_choice("state", 8)); node._state = st; if (st == St::SYNCHRONIZING) node._syncPeer = o; if (st == St::SUBSCRIBING || st == St::FOLLOWING) node._leadPeer = o; bool in = vp_choice("logged in", 2), sub = vp_choice("subscribed", 2); c->forked = true; c->loggedIn = in; c->subscribed = sub; c->state = St::WAITING;
    size_t k = vp_choice("type", 13); SData m = msg(types[k], db); m["Priority"] = "9"; m["State"] = vp_choice("his state", 2) ? "STANDINGUP" : "LEADING"; m["Version"] = "v"; m["Response"] = "approve"; m["StateChangeCount"] = to_string(node._stateChangeCount); m["NumCommits"] = "1"; m["ID"] = "ASYNC_3"; m["NewCount"] = "3"; m["NewHash"] = "X"; m["leaderSendTime"] = "1"; m["Timestamp"] = "1"; m["CommitCount"] = to_string(vp_choice("count", 4)); SData t("COMMIT"); t["CommitIndex"] = "3"; t["Hash"] = "Y"; t.content = "INSERT INTO t VALUES (7);"; m.content = t.serialize();
    sent.clear(); dropped.clear(); uint64_t cc = c->commitCount; node._onMESSAGE(c, m); bool ping = k == 11;
    vp_check(sent.size() == ping && dropped.empty(), "a-forked-peer-gets-no-answer"); if (ping) { vp_check(sent[0].first == c && sent[0].second.methodLine == "PONG", "but-its-ping"); vp_reach("pong"); }
    vp_check(node._state == st && node._priority == 5 && c->forked && c->loggedIn == in && c->subscribed == sub && c->state == St::WAITING && c->priority == 1 && c->commitCount == cc && c->standupResponse == Rs::NONE, "and-changes-nothing"); vp_check(db.getCommitCount() == 2 && node._replicateQueue.empty() && !node._replicateThread && !node._pendingSynchronizeResponses, "nothing-applied-or-served");
    vp_reach("end"); node._state = St::SEARCHING;
}
static void mute() {
    size_t n = vp_param("PEERS"); atomic<int> conf{5}; auto pool = mkPool("/nonexistent/a.db", 2); SQLite& db = pool->getBase(); SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); vector<bool> f, s; for (auto p : node._peerList) { f.push_back(vp_choice("forked", 2)); s.push_back(vp_choice("subscribed", 2)); p->loggedIn = true; p->forked = f.back(); p->subscribed = s.back(); }
    bool all = vp_choice("all", 2); sent.clear(); SData m("STATE"); size_t w = all ? 0 : vp_choice("one", n); if (all) { bool only = vp_choice("subscribed only", 2); node._sendToAllPeers(m, only); size_t e = 0; for (size_t i = 0; i < n; i++) if (!f[i] && (!only || s[i])) { vp_check(e < sent.size() && sent[e].first == node._peerList[i], "every-other-peer-is-told"); e++; } vp_check(sent.size() == e, "forked-peers-are-told-nothing"); }
    else { node._sendToPeer(node._peerList[w], m); vp_check(sent.size() == !f[w], "forked-peer-is-told-nothing"); } for (auto& x : sent) vp_check(!x.first->forked && x.second["CommitCount"] == "2" && x.second["Hash"] == db.getCommittedHash(), "with-position"); vp_reach("end");
}
// What a forked peer reports does not influence the node: two runs that differ only in that report end the same way.
struct R { int state; int lead, sync; vector<pair<int, string>> out; bool again; };
static void powerless() {
    size_t n = vp_param("PEERS"), k = vp_choice("state", 3); St st = k == 0 ? St::SEARCHING : k == 1 ? St::WAITING : St::SYNCHRONIZING; int prio = (int)vp_int("my priority", 0, 6); struct Q { bool in, perma; int state, prio; uint64_t count; }; vector<Q> q; bool fin = vp_choice("forked peer logged in", 2), fperma = vp_choice("forked perma", 2);
    for (size_t i = 0; i < n; i++) { string t = to_string(i); q.push_back({(bool)vp_choice(("in" + t).c_str(), 2), (bool)vp_choice(("perma" + t).c_str(), 2), (int)vp_conc(vp_range(("state" + t).c_str(), 1, 8)), (int)vp_int(("priority" + t).c_str(), -1, 6), vp_range(("count" + t).c_str(), 0, 3)}); }
    int fs = (int)vp_range("forked state", 0, 8), fp = (int)vp_int("forked priority", -1, 6); uint64_t fc = vp_range("forked count", 0, 3), fl = vp_range("forked latency", 0, 3); bool fsub = vp_bool("forked subscribed"); R r[2];
    for (int run = 0; run < 2; run++) {
        atomic<int> conf{5}; auto pool = mkPool(run ? "/nonexistent/b.db" : "/nonexistent/a.db", 2); SQLiteNode node(server, pool, "me", "", peerNames(n + 1), conf, 1000000, "v"); node._haveBeenWAITING = node._haveSeenPeerOnSameVersion = true; node._priority = prio; node._state = st; node._stateTimeout = clk + 1000000;
        for (size_t i = 0; i < n; i++) { SQLitePeer* p = node._peerList[i]; p->loggedIn = q[i].in; p->permaFollower = q[i].perma; p->state = (St)q[i].state; p->priority = q[i].prio; p->setCommit(q[i].count, ""); p->latency = 1 + i; }
        SQLitePeer* f = node._peerList[n]; f->forked = true; f->loggedIn = fin; f->permaFollower = fperma; f->state = run ? (St)fs : St::WAITING; f->priority = run ? fp : 1; f->setCommit(run ? fc : 0, ""); f->latency = run ? fl : 1; f->subscribed = run ? fsub : false; if (st == St::SYNCHRONIZING) { sent.clear(); node._syncPeer = nullptr; node._updateSyncPeer(); r[run].again = true; } else { sent.clear(); r[run].again = node.update(); }
        vp_check(node._leadPeer != f && node._syncPeer != f, "never-follows-or-synchronises-from-a-forked-peer"); r[run].state = (int)node._state.load(); r[run].lead = r[run].sync = -1; for (size_t i = 0; i < n; i++) { if (node._leadPeer == node._peerList[i]) r[run].lead = i; if (node._syncPeer == node._peerList[i]) r[run].sync = i; } for (auto& x : sent) { int w = -1; for (size_t i = 0; i <= n; i++) if (x.first == node._peerList[i]) w = i; vp_check(w != (int)n, "nothing-sent-to-a-forked-peer"); r[run].out.push_back({w, x.second.methodLine}); } sent.clear(); node._state = St::SEARCHING; node._syncPeer = nullptr; node._leadPeer = nullptr;
    }
    vp_check(r[0].state == r[1].state && r[0].again == r[1].again && r[0].lead == r[1].lead && r[0].sync == r[1].sync && r[0].out == r[1].out, "a-forked-peer-has-no-influence"); vp_reach("same"); vp_reach("end");
}
void vp_main() { quiet(); vp_nosched(1); size_t m = vp_param("MODE"); if (m == 0) detect(); else if (m == 1) ignoring(); else if (m == 2) mute(); else powerless(); }
