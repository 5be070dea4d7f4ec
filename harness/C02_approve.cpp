//VP property: C02
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case state: quick LOGIN=0 PEERS=3 | thorough LOGIN=0 PEERS=4 | reach end approve deny stepdown reset
//VP case login: quick LOGIN=1 PEERS=2 | thorough LOGIN=1 PEERS=3 | reach end approve deny stepdown reset duplicate forked
//VP bound: one announcement (STATE or LOGIN with state STANDINGUP, any priority from -1 to 6, any commit count from 0 to 3 with a matching or different hash) from one of PEERS peers to a node in any state with any own priority; every flag, priority, state and subscription of the peers arbitrary
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "cluster.h"
static vector<pair<SQLitePeer*, SData>> sent; static vector<SQLitePeer*> dropped;
extern "C" uint64_t vp_now_us() { return 1700000000000000ull; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) { sent.push_back({p, m}); }
void vp_net_shutdown(SQLitePeer* p) { dropped.push_back(p); }
void vp_main() {
    quiet(); vp_nosched(1); size_t n = vp_param("PEERS"); bool login = vp_param("LOGIN"); atomic<int> conf{5}; uint64_t mine = 2;
    auto pool = mkPool("/nonexistent/a.db", mine); SQLite& db = pool->getBase(); SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); node._haveBeenWAITING = node._haveSeenPeerOnSameVersion = true;
    St st = (St)(1 + vp_choice("my state", 8)); int prio = (int)vp_int("my priority", -1, 6); node._state = st; node._priority = prio; if (st == St::SYNCHRONIZING) node._syncPeer = node._peerList[n - 1]; if (st == St::SUBSCRIBING || st == St::FOLLOWING) node._leadPeer = node._peerList[n - 1];
    struct Q { bool perma, sub; int state; }; vector<Q> q;
    for (size_t i = 0; i < n; i++) { SQLitePeer* p = node._peerList[i]; string t = to_string(i); Q x{vp_bool(("perma" + t).c_str()), vp_bool(("sub" + t).c_str()), i ? (int)vp_range(("state" + t).c_str(), 0, 8) : (int)St::WAITING}; p->loggedIn = i ? vp_bool(("in" + t).c_str()) : !login; p->permaFollower = x.perma; p->subscribed = x.sub; p->state = (St)x.state; p->setCommit(0, ""); p->priority = 3; q.push_back(x); }
    SQLitePeer* c = node._peerList[0]; int his = (int)vp_int("priority", -1, 6); int shown = (int)vp_conc((uint64_t)(his + 1)) - 1; uint64_t count = vp_choice("count", 4); bool same = count > mine || !vp_choice("other hash", 2); string h; if (count <= mine && count) db.getCommit(count, nullptr, &h); if (!same) h = "0000";
    SData m(login ? "LOGIN" : "STATE"); m["CommitCount"] = to_string(count); m["Hash"] = h; m["State"] = "STANDINGUP"; m["Priority"] = to_string(shown); m["Version"] = "v"; m["StateChangeCount"] = "17"; int cc = node._stateChangeCount; sent.clear(); dropped.clear();
    bool forked = login && !same, dup = login && prio > 1 && shown == prio, perma = shown == 0;
    if (forked && n <= 2) vp_allow_abort(1);
    node._onMESSAGE(c, m); St to = node._state; size_t resp = 0, yes = 0, no = 0;
    for (auto& x : sent) if (x.second.methodLine == "STANDUP_RESPONSE") { resp++; vp_check(x.first == c, "answer-goes-to-the-candidate"); vp_check(x.second["StateChangeCount"] == "17", "answer-names-the-attempt"); if (SIEquals(x.second["Response"], "approve")) yes++; else if (SIEquals(x.second["Response"], "deny")) no++; }
    vp_check(yes + no <= 1 && resp <= 1, "one-answer");
    if (dup) { vp_check(!resp && !c->loggedIn && dropped.size() == 1 && dropped[0] == c && to == st, "same-priority-is-rejected"); vp_reach("duplicate"); vp_reach("end"); return; }
    if (forked) { vp_check(!yes && c->forked && !c->loggedIn, "forked-candidate-is-not-approved"); vp_reach("forked"); vp_reach("end"); return; }
    bool reset = false; { int f = 0, u = 0; for (size_t i = 0; i < n; i++) if (i ? !q[i].perma : !perma) { f++; u += q[i].sub; } reset = !perma && leadingish((int)st) && shown <= prio && u * 2 < f; }
    vp_check(c->loggedIn != reset && c->priority == shown && c->permaFollower == perma && c->state == St::STANDINGUP && c->commitCount == count, "announcement-recorded");
    bool lead = leadingish((int)st), other = false; for (size_t i = 1; i < n; i++) other |= leadingish(q[i].state);
    int full = 0, subs = 0; for (size_t i = 0; i < n; i++) { bool pf = i ? q[i].perma : perma; if (!pf) { full++; subs += q[i].sub; } }
    vp_check((yes == 1) == (!perma && !lead && !other), "approves-iff-a-full-peer-and-nobody-else-leads-or-stands-up");
    if (perma) vp_check(no && to == st, "permafollowers-never-lead");
    else if (lead && shown > prio) { vp_check(!yes, "never-approves-while-leading"); vp_check(to == (st == St::STANDINGUP ? St::SEARCHING : St::STANDINGDOWN), "yields-to-a-higher-priority"); if (to != st) vp_reach("stepdown"); }
    else if (lead) { vp_check(no, "denied-by-the-leader"); bool maj = subs * 2 >= full; vp_check(maj ? to == st && dropped.empty() : to == St::SEARCHING, "a-leader-without-followers-starts-over"); if (!maj) { vp_check(dropped.size() == n, "and-reconnects-everyone"); vp_reach("reset"); } }
    else { vp_check(yes + no == 1 && to == st, "answered"); }
    if (st == St::LEADING && to == St::SEARCHING) { vp_check(!db._sharedData._commitEnabled, "no-commits-after-leaving"); for (auto p : node._peerList) vp_check(!p->subscribed, "nobody-subscribed-after-leaving"); }
    if (yes) vp_reach("approve"); if (no) vp_reach("deny"); vp_reach("end");
}
