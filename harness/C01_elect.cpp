//VP property: C01
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp plugins/Compression.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case waiting: quick FROM=3 PEERS=3 STEPS=0 | thorough FROM=3 PEERS=4 STEPS=0 | reach end SEARCHING WAITING STANDINGUP SUBSCRIBING
//VP case standingup: quick FROM=4 PEERS=4 STEPS=0 | thorough FROM=4 PEERS=5 STEPS=0 | reach end SEARCHING STANDINGUP LEADING
//VP case searching: quick FROM=1 PEERS=3 STEPS=0 | thorough FROM=1 PEERS=4 STEPS=0 | reach end SEARCHING WAITING SYNCHRONIZING
//VP case attempt: quick FROM=3 PEERS=3 STEPS=5 | thorough FROM=3 PEERS=3 STEPS=6 | reach end lead deny again
//VP bound: one step of the state machine from any state of PEERS peers (every flag, priority from -1 to 6, commit count from 0 to 3, state and stand-up response of every peer arbitrary), any own priority, shutdown flag and time before or after the state timeout; attempts of STEPS updates, current or stale responses, disconnections, reconnections and timeouts in any order with PEERS peers
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "cluster.h"
static vector<pair<SQLitePeer*, SData>> sent; static vector<SQLitePeer*> dropped; static uint64_t clk = 1700000000000000ull;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer* p, const SData& m) { sent.push_back({p, m}); }
void vp_net_shutdown(SQLitePeer* p) { dropped.push_back(p); }
struct P { bool in, perma, forked, sub; int prio; uint64_t count; int state, resp; };
static SData resp(const string& count, bool yes) { SData m("STANDUP_RESPONSE"); m["CommitCount"] = "2"; m["Hash"] = "x"; m["StateChangeCount"] = count; m["Response"] = yes ? "approve" : "deny"; return m; }
// A whole attempt: responses (also stale ones), disconnections and reconnections in any order.
static void attempt(SQLiteNode& node, SQLite& db, size_t n) {
    for (size_t i = 0; i < n; i++) { SQLitePeer* p = node._peerList[i]; p->loggedIn = true; p->priority = 2 + i; p->state = St::WAITING; p->setCommit(2, "x"); p->standupResponse = (Rs)vp_range("old response", 0, 2); }
    node._priority = 9; node._state = St::WAITING; vector<bool> yes(n, false), in(n, true); bool refused = false; int tries = 0;
    for (size_t k = 0; k < vp_param("STEPS"); k++) {
        St before = node._state; size_t op = k ? vp_choice("op", 4) : 0, i = op ? vp_choice("peer", n) : 0; SQLitePeer* p = node._peerList[i]; bool quorum = false, deny = false;
        if (op == 0) { size_t a = 0, c = 0; for (size_t j = 0; j < n; j++) { a += in[j] && yes[j]; c += in[j]; } quorum = 2 * a >= n && 2 * c >= n; deny = refused; clk += (k ? vp_choice("late", 2) : 0) * 20000000; node.update(); }
        else if (op == 1) { if (!in[i]) continue; bool fresh = vp_choice("fresh", 2), ok = vp_choice("approve", 2); node._onMESSAGE(p, resp(to_string(node._stateChangeCount - !fresh), ok)); if (fresh && before == St::STANDINGUP) { yes[i] = ok; refused = false; for (size_t j = 0; j < n; j++) if (in[j] && node._peerList[j]->standupResponse == Rs::DENY) refused = true; if (!ok) vp_check(p->standupResponse == Rs::DENY, "denial-recorded"); } }
        else if (op == 2) { if (!in[i]) continue; in[i] = yes[i] = false; p->reset(); node._onDisconnect(p); size_t c = 0; for (size_t j = 0; j < n; j++) c += in[j]; if (2 * c < n) vp_check(node._state != St::LEADING, "a-leader-without-quorum-stops-leading"); }
        else { if (in[i]) continue; in[i] = true; p->loggedIn = true; p->priority = 2 + i; p->state = St::WAITING; p->setCommit(2, "x"); }
        St now = node._state; 
        if (now == St::STANDINGUP && before != now) { yes.assign(n, false); refused = false; if (tries++) vp_reach("again"); }
        if (now == St::LEADING && before != now) { vp_check(op == 0 && before == St::STANDINGUP && quorum, "leads-only-with-a-quorum-of-approvals-for-this-attempt"); vp_check(!deny, "never-leads-after-a-denial"); vp_reach("lead"); }
        if (before == St::STANDINGUP && now == St::SEARCHING && op == 0 && deny) vp_reach("deny");
    }
    vp_reach("end");
}
void vp_main() {
    quiet(); vp_nosched(1); size_t n = vp_param("PEERS"); St from = (St)vp_param("FROM"); atomic<int> conf{5}; uint64_t mine = 2; 
    auto pool = mkPool("/nonexistent/a.db", mine); SQLiteNode node(server, pool, "me", "", peerNames(n), conf, 1000000, "v"); 
    node._haveBeenWAITING = true; if (vp_param("STEPS")) return attempt(node, pool->getBase(), n);
    if (from != St::SEARCHING) node._state = from;
    vector<P> ps; for (size_t i = 0; i < n; i++) {
        SQLitePeer* p = node._peerList[i]; P s; string t = to_string(i);
        s.in = vp_bool(("in" + t).c_str()); s.perma = vp_bool(("perma" + t).c_str()); s.forked = vp_bool(("forked" + t).c_str()); s.prio = (int)vp_int(("prio" + t).c_str(), -1, 6); s.count = vp_range(("count" + t).c_str(), 0, 3); s.state = (int)vp_range(("state" + t).c_str(), 0, 8); s.resp = (int)vp_range(("resp" + t).c_str(), 0, 2); s.sub = false;
        p->loggedIn = s.in; p->permaFollower = s.perma; p->forked = s.forked; p->priority = s.prio; p->setCommit(s.count, ""); p->state = (St)s.state; p->standupResponse = (Rs)s.resp; ps.push_back(s);
    }
    int prio = (int)vp_int("my priority", -1, 6); node._priority = prio; bool down = vp_bool("shutting down"); node._isShuttingDown = down; bool late = vp_bool("late"); node._stateTimeout = late ? clk - 1 : clk; int cc = node._stateChangeCount; sent.clear();
    node._haveBeenWAITING = true;
    bool again = node.update(); St to = node._state;
    vp_check(node._stateChangeCount == cc + (to != from), "one-transition-per-step");
    // every transition is broadcast to every peer that is not forked, before anything else can happen in the new state
    for (size_t i = 0; i < n; i++) { size_t st = 0; bool seenState = false; for (auto& m : sent) if (m.first == node._peerList[i]) { vp_check(!ps[i].forked, "nothing-sent-to-forked-peers"); if (m.second.methodLine == "STATE") { st++; seenState = true; vp_check(m.second["State"] == SQLiteNode::stateName(to) && m.second["StateChangeCount"] == to_string(cc + 1), "announced-state"); } else vp_check(!seenState, "requests-precede-the-announcement"); } vp_check(ps[i].forked || st == (to != from), "announced-to-all"); }
    vp_reach(SQLiteNode::stateName(to).c_str());
    size_t full = 0, in = 0, yes = 0, no = 0, elig = 0, eligIn = 0; uint64_t fresh = 0, freshAny = 0; int top = -99; bool leader = false, unforkedIn = false;
    for (auto& s : ps) {
        if (!s.perma) { full++; if (s.in) { in++; if (s.resp == 1) yes++; if (s.resp == 2) no++; } if (!s.forked) { elig++; if (s.in) { eligIn++; if (s.count > fresh) fresh = s.count; if (s.prio > top) top = s.prio; if (leadingish(s.state)) leader = true; } } }
        if (s.in && !s.forked) { unforkedIn = true; if (s.count > freshAny) freshAny = s.count; }
    }
    if (from == St::WAITING) {
        bool should = !down && eligIn && !leader && fresh <= mine && prio > 0 && prio > top && eligIn * 2 >= elig;
        vp_check((to == St::STANDINGUP) == should, "stands-up-iff-best-connected-candidate-with-no-leader");
        if (to == St::STANDINGUP) for (auto p : node._peerList) vp_check(p->standupResponse == Rs::NONE, "old-approvals-cleared");
        if (to == St::SUBSCRIBING) { SQLitePeer* l = node._leadPeer; vp_check(l && l->loggedIn && !l->permaFollower && !l->forked && l->state == St::LEADING && prio < top && !down, "subscribes-only-to-a-connected-leader"); size_t k = 0; for (auto& m : sent) if (m.second.methodLine == "SUBSCRIBE") { k++; vp_check(m.first == l, "subscribe-to-leader"); vp_check(m.second["CommitCount"] == "2" && m.second["Hash"] == pool->getBase().getCommittedHash(), "subscribe-carries-position"); } vp_check(k == 1, "one-subscribe"); }
        else vp_check(!node._leadPeer, "no-leader-otherwise");
        vp_check(to == St::WAITING || to == St::STANDINGUP || to == St::SUBSCRIBING || to == St::SEARCHING, "next-state");
        if (to == St::WAITING) vp_check(eligIn && fresh <= mine && !down, "keeps-waiting-only-when-synchronised");
    } else if (from == St::STANDINGUP) {
        vp_check((to == St::LEADING) == (!down && !no && yes * 2 >= full && in * 2 >= full), "leads-iff-quorum-approved-and-nobody-denied");
        vp_check(to == St::LEADING || to == St::SEARCHING || to == St::STANDINGUP, "next-state"); if (no || down) vp_check(to == St::SEARCHING, "denial-cancels"); if (to == St::STANDINGUP) vp_check(!late, "gives-up-after-the-timeout");
        if (to == St::LEADING) vp_check(node._lastSentTransactionID == mine && pool->getBase()._sharedData._commitEnabled, "leader-starts-at-its-own-commit-and-may-commit");
    } else {
        vp_check(to == St::SEARCHING || to == St::WAITING || to == St::SYNCHRONIZING, "next-state");
        vp_check((to == St::WAITING) == (!down && in * 2 >= full && unforkedIn && freshAny <= mine), "waits-iff-connected-to-a-quorum-and-as-fresh-as-every-peer");
        if (to == St::SYNCHRONIZING) { SQLitePeer* s = node._syncPeer; vp_check(s && s->loggedIn && !s->forked && s->commitCount > mine, "synchronises-from-a-fresher-peer"); size_t k = 0; for (auto& m : sent) if (m.second.methodLine == "SYNCHRONIZE") { k++; vp_check(m.first == s, "synchronize-to-sync-peer"); } vp_check(k == 1, "one-synchronize"); } else vp_check(!node._syncPeer, "no-sync-peer");
        if (!down && in * 2 >= full && freshAny > mine) vp_check(to == St::SYNCHRONIZING, "synchronises-when-behind");
    }
    vp_reach("end");
}
