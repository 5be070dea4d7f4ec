//VP property: S07
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp BedrockCommand.cpp BedrockCore.cpp BedrockServer.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp BedrockConflictManager.cpp ConflictLockGuard.cpp BedrockPlugin.cpp VMTouch.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp shared_lock.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case access: quick MODE=0 | thorough MODE=0 | reach end refused allowed
//VP case port: quick MODE=1 OPS=3 | thorough MODE=1 OPS=4 | reach end open closed
//VP case status: quick MODE=2 | thorough MODE=2 | reach end up down
//VP case quiesce: quick MODE=3 OPS=3 --preempt 1 | thorough MODE=3 OPS=4 --preempt 2 | reach end blocked unblocked nodb
//VP case setters: quick MODE=4 | thorough MODE=4 | reach end set refused
//VP bound: access: every control command in any letter case from localhost or elsewhere; port: OPS blocks and unblocks with up to 3 reasons; status: every node state, version, detached or backing up; quiesce: OPS BlockWrites and UnblockWrites, with or without a database, and a writer at every point with the stated preemptions; setters: any 64-bit value near the limits and every boundary
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "server.h"
#include <condition_variable>
extern "C" int shutdown(int, int) noexcept { return 0; }
static int waits, turn; static mutex napMutex; static condition_variable nap; extern "C" int usleep(unsigned us) { clk += us; vp_check(++waits < 60, "does-not-wait-forever"); unique_lock<mutex> l(napMutex); ++turn; nap.notify_all(); nap.wait_for(l, chrono::microseconds(us)); return 0; }
SQLiteClusterMessenger::SQLiteClusterMessenger(const shared_ptr<const SQLiteNode>& n) : _node(n) {}
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand& c, bool) { c.complete = true; return true; }
vector<SData> SQLiteClusterMessenger::runOnAll(const SData&) { return {}; }
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, const string&) { return true; }
static SData ask(BedrockServer& s, SData d, bool remote = false) { if (remote) d["_source"] = "10.0.0.1"; Sock k; unique_ptr<BedrockCommand> c(new BedrockCommand(SQLiteCommand(move(d)), nullptr)); c->initiatingClientID = 1; c->socket = &k; s.runCommand(move(c)); SData r; vp_check(k.out.size() == 1 && r.deserialize(k.out[0]) == (int)k.out[0].size(), "answered-exactly-once"); return r; }
extern thread* __quiesceThread;
static string fingerprint(BedrockServer& s) { lock_guard<mutex> l(s._portMutex); return to_string(s._shouldBackup) + to_string(s._detach) + to_string((int)s._shutdownState.load()) + to_string(s._commandPortBlockReasons.size()) + to_string(s._crashCommands.size()) + to_string(s._maxConflictRetries.load()) + to_string(s._enableConflictPageLocks.load()) + to_string(SQLite::enableTrace.load()) + to_string(s._maxSocketThreads.load()) + to_string(s._syncNode ? s._syncNode->_priority.load() : 0) + to_string(s._blockingCommandQueue.size()) + to_string(s._syncLoopShouldBeRunning.load()) + to_string(s._blockingCommandQueue._identifierThresholdUS.load()) + to_string(!!__quiesceThread); }
void vp_main() {
    quiet(); vp_nosched(1); int mode = vp_param("MODE"); static const char* names[] = {"BeginBackup", "ClearCrashCommands", "ConflictReport", "Detach", "Attach", "SetConflictParams", "SetConflictPageLocks", "EnableSQLTracing", "BlockWrites", "UnblockWrites", "SetMaxSocketThreads", "SetBlockingQueueTimeRateLimit", "ClearBlockingQueue", "SetPriority", /* allowed from elsewhere */ "SuppressCommandPort", "ClearCommandPort", "GetCommitHash", "CRASH_COMMAND"};
    Sv v = mkServer("/nonexistent/a.db", 2, St::LEADING, SData(), peerNames(1)); BedrockServer& s = *v.s; v.n->_priority = 5;
    if (mode == 0) { int k = vp_choice("command", 18); string n = names[k]; int style = vp_choice("letters", 3); if (style == 1) for (auto& c : n) c = tolower(c); else if (style == 2) for (auto& c : n) c = toupper(c); bool remote = vp_choice("remote", 2); SData d(n); d["priority"] = "7"; d["enable"] = "true"; d["socketThreadsCount"] = "3"; d["MaxConflictRetries"] = "9"; d["identifierThresholdMS"] = "4"; d["commitCount"] = "1"; d.content = "Do\r\nx: y\r\n\r\n";
        { unique_ptr<BedrockCommand> c(new BedrockCommand(SQLiteCommand(SData("Do")), nullptr)); c->initiatingClientID = -1; s._blockingCommandQueue.push(move(c)); } s._crashCommands["Q"].insert(STable()); string before = fingerprint(s); SData r;
        if (remote && k < 14) { r = ask(s, d, true); vp_check(SStartsWith(r.methodLine, "401"), "secure-commands-only-from-localhost"); vp_check(fingerprint(s) == before && r.content.empty(), "refused-commands-do-nothing"); vp_reach("refused"); } else { vp_nosched(k != 8); r = ask(s, d, remote); vp_nosched(1); vp_check(!SStartsWith(r.methodLine, "401 Unauth") && !SStartsWith(r.methodLine, "430"), "control-commands-are-handled"); vp_reach("allowed"); if (k == 8) { vp_nosched(0); ask(s, SData("UnblockWrites")); vp_nosched(1); } }
        SData plain("Do"); if (s._shutdownState == BedrockServer::RUNNING) { r = ask(s, plain, remote); vp_check(SStartsWith(r.methodLine, "430"), "other-commands-are-not-control-commands"); } }
    if (mode == 1) { multiset<string> held; static const char* why[] = {"", "a", "b"}; for (size_t i = 0; i < vp_param("OPS"); i++) { bool block = vp_choice("block", 2); string w = why[vp_choice("reason", 3)]; SData d(block ? "SuppressCommandPort" : "ClearCommandPort"); if (w.size()) d["reason"] = w; else w = "MANUAL"; s._commandPortPublic.reset(new STCPManager::Port(-1, "x")); ask(s, d, vp_choice("remote", 2)); if (block) { held.insert(w); if (held.size() == 1) vp_check(!s._commandPortPublic, "blocking-closes-the-port"); } else { auto it = held.find(w); if (it != held.end()) held.erase(it); } vp_check(s._commandPortBlockReasons == held && s._isCommandPortLikelyBlocked == !held.empty(), "blocked-while-any-reason-remains"); vp_reach(held.empty() ? "open" : "closed"); }
        SData r = ask(s, SData("Status")); string want = SComposeJSONArray(held); STable t = SParseJSONObject(r.content); vp_check(t["commandPortBlockReasons"] == want, "status-lists-the-reasons"); }
    if (mode == 2) { static const St states[] = {St::SEARCHING, St::SYNCHRONIZING, St::WAITING, St::STANDINGUP, St::LEADING, St::STANDINGDOWN, St::SUBSCRIBING, St::FOLLOWING, St::UNKNOWN}; int k = vp_choice("state", 9); bool none = vp_choice("no node", 2); v.n->_state = states[k]; int lv = vp_choice("leader version", 3); s._leaderVersion = string(lv == 0 ? "v" : lv == 1 ? "w" : ""); s._detach = vp_choice("detached", 2); s._shouldBackup = vp_choice("backup", 2); if (none) atomic_store(&s._syncNode, shared_ptr<SQLiteNode>()); St st = none ? St::SEARCHING : states[k]; bool remote = vp_choice("remote", 2);
        SData r = ask(s, SData("GET /status/isFollower HTTP/1.1"), remote); vp_check(SStartsWith(r.methodLine, "HTTP/1.1 200") == (st == St::FOLLOWING), "is-follower-iff-following"); r = ask(s, SData("GET /status/handlingCommands HTTP/1.1"), remote); bool up = (st == St::FOLLOWING || st == St::LEADING || st == St::STANDINGDOWN) && !s._detach && !s._shouldBackup && lv != 1; vp_check(SStartsWith(r.methodLine, "HTTP/1.1 200") == up && (up || SStartsWith(r.methodLine, "HTTP/1.1 5")), "handling-commands-iff-ready"); vp_reach(up ? "up" : "down"); vp_check(ask(s, SData("Ping"), remote).methodLine == "200 OK", "ping");
        r = ask(s, SData("Status"), remote); STable t = SParseJSONObject(r.content); vp_check(r.methodLine == "200 OK" && t["state"] == SQLiteNode::stateName(st) && t["isLeader"] == (st == St::LEADING ? "true" : "false") && t["syncNodeAvailable"] == (none ? "false" : "true") && (none || (t["CommitCount"] == "2" && t["priority"] == "5")) && t["version"] == "v", "status-describes-the-node"); }
    if (mode == 3) { bool db = vp_choice("database", 2); if (!db) s._dbPool = nullptr; bool blocked = false, remoteWrite = false; vp_nosched(0); for (size_t i = 0; i < vp_param("OPS"); i++) { int op = vp_choice("operation", 3); if (op == 0) { SData r = ask(s, SData("BlockWrites")); if (!db) { vp_check(SStartsWith(r.methodLine, "500") && !__quiesceThread, "nothing-to-block-without-a-database"); vp_reach("nodb"); } else { vp_check(SStartsWith(r.methodLine, blocked ? "400" : "200"), "block-answer"); blocked = true; vp_reach("blocked"); } }
            else if (op == 1) { SData r = ask(s, SData("UnblockWrites")); vp_check(SStartsWith(r.methodLine, blocked ? "200 Unblocked" : "200 Not Blocked"), "unblock-answer"); if (blocked) vp_reach("unblocked"); blocked = false; }
            else if (db) { SQLite d(v.pool->getBase()); vp_nosched(1); bool free = d._sharedData.commitLock.try_lock(); if (free) d._sharedData.commitLock.unlock(); bool wf = d._sharedData.writeLock.try_lock(); if (wf) d._sharedData.writeLock.unlock(); vp_nosched(0); vp_check((free && wf) == !blocked, "writes-are-possible-iff-not-blocked"); } }
        (void)remoteWrite; ask(s, SData("UnblockWrites")); vp_nosched(1); if (db) { SQLite& d = v.pool->getBase(); vp_check(d.beginTransaction() && d.write("INSERT INTO t VALUES (9);") && d.prepare() && d.commit() == SQLITE_OK, "writes-again-afterwards"); } }
    if (mode == 4) { static const char* vals[] = {"", "0", "1", "2", "-1", "7", "2147483647", "2147483648", "4294967301", "9223372036854775807", "x"}; static const int64_t num[] = {0, 0, 1, 2, -1, 7, 2147483647, 2147483648, 4294967301, INT64_MAX, 0}; int k = vp_choice("value", 11), which = vp_choice("setting", 4); bool given = vp_choice("given", 2); string val = vals[k]; int64_t x = num[k]; 
        if (which == 0) { SData d("SetPriority"); if (given) d["priority"] = val; v.n->_state = St::FOLLOWING; SData r = ask(s, d); bool ok = SStartsWith(r.methodLine, "200"); vp_check(ok == (given && k != 0 && x >= 0 && x != 1 && x <= INT_MAX) || (given && k == 0), "priority-range"); vp_check(ok ? v.n->getPriority() == x && r["newPriority"] == to_string(x) && r["oldPriority"] == "5" : v.n->getPriority() == 5, "priority-as-reported"); vp_reach(ok ? "set" : "refused"); }
        if (which == 1) { SData d("SetConflictParams"); if (given) d["MaxConflictRetries"] = val; SData r = ask(s, d); if (!given) x = 0; int got = s._maxConflictRetries; vp_check(x < 0 || x > INT_MAX ? got == 3 : got == x && r["previousMaxConflictRetries"] == "3", "retries-as-set"); }
        if (which == 2) { SData d("SetMaxSocketThreads"); if (given) d["socketThreadsCount"] = val; SData r = ask(s, d); if (!given) x = 0; if (k != 4) vp_check(x == 0 ? SStartsWith(r.methodLine, "401") && s._maxSocketThreads == 5000 : s._maxSocketThreads == (size_t)x, "threads-as-set"); }
        if (which == 3) { SData d("GetCommitHash"); if (given) d["commitCount"] = val; SData r = ask(s, d, true); string h; bool has = x >= 1 && x <= 2 && given && v.pool->getBase().getCommit(x, nullptr, &h); vp_check(has ? SStartsWith(r.methodLine, "200") && r["hash"] == h && r["commitCount"] == to_string(x) : SStartsWith(r.methodLine, "40"), "commit-hash-of-the-journal"); } }
    vp_reach("end");
}
