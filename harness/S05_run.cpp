//VP property: S05
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp BedrockCommand.cpp BedrockCore.cpp BedrockServer.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp BedrockConflictManager.cpp ConflictLockGuard.cpp BedrockPlugin.cpp VMTouch.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp shared_lock.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case lead: quick MODE=0 CONF=2 | thorough MODE=0 CONF=4 | reach end committed failed queued blocking
//VP case stages: quick MODE=3 CONF=1 | thorough MODE=3 CONF=2 | reach end committed failed
//VP case follow: quick MODE=1 CONF=0 | thorough MODE=1 CONF=0 | reach end escalated queued failed
//VP case standdown: quick MODE=2 CONF=0 --preempt 2 | thorough MODE=2 CONF=1 --preempt 3 | reach end committed escalated
//VP bound: one command run until it is answered or set aside (at most 6 passes through the queues): lead: any combination of client kind, mock, synchronous, retry limit, thread kind, up to CONF commit conflicts and client disconnect; stages: any outcome of each stage; follow: any node state that is not leading, version, escalation outcome per attempt, future commit and schedule; standdown: the node stops leading at any point of the command, up to the stated number of preemptions
//VP assume: SQLite behaves as env/sqlite_model.cpp; a peer that reports completion has executed the command exactly once
#include "cluster.h"
#include <BedrockCommand.h>
#include <BedrockCore.h>
#include <BedrockServer.h>
#include <ConflictLockGuard.h>
#include <thread>
static uint64_t clk = 1700000000000000ull; extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
extern "C" int shutdown(int, int) noexcept { return 0; }
extern "C" long sysconf(int) { return 4096; }
static SQLiteNode* node; static vector<int> wakeStates; static thread other; static bool racing; extern "C" int usleep(unsigned us) { clk += us; if (racing) { if (other.joinable()) other.join(); return 0; } if (wakeStates.size()) { node->_state = (St)wakeStates.front(); wakeStates.erase(wakeStates.begin()); } else clk += 200000000; return 0; }
void vp_net_send(SQLitePeer*, const SData&) {}
void vp_net_shutdown(SQLitePeer*) {}
static int conflicts, conflictsDone; static bool armed; extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) { if (!armed || where != 1 || conflicts <= conflictsDone || strcmp(sql, "COMMIT")) return 0; conflictsDone++; return SQLITE_BUSY_SNAPSHOT; }
struct Sock : STCPManager::Socket { vector<string> out; bool works = true; Sock() : Socket(-1) {} bool send(const string& b, size_t* = nullptr) override { out.push_back(b); return works; } bool send(size_t* = nullptr) override { return works; } bool recv() override { return true; } };
static int peerRuns, peerAsks, failedReplies, failedNotifications, made, gone; static vector<int> peerAnswers; static vector<bool> askedLeader; static function<void()> onAsk;
SQLiteClusterMessenger::SQLiteClusterMessenger(const shared_ptr<const SQLiteNode>& n) : _node(n) {}
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand& c, bool leader) { askedLeader.push_back(leader); vp_check(!c.complete, "a-complete-command-is-not-sent-to-a-peer"); vp_check(node->_state != St::LEADING || leader, "asks-sensibly"); if (onAsk) onAsk(); int a = peerAnswers.size() ? peerAnswers.front() : 1; if (peerAnswers.size()) peerAnswers.erase(peerAnswers.begin()); if (!a) return false; peerRuns++; c.response.clear(); c.response.methodLine = "201 Peer"; c.complete = true; return true; }
vector<SData> SQLiteClusterMessenger::runOnAll(const SData&) { return {}; }
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, const string&) { return false; }
enum { NOTHING, WRITE, REPLY, FOREIGN, GONE, SLOW };
struct Cmd : BedrockCommand { int pre = NOTHING, pk = NOTHING, pr = WRITE, post = NOTHING; bool done = false, wantPre = false, wantPost = false; int* lives; int peeks = 0, procs = 0;
    Cmd(SData&& r, int* l, bool esc) : BedrockCommand(SQLiteCommand(move(r)), nullptr, esc), lives(l) { ++*l; } ~Cmd() { --*lives; }
    bool shouldPrePeek() override { return wantPre; } bool shouldPostProcess() override { return wantPost; } void handleFailedReply() override { failedReplies++; }
    void act(SQLite& db, int a) { if (a == WRITE) db.write("INSERT INTO t VALUES (7);"); else if (a == REPLY) STHROW("404 Missing"); else if (a == FOREIGN) throw 5; else if (a == GONE) shouldAbort = true; else if (a == SLOW) { clk += 200000000; SQResult r; db.read("SELECT a FROM t;", r); } }
    void prePeek(SQLite& db) override { act(db, pre); } bool peek(SQLite& db) override { peeks++; act(db, pk); return done; } void process(SQLite& db) override { procs++; act(db, pr); } void postProcess(SQLite& db) override { act(db, post); } };
static int rows(SQLite& db) { SQResult r; SQuery(db.getDBHandle(), "SELECT a FROM t WHERE a = 7;", r); return r.size(); }
static size_t pos(BedrockCommandQueue& q) { return q.size(); }
void vp_main() {
    quiet(); int mode = vp_param("MODE"); if (mode != 2) vp_nosched(1); else vp_nosched(1); atomic<int> conf{5}; SData args; args["-nodeName"] = "me"; BedrockServer& s = *new BedrockServer(St::LEADING, args); s._version = "v"; s._leaderVersion = string("v");
    auto pool = make_shared<SQLitePool>(4, "/nonexistent/a.db", 0, 1000, -1); { SQLite& b = pool->getBase(); b.beginTransaction(); b.write("CREATE TABLE t (a INTEGER);"); b.prepare(); b.commit(); } SQLite& base = pool->getBase(); uint64_t count = base.getCommitCount();
    auto n = make_shared<SQLiteNode>(s, pool, "me", "", "", conf, 1000000, "v"); node = n.get(); s._dbPool = pool; atomic_store(&s._syncNode, n); s._clusterMessenger = make_shared<SQLiteClusterMessenger>(n); s._upgradeCompleted = true; s._shutdownState = BedrockServer::RUNNING; s._maxConflictRetries = 3; n->_state = St::LEADING;
    static const char* conn[] = {"", "close", "forget"}; SData r("Do"); r["requestID"] = "x"; bool esc = false, future = false; int lives = 0; Sock sock; bool hasSocket = true, mock = false, blocking = false, dedicated = true, early = false; int client = 1;
    if (mode == 0) { int k = vp_choice("client", 5); if (k == 1) r["Connection"] = conn[1]; else if (k == 2) { r["Connection"] = conn[2]; hasSocket = false; client = -1; } else if (k == 3) hasSocket = false; else if (k == 4) sock.works = false; mock = vp_choice("mock", 2); if (mock) r["mockRequest"] = "1"; conflicts = vp_choice("conflicts", vp_param("CONF") + 1); dedicated = vp_choice("dedicated", 2); blocking = vp_choice("blocking", 2); s._maxConflictRetries = vp_choice("max retries", 2); if (vp_choice("shutting down", 2)) s._shutdownState = BedrockServer::START_SHUTDOWN; s._enableConflictPageLocks = vp_choice("page locks", 2); }
    if (mode == 1) { static const St states[] = {St::FOLLOWING, St::STANDINGDOWN, St::SYNCHRONIZING, St::SEARCHING}; int st = vp_choice("state", 4); n->_state = states[st]; esc = vp_choice("escalate at once", 2); if (vp_choice("other version", 2)) s._leaderVersion = string("w"); int f = vp_choice("future", 3); if (f == 1) { r["commitCount"] = to_string(count + 5); future = true; } if (f == 2) { r["commandExecuteTime"] = to_string(clk + 50000000); early = true; } int w = vp_choice("then", 3); if (w) wakeStates.push_back(w == 1 ? (int)St::FOLLOWING : (int)St::LEADING); if (vp_choice("resynchronises while asking", 2)) onAsk = [] { node->_state = St::SYNCHRONIZING; }; peerAnswers.push_back(vp_choice("first ask", 2)); if (!peerAnswers[0]) peerAnswers.push_back(vp_choice("second ask", 2)); }
    string connection = r["Connection"]; unique_ptr<BedrockCommand> cmd(new Cmd(move(r), &lives, esc)); Cmd* c = (Cmd*)cmd.get(); c->initiatingClientID = client; if (hasSocket) c->socket = &sock; c->id = "i";
    if (mode == 0) { c->isSynchronous = vp_choice("synchronous", 2); c->pr = vp_choice("process", 2); }
    if (mode == 1) { c->done = vp_choice("read only", 2); if (c->done) c->pr = NOTHING; }
    if (mode == 3) { c->wantPre = vp_choice("wants pre-peek", 2); c->wantPost = vp_choice("wants post-process", 2); c->pre = c->wantPre ? vp_choice("pre-peek", 6) : 0; c->done = vp_choice("done", 2); c->pk = vp_choice("peek", 6); c->pr = vp_choice("process", 6); c->post = c->wantPost ? vp_choice("post-process", 6) : 0; conflicts = vp_choice("conflicts", vp_param("CONF") + 1); }
    int pr = c->pr, post = c->post; bool done = c->done, wantPost = c->wantPost; if (mode == 2) { racing = true; c->done = false; conflicts = vp_param("CONF") ? vp_choice("conflicts", 2) : 0; peerAnswers = {1}; vp_nosched(0); other = thread([&] { n->_state = St::STANDINGDOWN; n->_state = St::FOLLOWING; }); }
    armed = true; bool wasFollowing = false, everLed = false; int passes = 0; unique_ptr<BedrockCommand> next = move(cmd); uint64_t scheduled = 0;
    for (; next && passes < 6; passes++) { wasFollowing = n->_state == St::FOLLOWING; everLed = everLed || mode == 2 || n->_state == St::LEADING || count_if(wakeStates.begin(), wakeStates.end(), [](int x) { return x == (int)St::LEADING; }); uint64_t t0 = clk; s.runCommand(move(next), blocking, dedicated); if (mode == 2 && passes == 0) { if (other.joinable()) other.join(); vp_nosched(1); }
        size_t q = pos(s._commandQueue), b = pos(s._blockingCommandQueue), f = s._futureCommitCommands.size(); int answered = sock.out.size() + failedReplies - (hasSocket && !sock.works && sock.out.size() ? 1 : 0);
        vp_check(q + b + f + answered == 1 && lives == (int)(q + b + f), "answered-or-set-aside-exactly-once"); vp_check(!base.insideTransaction(), "base-handle-untouched"); { lock_guard<mutex> l(pool->_sync); vp_check(pool->_inUseHandles.empty(), "handles-returned"); for (auto& x : pool->_objects) vp_check(!x || (!x->insideTransaction() && !x->_mutexLocked), "no-transaction-left-open"); } vp_check(ConflictLockGuard::mutexCounts.empty() || count_if(ConflictLockGuard::mutexCounts.begin(), ConflictLockGuard::mutexCounts.end(), [](auto& m) { return m.second != 0; }) == 0, "page-locks-released");
        int w = rows(base); vp_check(w + peerRuns <= 1, "executed-at-most-once"); if (!answered) { vp_check(w + peerRuns == 0, "a-command-that-will-run-again-has-not-run"); vp_reach("queued"); } else break;
        if (f) { vp_check(future && s._futureCommitCommands.begin()->first == count + 5 && s._futureCommitCommandTimeouts.size() == 1 && !c->procs && !c->peeks, "waits-for-the-commit-it-depends-on"); next = move(s._futureCommitCommands.begin()->second); s._futureCommitCommands.clear(); s._futureCommitCommandTimeouts.clear(); SQLite& d = base; while (d.getCommitCount() < count + 5) { d.beginTransaction(); d.write("INSERT INTO t VALUES (1);"); d.prepare(); d.commit(); } }
        else if (b) { vp_reach("blocking"); vp_check(!blocking || conflictsDone, "no-endless-handover"); next = s._blockingCommandQueue.get(1); blocking = true; dedicated = false; }
        else { if (early && passes == 0) vp_check(!c->peeks && !peerRuns, "not-run-before-its-time"); if (early) clk += 50000000; clk += 1000000; next = s._commandQueue.get(1); blocking = false; dedicated = vp_choice("thread again", 2); if (passes >= 2 && mode != 0) n->_state = St::FOLLOWING; } }
    armed = false; int w = rows(base); if (!sock.out.size() && !failedReplies) { vp_reach("end"); vp_check(passes == 6 && conflicts + 3 >= passes, "answered-eventually"); return; }
    vp_check(lives == 0, "command-is-released"); if (!everLed) vp_check(w == 0, "only-a-leader-commits"); vp_reach("end"); if (peerRuns) vp_reach("escalated");
    if (sock.out.size()) { SData resp; vp_check(resp.deserialize(sock.out[0]) == (int)sock.out[0].size() && resp["nodeName"] == "me", "response-is-well-formed"); string m = resp.methodLine; bool ok = SStartsWith(m, "200"), peer = SStartsWith(m, "201 Peer"); bool close = connection == "close" || s._shutdownState != BedrockServer::RUNNING; vp_check(!close || (resp["Connection"] == "close" && sock.state == STCPManager::Socket::SHUTTINGDOWN), "closes-when-asked"); 
        bool wrote = w == 1; vp_check(!peer || peerRuns == 1, "peer-answer-is-passed-on"); if (ok) vp_check(wrote == (pr == WRITE && !mock && !done), "success-means-committed"); if (!ok && !peer && wrote) vp_check(wantPost && post != NOTHING, "failure-means-not-committed"); if (mode == 2) vp_check(wrote + peerRuns == 1 && (ok || peer), "runs-exactly-once"); vp_reach(wrote ? "committed" : "failed"); }
    else if (w) vp_reach("committed");
}
