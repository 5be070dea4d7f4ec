#pragma once
// A BedrockServer built by its test constructor on a real node, pool and queues; clients, peers' answers, time and the network edge belong to the harness.
#include "cluster.h"
#include <BedrockCommand.h>
#include <BedrockCore.h>
#include <BedrockPlugin.h>
#include <BedrockServer.h>
#include <ConflictLockGuard.h>
#include <thread>
static uint64_t clk = 1700000000000000ull; extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
extern "C" long sysconf(int) { return 4096; }
void vp_net_send(SQLitePeer*, const SData&) {}
void vp_net_shutdown(SQLitePeer*) {}
struct Sock : STCPManager::Socket { vector<string> out; bool works = true; Sock() : Socket(-1, CONNECTED) {} bool send(const string& b, size_t* = nullptr) override { out.push_back(b); return works; } bool send(size_t* = nullptr) override { return works; } bool recv() override { return true; } };
struct Sv { BedrockServer* s; shared_ptr<SQLiteNode> n; shared_ptr<SQLitePool> pool; };
static atomic<int> conf{5};
static Sv mkServer(const string& file, size_t commits, St state = St::LEADING, SData args = SData(), const string& peers = "") {
    Sv v; if (!args.isSet("-nodeName")) args["-nodeName"] = "me"; v.s = new BedrockServer(state, args); BedrockServer& s = *v.s; s._version = "v"; s._leaderVersion = string("v"); v.pool = mkPool(file, commits); v.n = make_shared<SQLiteNode>(s, v.pool, "me", "", peers, conf, 1000000, "v"); s._dbPool = v.pool; atomic_store(&s._syncNode, v.n);
    s._upgradeCompleted = true; s._shutdownState = BedrockServer::RUNNING; s._maxConflictRetries = 3; s._clusterMessenger = make_shared<SQLiteClusterMessenger>(v.n); s._detach = false; s._shouldBackup = false; s._pluginsDetached = false; s._syncLoopShouldBeRunning = true; s.shutdownWhileDetached = false; s._isCommandPortLikelyBlocked = false; s._outstandingSocketThreads = 0; s._socketThreadNumber = 0; s._shouldBlockNewSocketThreads = false; s._requestCount = 0; v.n->_state = state; return v; }
