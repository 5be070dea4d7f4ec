//VP property: S06
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp BedrockCommand.cpp BedrockCore.cpp BedrockServer.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp BedrockConflictManager.cpp ConflictLockGuard.cpp BedrockPlugin.cpp VMTouch.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp shared_lock.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case same: quick MODE=0 LEN=1 | thorough MODE=0 LEN=2 | reach end refused runs
//VP case bytes: quick MODE=1 LEN=2 | thorough MODE=1 LEN=3 | reach end refused
//VP case twice: quick MODE=2 LEN=1 --preempt 0 | thorough MODE=2 LEN=1 --preempt 1 | reach end refused runs
//VP bound: same: a crashed command and a new one with any subset of two headers marked as identifying and any values of up to LEN bytes; bytes: the same command again with one identifying value of LEN arbitrary bytes; twice: two crashes and a new command, with any values of one byte; each time on the node told first, on one that logs in later and after clearing
//VP assume: messages between servers are delivered
#include "server.h"
#include <condition_variable>
extern "C" int shutdown(int, int) noexcept { return 0; }
extern "C" int usleep(unsigned us) { clk += us; return 0; }
static vector<SData> told; static mutex tellMutex; static condition_variable tellSignal;
SQLiteClusterMessenger::SQLiteClusterMessenger(const shared_ptr<const SQLiteNode>& n) : _node(n) {}
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand& c, bool) { c.complete = true; return true; }
vector<SData> SQLiteClusterMessenger::runOnAll(const SData&) { return {}; }
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand& c, const string& name) { lock_guard<mutex> l(tellMutex); vp_check(name == "p0", "told-to-the-peer-that-logged-in"); SData d(c.request.methodLine); d.nameValueMap = c.request.nameValueMap; d.content = c.request.content; told.push_back(d); tellSignal.notify_all(); c.complete = true; return true; }
static unique_ptr<BedrockCommand> mk(const SData& d, STCPManager::Socket* s) { unique_ptr<BedrockCommand> c(new BedrockCommand(SQLiteCommand(SData(d)), nullptr)); c->initiatingClientID = 1; c->socket = s; return c; }
static void deliver(BedrockServer& s, const SData& m) { string wire = m.serialize(); SData got; vp_check(got.deserialize(wire) == (int)wire.size(), "crash-message-is-well-formed"); got["_source"] = "10.0.0.1"; Sock k; s.runCommand(mk(got, &k)); SData r; vp_check(k.out.size() == 1 && r.deserialize(k.out[0]) && r.methodLine == "200 OK", "crash-message-is-accepted"); }
static bool refused(BedrockServer& s, const SData& d) { Sock k; s.runCommand(mk(d, &k)); SData r; r.deserialize(k.out.size() ? k.out[0] : ""); bool no = r.methodLine == "500 Refused"; vp_check(k.out.size() == 1 && (no || SStartsWith(r.methodLine, "430")), "answered-once"); return no; }
static string val(const char* n, size_t len, bool any) { string v; size_t k = any ? len : vp_choice(n, len + 1); for (size_t i = 0; i < k; i++) v += (char)(any ? vp_range(n, 1, 255) : vp_range(n, 'a', vp_param("MODE") == 2 ? 'b' : 'c')); return v; }
struct Spec { SData d; set<string> ids; };
static Spec make(const string& line, bool any, bool mark) { size_t len = vp_param("LEN"); Spec s; s.d.methodLine = line; const char* keys[] = {"user", "email"}; for (int i = 0; i < (any || vp_param("MODE") == 2 ? 1 : 2); i++) { if (!any && vp_choice("has", 2) == 0) continue; s.d[keys[i]] = val("value", len, any); if (mark && (any || vp_choice("identifying", 2))) s.ids.insert(keys[i]); } s.d["other"] = "1"; string wire = s.d.serialize(); SData got; vp_assume(got.deserialize(wire) == (int)wire.size()); s.d = got; /* as any client sent it */ return s; }
static bool same(const Spec& crash, const SData& d) { for (auto& k : crash.ids) { if (!crash.d.isSet(k)) continue; auto it = d.nameValueMap.find(k); if (it == d.nameValueMap.end() || string(it->second) != string(crash.d.nameValueMap.at(k))) return false; } return true; }
static SData message(const Spec& s) { auto c = mk(s.d, nullptr); for (auto& k : s.ids) c->crashIdentifyingValues.insert(k); return BedrockServer::_generateCrashMessage(c); }
static set<string> tableOf(const Spec& s) { set<string> t; for (auto& k : s.ids) if (s.d.isSet(k)) t.insert(k + "=" + string(s.d.nameValueMap.at(k))); return t; }
void vp_main() {
    quiet(); vp_nosched(1); int mode = vp_param("MODE"); Sv a = mkServer("/nonexistent/a.db", 1, St::LEADING, SData(), peerNames(1)), b = mkServer("/nonexistent/b.db", 1); Spec crash = make("Do", mode == 1, true), second; deliver(*a.s, message(crash)); if (mode != 2 && vp_choice("told twice", 2)) deliver(*a.s, message(crash)); bool always = false; int line2 = 0;
    if (mode == 2) { line2 = vp_choice("other command crashes too", 2); second = make(line2 ? "Make" : "Do", false, true); deliver(*a.s, message(second)); always = !line2 && tableOf(crash) != tableOf(second); }
    SData next; bool other = mode != 1 && vp_choice("other command", 2); if (mode == 1) next = crash.d; else { Spec n = make(other ? "Make" : "Do", false, false); next = n.d; } bool expect = other ? mode == 2 && line2 && same(second, next) : always || same(crash, next) || (mode == 2 && !line2 && same(second, next));
    vp_check(refused(*a.s, next) == expect, "refused-iff-it-matches-a-crashed-command"); vp_reach(expect ? "refused" : "runs");
    a.s->onNodeLogin(a.n->_peerList[0]); size_t want = (tableOf(crash) == tableOf(second) && mode == 2 && !line2) || mode != 2 ? 1 : 2; vp_nosched(0); { unique_lock<mutex> l(tellMutex); tellSignal.wait(l, [&] { return told.size() >= want; }); } vp_nosched(1); vp_check(told.size() == want, "every-crashed-command-is-passed-on"); for (auto& m : told) deliver(*b.s, m); vp_check(refused(*b.s, next) == expect, "a-node-that-logs-in-refuses-the-same");
    Sock k; a.s->runCommand(mk(SData("ClearCrashCommands"), &k)); vp_check(k.out.size() == 1 && SStartsWith(k.out[0], "200") && !refused(*a.s, next), "cleared-commands-run-again"); vp_reach("end");
}
