//VP property: S08
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp BedrockCommand.cpp BedrockCore.cpp BedrockServer.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp BedrockConflictManager.cpp ConflictLockGuard.cpp BedrockPlugin.cpp VMTouch.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp shared_lock.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case pair: quick MODE=0 REQ=2 CUTS=0 | thorough MODE=0 REQ=3 CUTS=0 | reach end answered closed
//VP case cuts: quick MODE=0 REQ=2 CUTS=1 | thorough MODE=0 REQ=2 CUTS=2 | reach end answered closed
//VP case source: quick MODE=1 | thorough MODE=1 | reach end remote local
//VP case abort: quick MODE=2 --preempt 1 | thorough MODE=2 --preempt 2 | reach end aborted finished
//VP case threads: quick MODE=3 | thorough MODE=3 | reach end unblocked
//VP bound: pair/cuts: up to REQ requests of every kind (plain, with a body, status, control, failing, closing, forgetting, unknown plugin, future) on one connection, all at once or cut into pieces at any place; source: any address, port and port state; abort: the client hangs up, resets or the shutdown deadline passes at any point of a running command; threads: thread counts around the limit
//VP assume: the socket is blocking: what is sent is delivered whole
#include "server.h"
#include <poll.h>
#include <sys/ioctl.h>
#include <condition_variable>
#include <stdarg.h>
extern "C" int usleep(unsigned us) { clk += us; return 0; }
SQLiteClusterMessenger::SQLiteClusterMessenger(const shared_ptr<const SQLiteNode>& n) : _node(n) {}
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand& c, bool) { return false; }
vector<SData> SQLiteClusterMessenger::runOnAll(const SData&) { return {}; }
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, const string&) { return true; }
static const int FD = 77; static deque<string> chunks; static string wire; static atomic<bool> hup, shut; static int idle; static BedrockServer* server_; static function<void()> onCheck; static int checks;
extern "C" int poll(struct pollfd* p, nfds_t, int timeout) { vp_check(p->fd == FD, "polls-its-own-socket"); p->revents = 0; if (!timeout) { vp_check(++checks < 30, "notices-in-time"); if (onCheck) onCheck(); } if (timeout && shut) { p->revents = POLLIN; return 1; } if (chunks.size() && (p->events & POLLIN)) p->revents |= POLLIN; if (hup) p->revents |= POLLIN | (p->events & POLLRDHUP); if (p->revents) return 1; if (!timeout) return 0; if (++idle >= 2) server_->_shutdownState = BedrockServer::START_SHUTDOWN; return 0; }
extern "C" ssize_t recvfrom(int, void* b, size_t n, int, sockaddr*, socklen_t*) { if (shut || (chunks.empty() && hup)) return 0; vp_check(chunks.size() > 0, "never-blocks-in-recv"); string c = chunks.front(); chunks.pop_front(); memcpy(b, c.data(), c.size()); return c.size(); }
extern "C" ssize_t send(int, const void* b, size_t n, int) { if (shut) { errno = EPIPE; return -1; } wire.append((const char*)b, n); return n; }
extern "C" int shutdown(int, int) noexcept { shut = true; return 0; }
extern "C" int ioctl(int, unsigned long, ...) noexcept { return 0; }
extern "C" int fcntl(int, int, ...) { return 0; }
extern "C" int close(int) { return 0; }
extern "C" int pipe(int* fd) noexcept { fd[0] = fd[1] = 30; return 0; }
extern "C" ssize_t write(int, const void*, size_t n) { return n; }
extern "C" ssize_t read(int, void*, size_t) { errno = EWOULDBLOCK; return -1; }
extern "C" char* inet_ntoa(in_addr a) noexcept { static char s[20]; unsigned char* p = (unsigned char*)&a; string t = to_string(p[0]) + "." + to_string(p[1]) + "." + to_string(p[2]) + "." + to_string(p[3]); strcpy(s, t.c_str()); return s; }
static vector<SData> ran; static mutex runMutex; static condition_variable runSignal; static atomic<bool> slow, sawAbort, letGo;
struct Cmd : BedrockCommand { using BedrockCommand::BedrockCommand; bool peek(SQLite& db) override { { lock_guard<mutex> l(runMutex); SData r(request.methodLine); r.nameValueMap = request.nameValueMap; r.content = request.content; ran.push_back(r); } if (request.methodLine == "Fail") STHROW("404 Missing"); if (request.methodLine == "Slow") { unique_lock<mutex> l(runMutex); while (!letGo && !shouldAbort) runSignal.wait(l); sawAbort = sawAbort || shouldAbort; } response["echo"] = request["n"]; response.content = request.content; return true; } };
struct Plug : BedrockPlugin { string nm = "Test"; Plug(BedrockServer& s) : BedrockPlugin(s) {} const string& getName() const override { return nm; } unique_ptr<BedrockCommand> getCommand(SQLiteCommand&& c) override { if (c.request.methodLine == "Bad") STHROW("407 Bad"); if (c.request.methodLine != "Do" && c.request.methodLine != "Fail" && c.request.methodLine != "Slow") return nullptr; return unique_ptr<BedrockCommand>(new Cmd(move(c), this)); } };
static vector<SData> answers() { vector<SData> v; string w = wire; while (w.size()) { SData d; int n = d.deserialize(w); vp_check(n > 0, "answers-are-well-formed"); if (n <= 0) break; v.push_back(d); w = w.substr(n); } return v; }
void vp_main() {
    quiet(); vp_nosched(1); int mode = vp_param("MODE"); Sv v = mkServer("/nonexistent/a.db", 1); BedrockServer& s = *v.s; server_ = &s; s.plugins["Test"] = new Plug(s); s._outstandingSocketThreads = 7; STCPManager::Socket sock(FD, STCPManager::Socket::CONNECTED); sock.addr.sin_addr.s_addr = __builtin_bswap32(0x7f000001);
    if (mode == 0) {
        size_t N = vp_param("REQ"); enum { PLAIN, BODY, PING, CONTROL, FAIL, BAD, UNKNOWN, CLOSE, FORGET, PLUGIN, FUTURE, KINDS }; vector<int> kind; string all; bool one = vp_param("CUTS"); 
        for (size_t i = 0; i < N; i++) { int k = one ? (i ? (int[]){PLAIN, PING}[vp_choice("kind", 2)] : (int[]){PLAIN, BODY, CLOSE, FORGET, CONTROL}[vp_choice("kind", 5)]) : vp_choice("kind", KINDS); kind.push_back(k); static const char* lines[] = {"Do", "Do", "Ping", "ConflictReport", "Fail", "Bad", "Nope", "Do", "Do", "Do", "Do"}; SData d(lines[k]); d["n"] = to_string(i); if (k == BODY) d.content = "ab\r\n\r\nc"; if (k == CLOSE) d["Connection"] = "close"; if (k == FORGET) d["Connection"] = "forget"; if (k == PLUGIN) d["plugin"] = vp_choice("which plugin", 2) ? "Test" : "None"; if (k == FUTURE) d["commandExecuteTime"] = to_string(clk + 60000000); all += d.serialize(); }
        size_t from = 0; for (size_t c = 0; c < vp_param("CUTS"); c++) { size_t at = from + vp_choice("cut", all.size() - from + 1); if (at > from) chunks.push_back(all.substr(from, at - from)); from = at; } if (from < all.size()) chunks.push_back(all.substr(from));
        s.handleSocket(move(sock), false, true, false); auto a = answers(); size_t want = 0; vector<int> expectRan; bool closed = false; for (size_t i = 0; i < N && !closed; i++) { int k = kind[i]; vp_check(a.size() > i, "every-request-is-answered"); if (a.size() <= i) return; want++; SData& d = a[i]; if (k == PLAIN || k == BODY || k == CLOSE || k == PLUGIN) { vp_check(d.methodLine == "200 OK" && d["echo"] == to_string(i) && d.content == (k == BODY ? "ab\r\n\r\nc" : ""), "answers-in-order"); expectRan.push_back(i); } else if (k == PING || k == CONTROL) vp_check(d.methodLine == "200 OK", "answers-in-order"); else if (k == FAIL) { vp_check(SStartsWith(d.methodLine, "404"), "answers-in-order"); expectRan.push_back(i); } else if (k == BAD) vp_check(SStartsWith(d.methodLine, "407"), "answers-in-order"); else if (k == UNKNOWN) vp_check(SStartsWith(d.methodLine, "430"), "answers-in-order"); else { vp_check(SStartsWith(d.methodLine, "202"), "answers-in-order"); if (k == FORGET) expectRan.push_back(i); } vp_reach("answered"); if (k == CLOSE) vp_check(d["Connection"] == "close", "says-it-closes"); closed = k == CLOSE || k == FORGET || k == FUTURE; }
        vp_check(a.size() == want, "no-answer-after-closing-or-twice"); vp_check(ran.size() == expectRan.size(), "each-request-runs-exactly-once"); for (size_t i = 0; i < ran.size() && i < expectRan.size(); i++) vp_check(ran[i]["n"] == to_string(expectRan[i]), "runs-in-order"); vp_check(s._commandQueue.size() == (size_t)count(kind.begin(), kind.begin() + want, FUTURE), "future-commands-are-kept"); if (closed) vp_reach("closed"); }
    if (mode == 1) { static const uint32_t ips[] = {0x7f000001, 0x7f000002, 0x0a000001, 0}; int ip = vp_choice("address", 4), port = vp_choice("port", 3), said = vp_choice("claims a source", 3); bool blocked = vp_choice("blocked", 2), down = vp_choice("shutting down", 2); sock.addr.sin_addr.s_addr = __builtin_bswap32(ips[ip]); if (blocked) s.blockCommandPort("x"); SData d("Do"); d["n"] = "0"; if (said) d["_source"] = said == 1 ? "127.0.0.1" : "9.9.9.9"; int ctl = vp_choice("control", 2); if (ctl) d.methodLine = "SetConflictPageLocks", d["enable"] = "true"; chunks.push_back(d.serialize()); chunks.push_back(SData("Ping").serialize()); if (down) s._shutdownState = BedrockServer::START_SHUTDOWN; s._enableConflictPageLocks = false; s.handleSocket(move(sock), port == 0, port == 1, port == 2); bool local = ip == 0 || port == 2; auto a = answers(); vp_check(a.size() >= 1, "answered"); if (a.empty()) return; vp_reach(local ? "local" : "remote");
        string src = local ? (said == 0 ? "" : said == 1 ? "127.0.0.1" : "9.9.9.9") : string(inet_ntoa({__builtin_bswap32(ips[ip])})); bool refusedDown = port == 0 && down && !ctl; if (ctl) vp_check(SStartsWith(a[0].methodLine, src.empty() ? "200" : "401") && s._enableConflictPageLocks == src.empty(), "control-only-from-localhost"); else { vp_check(refusedDown ? ran.empty() && SStartsWith(a[0].methodLine, "500") : ran.size() == 1 && ran[0]["_source"] == src, "source-is-the-peer-address"); }
        bool close = (port == 1 && blocked) || down; vp_check((a[0]["Connection"] == "close") == close && a.size() == (close ? 1 : 2), "blocked-port-closes-the-connection"); }
    if (mode == 2) { chunks.push_back("Slow\r\nn: 0\r\n\r\n"); slow = true; int why = vp_choice("why", 3), when = vp_choice("when", 3); onCheck = [&] { lock_guard<mutex> l(runMutex); if (checks > when) { if (why == 0) hup = true; else if (why == 1) { s._shutdownState = BedrockServer::START_SHUTDOWN; s._shutdownTime.store(chrono::steady_clock::now() - chrono::seconds(1)); } else letGo = true; } runSignal.notify_all(); }; vp_nosched(0); s.handleSocket(move(sock), false, true, false); vp_nosched(1); onCheck = nullptr; if (ran.size()) { vp_check(why == 2 ? !sawAbort : sawAbort.load(), "a-client-that-left-stops-its-command"); vp_check(why == 0 || answers().size() == 1, "answered-unless-the-client-left"); vp_reach(sawAbort ? "aborted" : "finished"); } vp_check(ran.size() <= 1 && BedrockCommand::getCommandCount() == 0, "command-is-released"); }
    if (mode == 3) { int n = vp_choice("threads", 4); s._outstandingSocketThreads = 49 + n; bool block = vp_choice("blocked", 2); if (block) { s._shouldBlockNewSocketThreads = true; s.blockCommandPort("NOT_ENOUGH_THREADS"); } hup = true; s.handleSocket(move(sock), false, true, false); bool un = block && 48 + n <= 50 && 48 + n == 50; vp_check(s._commandPortBlockReasons.size() == (size_t)(block && !un) && s._shouldBlockNewSocketThreads == (block && !un), "reopens-when-enough-threads-are-free"); if (un) vp_reach("unblocked"); s._outstandingSocketThreads = s._outstandingSocketThreads + 1 - (49 + n) + 7; s._outstandingSocketThreads--; }
    vp_check(s._outstandingSocketThreads == 6 || mode == 3, "thread-is-counted-out"); vp_reach("end");
}
