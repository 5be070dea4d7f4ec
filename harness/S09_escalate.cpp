//VP property: S09
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteCommand.cpp sqlitecluster/SQLiteClusterMessenger.cpp plugins/Compression.cpp BedrockCommand.cpp BedrockPlugin.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp shared_lock.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp fake_connect.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case send: quick MODE=0 FAULTS=3 PHASE=0 | thorough MODE=0 FAULTS=4 PHASE=0 | reach end answered retry aborted
//VP case receive: quick MODE=0 FAULTS=2 PHASE=1 | thorough MODE=0 FAULTS=3 PHASE=1 | reach end answered failed aborted
//VP case leader: quick MODE=1 | thorough MODE=1 | reach end answered retry
//VP case carry: quick MODE=2 N=3 | thorough MODE=2 N=4 | reach end
//VP case named: quick MODE=3 PEERS=2 | thorough MODE=3 PEERS=3 | reach end
//VP case pool: quick MODE=4 OPS=6 | thorough MODE=4 OPS=7 | reach end reused stale
//VP case poolrace: quick MODE=5 --preempt 2 | thorough MODE=5 --preempt 3 | reach end
//VP bound: send/receive: one escalated command with up to FAULTS partial transfers, interrupted calls, timeouts, errors, hang-ups and client aborts at every point of sending and receiving; leader: a leader that appears, disappears or is replaced by this node after up to 6 s, and timeouts around that; carry: HTTPS requests and headers of up to N bytes of any text; named: a command sent to PEERS peers of which any fail; pool: every sequence of OPS get, return, hang-up and time operations; poolrace: two users of one pool, all interleavings with up to the stated number of preemptions
//VP assume: the connection delivers what send() accepted
#include "cluster.h"
#include <BedrockCommand.h>
#include <BedrockPlugin.h>
#include <sqlitecluster/SQLiteClusterMessenger.h>
#include <libstuff/SMultiHostSocketPool.h>
#include <libstuff/SHTTPSManager.h>
#include <poll.h>
#include <thread>
#include <stdarg.h>
static uint64_t clk = 1700000000000000ull; extern "C" uint64_t vp_now_us() { return clk; }
static function<void()> onSleep; extern "C" int usleep(unsigned us) { clk += us; if (onSleep) onSleep(); return 0; }
void vp_net_send(SQLitePeer*, const SData&) {}
void vp_net_shutdown(SQLitePeer*) {}
extern "C" long sysconf(int) { return 4096; }
extern "C" int shutdown(int, int) noexcept { return 0; }
extern "C" int fcntl(int, int, ...) { return 0; }
extern "C" int pipe(int* fd) noexcept { fd[0] = fd[1] = 30; return 0; }
extern "C" ssize_t write(int, const void*, size_t n) { return n; }
extern "C" ssize_t read(int, void*, size_t) { errno = EWOULDBLOCK; return -1; }
struct Conn { string host, wire; bool open = true, hup = false, unread = false; string answer; size_t given = 0; int users = 0; }; static deque<Conn> conns; static mutex connMutex; static int refuse = 0;
int vp_connect(const string& h) { lock_guard<mutex> l(connMutex); if (refuse) return -1; conns.push_back(Conn()); conns.back().host = h; return 100 + conns.size() - 1; }
static Conn& at(int fd) { lock_guard<mutex> l(connMutex); vp_check(fd >= 100 && (size_t)(fd - 100) < conns.size(), "uses-an-open-descriptor"); Conn& c = conns[fd - 100]; vp_check(c.open, "uses-an-open-descriptor"); return c; }
extern "C" int close(int fd) { if (fd < 100) return 0; Conn& c = at(fd); c.open = false; return 0; }
static int phase = 0, faults = 0; static bool mayAbort = false; static BedrockCommand* cur = nullptr; static string full; static bool lost = false, timedOut = false; static size_t polls = 0;
static bool fault(const char* w) { if (faults <= 0) return false; bool b = vp_choice(w, 2); if (b) faults--; return b; }
extern "C" int poll(struct pollfd* p, nfds_t, int timeout) { Conn& c = at(p->fd); p->revents = 0; vp_check(++polls < 60, "gives-up-in-the-end"); if (c.hup) p->revents |= POLLHUP; if (c.unread && (p->events & POLLIN)) p->revents |= POLLIN; if (timeout == 0) { if (p->events & POLLOUT) p->revents |= POLLOUT; return p->revents ? 1 : 0; }
    bool sending = p->events & POLLOUT; if (sending == !phase && fault("poll fault")) { switch (vp_choice("poll how", sending ? 5 : 4)) { case 0: clk += 100000; return 0; case 1: errno = EINTR; return -1; case 2: errno = ENOMEM; lost = true; return -1; case 3: if (mayAbort) { cur->shouldAbort = true; clk += 100000; return 0; } lost = true; p->revents = POLLERR | POLLHUP; return 1; default: lost = true; p->revents = POLLOUT | POLLRDHUP; return 1; } }
    if (sending) { p->revents |= POLLOUT; return 1; } if (c.given < c.answer.size() || c.hup || c.unread) { p->revents |= POLLIN; return 1; } clk += (uint64_t)timeout * 1000; if (cur && clk > cur->timeout()) timedOut = true; return 0; }
extern "C" ssize_t send(int fd, const void* b, size_t n, int) { Conn& c = at(fd); if (!phase && fault("send fault")) switch (vp_choice("send how", 4)) { case 0: errno = EAGAIN; return -1; case 1: errno = EINTR; return -1; case 2: errno = EPIPE; lost = true; return -1; default: n = n > 3 ? (vp_choice("part", 2) ? n - 1 : 3) : n; } c.wire.append((const char*)b, n); return n; }
extern "C" ssize_t recv(int fd, void* b, size_t n, int) { Conn& c = at(fd); size_t left = c.answer.size() - c.given; if (phase && fault("recv fault")) switch (vp_choice("recv how", 4)) { case 0: errno = EINTR; return -1; case 1: errno = ECONNRESET; lost = true; return -1; case 2: lost = true; return 0; default: left = left > 1 ? 1 + vp_choice("piece", left - 1) : left; } if (!left) { lost = true; return 0; } n = min(n, left); memcpy(b, c.answer.data() + c.given, n); c.given += n; return n; }
struct Plug : BedrockPlugin { string nm = "Test"; Plug(BedrockServer& s) : BedrockPlugin(s) {} const string& getName() const override { return nm; } unique_ptr<BedrockCommand> getCommand(SQLiteCommand&&) override { return nullptr; } };
struct Cmd : BedrockCommand { string data; using BedrockCommand::BedrockCommand; string serializeData() const override { return data; } };
static atomic<int> conf{5};
static shared_ptr<SQLiteNode> mkNode(size_t peers) { auto pool = mkPool("/nonexistent/a.db", 1); auto n = make_shared<SQLiteNode>(server, pool, "me", "", peerNames(peers), conf, 1000000, "v"); for (auto* p : n->_peerList) p->commandAddress = p->name + ":80"; return n; }
static Conn& served(Conn& c, const string& a) { c.answer = a; return c; }
static BedrockServer& nobody() { static char b[sizeof(void*)]; return *(BedrockServer*)(void*)b; }
static string answerText(const string& extra = "") { SData r("200 OK"); r["n"] = "7"; if (extra.size()) r["Connection"] = extra; r.content = "xyz"; return r.serialize(); }
void vp_main() {
    quiet(); vp_nosched(1); int mode = vp_param("MODE"); auto n = mkNode(mode == 3 ? vp_param("PEERS") : 2); n->_state = St::FOLLOWING; SQLitePeer* lead = n->_peerList[0]; n->_leadPeer = lead; lead->state = St::LEADING; SQLiteClusterMessenger m(n); Plug plug(nobody());
    if (mode == 0) { phase = vp_param("PHASE"); faults = vp_param("FAULTS"); SData r("Do"); r["k"] = "v"; r["timeout"] = "250"; static const char* closes[] = {"", "close"}; int reqClose = phase ? 0 : vp_choice("request closes", 2), resClose = phase ? vp_choice("response closes", 2) : 0; if (reqClose) r["Connection"] = "close"; r.content = "body"; Cmd c(SQLiteCommand(move(r)), &plug); cur = &c; STCPManager::Socket client(-1, STCPManager::Socket::CONNECTED); mayAbort = vp_choice("has a client", 2); if (mayAbort) c.socket = &client; c.response["stale"] = "1"; c.response.content = "old";
        struct Ans : Conn {}; string ans = answerText(closes[resClose]); int silent = phase ? vp_choice("silent", 2) : 0; onSleep = nullptr; 
        // The leader answers once the request is there in full; the stub below is told the answer up front, and the check on the wire shows that it was only read afterwards.
        struct Hook { }; SData expect = c.request; refuse = phase ? 0 : vp_choice("refused", 2); string before = c.request.serialize();
        thread* none = nullptr; (void)none; static string pending; pending = silent ? "" : ans; if (!refuse) { unique_ptr<STCPManager::Socket> s = m._socketPool.getSocket(lead->commandAddress.load()); conns[0].answer = pending; m._socketPool.returnSocket(move(s), lead->commandAddress.load()); }
        uint64_t start = clk; bool done = m.runOnPeer(c, true); vp_check(c.request.serialize() == before, "request-is-not-altered"); bool aborted = mayAbort && c.shouldAbort; vp_check(clk - start < 5000000 + 1000000, "gives-up-soon-after-the-timeout");
        if (refuse) { vp_check(!done && !c.complete && conns.empty(), "refused-connection-is-retried"); vp_reach("retry"); return; }
        vp_check(conns.size() == 1, "one-connection"); SData got; int used = got.deserialize(conns[0].wire); bool whole = used > 0 && (size_t)used == conns[0].wire.size(); vp_check(used <= 0 || whole, "sent-at-most-once"); if (whole) { vp_check(got.methodLine == "Do" && got["k"] == "v" && got.content == "body" && got["ID"] == c.id && SToUInt64(got["timeout"]) <= 250, "arrives-as-sent"); }
        bool ok = whole && !lost && !timedOut && !silent && !aborted && c.response.methodLine == "200 OK"; vp_check(done == (c.complete || false), "result-says-whether-to-retry"); if (!done && c.complete) vp_check(true, "x");
        if (whole) vp_check(c.complete, "never-run-twice"); if (!whole) vp_check(aborted ? c.complete : !c.complete, "unsent-command-is-retried"); if (aborted && c.complete) { vp_check(SStartsWith(c.response.methodLine, "556"), "abort-is-reported"); vp_reach("aborted"); }
        if (c.complete && !aborted) { if (c.response.methodLine == "200 OK") { vp_check(conns[0].given == ans.size() && c.response["n"] == "7" && c.response.content == "xyz" && !c.response.isSet("stale"), "answer-is-exactly-the-peers"); vp_check(c.escalated, "marked-escalated"); vp_reach("answered"); } else { vp_check(SStartsWith(c.response.methodLine, "500") && c.response.content.empty() && c.response.nameValueMap.empty() && (lost || timedOut || silent), "failure-is-an-error-without-half-an-answer"); vp_reach("failed"); } } if (!c.complete) { vp_check(!c.escalated, "not-escalated"); vp_reach("retry"); }
        bool keep = c.complete && !aborted && c.response.methodLine == "200 OK" && !reqClose && !resClose; vp_check(conns[0].open == keep, "connection-is-kept-only-after-a-full-exchange"); (void)ok; }
    if (mode == 1) { static const uint64_t limits[] = {100, 300, 4000, 4600, 20000}; uint64_t limit = limits[vp_choice("timeout", 5)]; uint64_t after = vp_choice("leader after", 13) * 500000ull; int becomes = vp_choice("becomes", 4); bool had = vp_choice("state", 2); lead->state = St::SEARCHING; if (had) n->_leadPeer = nullptr; uint64_t start = clk; SData r("Do"); r["timeout"] = to_string(limit); Cmd c(SQLiteCommand(move(r)), &plug); cur = &c; bool mine = false;
        onSleep = [&] { if (clk - start >= after) { if (becomes == 0) lead->state = St::LEADING, n->_leadPeer = lead; else if (becomes == 1) n->_leadPeer = n->_peerList[1], n->_peerList[1]->state = St::LEADING; else if (becomes == 2) n->_state = St::LEADING, mine = true; } }; { auto s = m._socketPool.getSocket("p0:80"); conns[0].answer = answerText(); m._socketPool.returnSocket(move(s), "p0:80"); s = m._socketPool.getSocket("p1:80"); conns[1].answer = answerText(); m._socketPool.returnSocket(move(s), "p1:80"); }
        bool done = m.runOnPeer(c, true); vp_check(clk - start < 6000000 || clk - start < limit * 1000 + 6000000, "waits-at-most-five-seconds-for-a-leader"); size_t to = (conns[0].wire.size() ? 1 : 0) + (conns[1].wire.size() ? 2 : 0); if (!done) { vp_check(!to && !c.complete, "no-leader-is-retried"); vp_reach("retry"); return; } vp_check(!mine && to == (becomes == 1 ? 2u : 1u) && becomes < 2, "goes-to-the-leader"); if (to != 1 && to != 2) return; SData got; got.deserialize(conns[to - 1].wire); vp_check(c.response.methodLine == "200 OK", "answered"); vp_reach("answered"); vp_check(SToUInt64(got["timeout"]) <= limit, "leader-gets-no-more-time-than-is-left"); Cmd there(SQLiteCommand(move(got)), &plug); vp_check(there.timeout() <= max(c.timeout(), clk + 1000), "leader-gets-no-more-time-than-is-left"); }
    if (mode == 2) { size_t N = vp_param("N"); int which = vp_choice("which", 4); auto text = [&](int k, const char* name) { return which == k ? vp_str(name, 0, N) : string("ab"); }; SData r("Do"); string av = text(0, "value"); for (char x : av) vp_assume(x != 0); r["a"] = av; r.content = text(1, "content"); r["timeout"] = "5000"; Cmd c(SQLiteCommand(move(r)), &plug); cur = &c; c.data = text(2, "data"); for (char x : c.data) vp_assume(x != 0); SStandaloneHTTPSManager hm; int count = which == 3 ? 1 : vp_choice("https requests", 2); for (int i = 0; i < count; i++) { auto t = make_unique<SHTTPSManager::Transaction>(hm); t->s = nullptr; t->created = 5; t->finished = 7 + vp_choice("later", 2); t->timeoutAt = clk; t->response = 200 + vp_choice("code", 2); t->fullRequest.methodLine = "GET / HTTP/1.1"; t->fullRequest["Host"] = "h"; t->fullResponse.methodLine = "200 OK"; t->fullResponse.content = text(3, "https content"); c.httpsRequests.push_back(move(t)); }
        auto s = m._socketPool.getSocket("p0:80"); conns[0].answer = answerText(); m._socketPool.returnSocket(move(s), "p0:80"); vp_check(m.runOnPeer(c, true), "answered"); SData got; vp_check((size_t)got.deserialize(conns[0].wire) == conns[0].wire.size(), "whole"); vp_check(c.data.empty() == !got.isSet("serializedData"), "data-is-carried"); string carried = got["serializedData"]; string trimmed = STrim(c.data); vp_check(carried == c.data || c.data.size() != trimmed.size(), "data-is-carried"); string hr = got["httpsRequests"]; got.erase("httpsRequests"); string id = got["ID"]; Cmd there(SQLiteCommand(move(got)), &plug); there.id = id; there.deserializeHTTPSRequests(hr); vp_check(there.request.methodLine == "Do" && there.request.content == c.request.content && there.id == c.id, "request-is-carried"); vp_check(there.timeout() <= c.timeout() + 1000 && there.timeout() + 2000 >= c.timeout(), "time-limit-is-carried"); vp_check(there.httpsRequests.size() == c.httpsRequests.size(), "https-requests-are-carried"); if (count && there.httpsRequests.size()) { auto &x = *c.httpsRequests.front(), &y = *there.httpsRequests.front(); vp_check(y.created == x.created && y.finished == x.finished && y.timeoutAt == x.timeoutAt, "https-times-are-carried"); vp_check(y.response == x.response, "https-results-are-carried"); vp_check(y.fullRequest.methodLine == x.fullRequest.methodLine && y.fullRequest["Host"] == "h", "https-requests-are-carried"); vp_check(y.fullResponse.methodLine == "200 OK", "https-answers-are-carried"); vp_check(y.fullResponse.content == x.fullResponse.content, "https-answers-are-carried"); } }
    if (mode == 3) { size_t P = vp_param("PEERS"); vector<int> bad; for (size_t i = 0; i < P; i++) { string a = "p" + to_string(i) + ":80"; auto s = m._socketPool.getSocket(a); bad.push_back(vp_choice("peer", 3)); if (bad[i] == 0) { SData r("200 OK"); r["who"] = to_string(i); conns[i].answer = r.serialize(); } if (bad[i] == 1) conns[i].unread = false, conns[i].answer = "200 OK\r\nConte"; m._socketPool.returnSocket(move(s), a); if (bad[i] == 2) n->_peerList[i]->commandAddress = ""; } SData r("Ask"); r["timeout"] = "300"; vector<SData> out = m.runOnAll(r); vp_check(out.size() == P, "one-result-per-peer"); set<string> who; size_t errors = 0; for (auto& d : out) if (d.methodLine == "200 OK") { vp_check(who.insert(d["who"]).second, "each-answer-once"); } else { vp_check(SStartsWith(d.methodLine, "500"), "failure-is-reported"); errors++; } for (size_t i = 0; i < P; i++) { vp_check(who.count(to_string(i)) == (bad[i] == 0), "answers-of-all-peers"); SData g; vp_check(bad[i] == 2 ? conns[i].wire.empty() : (g.deserialize(conns[i].wire) == (int)conns[i].wire.size() && g.methodLine == "Ask"), "asked-once"); } BedrockCommand c(SQLiteCommand(SData("Ask")), nullptr); vp_check(!m.runOnPeer(c, string("stranger")) && c.complete && SStartsWith(c.response.methodLine, "500"), "unknown-peer-is-an-error"); }
    if (mode == 4) { SMultiHostSocketPool pool; vector<unique_ptr<STCPManager::Socket>> held; vector<string> hostOf; for (size_t i = 0; i < vp_param("OPS"); i++) { switch (vp_choice("op", 4)) { case 0: { string h = vp_choice("host", 2) ? "b:1" : "a:1"; size_t had = conns.size(); auto s = pool.getSocket(h); vp_check(s != nullptr, "connects"); if (!s) return; Conn& c = at(s->s); vp_check(c.host == h, "connection-to-the-right-host"); vp_check(!c.hup && !c.unread, "never-hands-out-a-dead-connection"); vp_check(++c.users == 1, "one-user-at-a-time"); if (conns.size() == had) vp_reach("reused"); held.push_back(move(s)); hostOf.push_back(h); break; }
        case 1: if (held.size()) { at(held.front()->s).users--; pool.returnSocket(move(held.front()), hostOf.front()); held.erase(held.begin()); hostOf.erase(hostOf.begin()); } break; case 2: for (auto& c : conns) if (c.open && !c.users) { (vp_choice("how", 2) ? c.hup : c.unread) = true; vp_reach("stale"); break; } break; case 3: clk += 6000000; break; } } for (auto& s : held) vp_check(at(s->s).users == 1, "held-connection-stays-open"); size_t open = 0; held.clear(); for (auto& c : conns) open += c.open; vp_check(open <= conns.size(), "x"); }
    if (mode == 5) { { SSocketPool pool("a:1"); { auto s = pool.getSocket(); pool.returnSocket(move(s)); } atomic<int> done(0); auto user = [&] { auto s = pool.getSocket(); vp_check(s != nullptr, "connects"); Conn& c = at(s->s); { lock_guard<mutex> l(connMutex); vp_check(++c.users == 1, "one-user-at-a-time"); } { lock_guard<mutex> l(connMutex); c.users--; } pool.returnSocket(move(s)); done++; }; vp_nosched(0); thread a(user), b(user); a.join(); b.join(); vp_nosched(1); vp_check(done == 2, "both-served"); } for (auto& c : conns) vp_check(!c.open, "all-closed-at-the-end"); }
    vp_reach("end");
}
