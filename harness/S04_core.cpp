//VP property: S04
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp BedrockCommand.cpp BedrockCore.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case stages: quick MODE=0 ACTS=2 FAULT=0 | thorough MODE=0 ACTS=3 FAULT=0 | reach end committed refused failed peeked mock post
//VP case faults: quick MODE=0 ACTS=1 FAULT=1 | thorough MODE=0 ACTS=2 FAULT=1 | reach end committed failed
//VP case time: quick MODE=1 | thorough MODE=1 | reach end expired remains
//VP bound: stages: one command with any combination of outcomes of its stages (nothing, read, write, duplicate key, error reply with headers and body, slow query past the time limit, foreign exception, response, content, client disconnect), ACTS actions in process and one elsewhere, shared or exclusive, mocked or not, in state LEADING or not, followed by a second command on the same handle; faults: additionally one SQLite error at any statement up to the end of process (with or without an automatic rollback), or a conflict at COMMIT; time: every timeout and clock value
//VP assume: SQLite behaves as env/sqlite_model.cpp
#include "cluster.h"
#include <BedrockCommand.h>
#include <BedrockCore.h>
#include <BedrockServer.h>
#include <stdexcept>
static uint64_t clk = 1700000000000000ull; extern "C" uint64_t vp_now_us() { return clk; }
extern "C" unsigned sleep(unsigned) { return 0; }
void vp_net_send(SQLitePeer*, const SData&) {}
void vp_net_shutdown(SQLitePeer*) {}
static bool armed, faulted, committing; static int faultCode;
extern "C" int vp_sqlite_fault(sqlite3*, int where, const char* sql) { if (!armed || faulted || where != 1) return 0; if (strstr(sql, "PRAGMA") || !strcmp(sql, "ROLLBACK") || (committing && strcmp(sql, "COMMIT")) || !vp_bool("fault")) return 0; faulted = true; return faultCode = !committing && vp_bool("rolled back") ? SQLITE_IOERR | (1 << 24) : SQLITE_BUSY; }
static const char* acts[] = {"nothing", "read", "write", "duplicate", "reply", "slow", "std", "foreign", "respond", "content", "disconnect"}; enum { NOTHING, READ, WRITE, DUP, REPLY, SLOW, STD, FOREIGN, RESPOND, CONTENT, GONE };
static uint64_t limitUs;
struct Cmd : BedrockCommand {
    vector<int> plan[4]; bool done = true; string want; int wrote = 0; int stage = -1, next = 100; bool dbFailed = false;
    Cmd(SData&& r) : BedrockCommand(SQLiteCommand(move(r)), nullptr) {}
    bool shouldPrePeek() override { return true; } bool shouldPostProcess() override { return true; }
    void act(SQLite& db, int s) { stage = s; for (int a : plan[s]) {
        if (a == READ) { SQResult r; if (!db.read("SELECT a FROM t;", r)) { dbFailed = true; STHROW("502 read failed"); } }
        else if (a == WRITE) { bool ok = db.write("INSERT INTO t VALUES (" + to_string(next++) + ");"); if (!ok) { dbFailed = true; STHROW("502 write failed"); } vp_check(s == 2, "only-process-can-write"); wrote++; }
        else if (a == DUP) { if (!db.write("INSERT INTO t VALUES (1);")) { dbFailed = true; STHROW("502 write failed"); } }
        else if (a == REPLY) STHROW("404 Missing", STable({{"why", "because"}}), "body"); else if (a == SLOW) { clk += limitUs; SQResult r; db.read("SELECT count(*) FROM t;", r); }
        else if (a == STD) throw runtime_error("x"); else if (a == FOREIGN) throw 5; else if (a == RESPOND) response.methodLine = "201 Made"; else if (a == CONTENT) jsonContent["k"] = "v"; else if (a == GONE) shouldAbort = true; } }
    void prePeek(SQLite& db) override { act(db, 0); } bool peek(SQLite& db) override { act(db, 1); return done; } void process(SQLite& db) override { act(db, 2); } void postProcess(SQLite& db) override { act(db, 3); }
};
static string content(SQLite& db) { bool a = armed; armed = false; SQResult r; string s; SQuery(db.getDBHandle(), "SELECT a FROM t;", r); for (auto& x : r) s += x[0] + ","; armed = a; return s; }
static bool isError(const string& s) { return s.size() && s[0] >= '4'; }
static void usable(SQLite& db, SQLite& other, BedrockCommand* c) { // nothing of a finished command is left on the handle
    vp_check(!db.insideTransaction() && sqlite3_get_autocommit(db.getDBHandle()) && db.getUncommittedQuery().empty() && db.getUncommittedHash().empty(), "no-transaction-left"); vp_check(!db.getUpdateNoopMode() && !db._enableRewrite && !db._timeoutLimit && !db._shouldAbortPtr, "no-mode-or-limit-left"); if (c) vp_check(!static_cast<BedrockCommand*>(c)->_inDBReadOperation && !c->_inDBWriteOperation, "no-stage-left-open");
    bool a = armed; armed = false; uint64_t n = other.getCommitCount(); clk += 3600000000ull; vp_check(db.beginTransaction() && db.write("INSERT INTO u VALUES (1);") && db.prepare() && db.commit() == SQLITE_OK && other.getCommitCount() == n + 1, "handle-still-works"); armed = a;
}
static void stages() {
    vp_nosched(1); atomic<int> conf{5}; auto pool = make_shared<SQLitePool>(4, "/nonexistent/a.db", 0, 1000, -1); SQLite& other = pool->getBase(); other.beginTransaction(); other.write("CREATE TABLE t (a INTEGER UNIQUE);"); other.write("CREATE TABLE u (a INTEGER);"); other.write("INSERT INTO t VALUES (1);"); other.prepare(); other.commit(); SQLite db(other);
    SQLiteNode node(server, pool, "me", "", "", conf, 1000000, "v"); node._state = St::LEADING; static char mem[sizeof(BedrockServer)] __attribute__((aligned(64))); const BedrockServer& bs = *(BedrockServer*)mem; new ((void*)&bs.args) SData(); bool fault = vp_param("FAULT");
    SData r("Do"); r["requestID"] = "x"; bool mock = !fault && vp_choice("mock", 2); if (mock) r["mockRequest"] = "1"; bool excl = vp_choice("exclusive", 2); limitUs = 200000000;
    unique_ptr<BedrockCommand> cmd(new Cmd(move(r))); Cmd& c = *(Cmd*)cmd.get(); BedrockCore core(db, bs); c.socket = (STCPManager::Socket*)&node; string before = content(other); uint64_t count = other.getCommitCount();
    int st = vp_choice("stage", 4); auto pick = [&](int s, bool final) { c.plan[s].push_back(vp_choice("act", final ? 11 : 3 )); };
    auto expect = [&](int s, bool ok) { string m = c.response.methodLine; bool gone = c.shouldAbort; // what the plan of this stage must lead to
        if (faulted) { if (!ok) vp_check(isError(m), "failure-is-reported"); return; }
        string w; bool body = false, left = false; for (int a : c.plan[s]) { if (!w.empty()) break; if (left && (a == READ || a == SLOW || ((a == WRITE || a == DUP) && (!mock || s != 2)))) { w = "499"; break; } left = left || a == GONE;
            if ((a == WRITE || a == DUP) && s != 2) w = s == 1 ? "502" : "50"; else if (a == DUP && !mock) w = "400"; else if (a == REPLY) { w = "404"; body = true; } else if (a == SLOW) w = "555"; else if (a == STD || a == FOREIGN) w = "500"; }
        if (w.empty() && gone) w = "556"; vp_check(ok == w.empty(), "fails-iff-a-stage-fails"); if (w.empty()) vp_check(!isError(m), "success-is-not-reported-as-failure"); else vp_check(SStartsWith(m, w), "reported-with-the-matching-error"); if (body) vp_check(c.response["why"] == "because" && c.response.content == "body", "error-reply-carries-headers-and-body"); };
    armed = fault; vp_reach("end");
    if (st == 0) { pick(0, true); core.prePeekCommand(cmd, excl); vp_check(c.prePeekCount <= 1 && content(other) == before && !db.insideTransaction(), "pre-peek-changes-nothing"); expect(0, !c.complete); armed = false; usable(db, other, &c); return; }
    if (st == 1) { pick(1, true); pick(1, true); c.done = vp_choice("done", 2); auto res = core.peekCommand(cmd, excl); vp_check(content(other) == before, "peek-changes-nothing"); bool failed = isError(c.response.methodLine); expect(1, !failed);
        vp_check((res == BedrockCore::RESULT::SHOULD_PROCESS) == (!c.done && !failed) && (failed || c.done ? res == BedrockCore::RESULT::COMPLETE && c.complete : !c.complete), "processed-iff-peek-did-not-finish");
        if (res == BedrockCore::RESULT::COMPLETE) { bool odd = SStartsWith(c.response.methodLine, "500"); vp_check((odd || c.response["commitCount"] == to_string(count)) && !c.response.methodLine.empty() && (failed || c.jsonContent.empty() || c.response.content == "{\"k\":\"v\"}"), "response-is-complete"); vp_reach("peeked"); } else { vp_check(db.insideTransaction(), "transaction-stays-open-for-process"); armed = false; core.rollback("x"); } armed = false; usable(db, other, &c); return; }
    if (st == 3) { pick(3, true); c.response.methodLine = "200 OK"; core.postProcessCommand(cmd, excl); vp_check(c.complete && content(other) == before && !db.insideTransaction(), "post-process-changes-nothing"); expect(3, !isError(c.response.methodLine)); armed = false; vp_reach("post"); usable(db, other, &c); return; }
    c.done = false; if (vp_choice("peek first", 2)) { vp_check(core.peekCommand(cmd, excl) == BedrockCore::RESULT::SHOULD_PROCESS || faulted, "peeks"); if (c.complete) { armed = false; vp_check(isError(c.response.methodLine) && content(other) == before, "failed-peek-changes-nothing"); usable(db, other, &c); return; } }
    for (size_t i = 0; i < vp_param("ACTS"); i++) pick(2, true); if (vp_choice("query rewriting", 2)) {} auto res = core.processCommand(cmd, excl); bool failed = isError(c.response.methodLine); expect(2, !failed); vp_check(content(other) == before, "nothing-is-visible-before-the-commit");
    bool need = res == BedrockCore::RESULT::NEEDS_COMMIT; vp_check(need == (!failed && (mock || c.wrote)) && c.complete == !need && (need || res == BedrockCore::RESULT::NO_COMMIT_REQUIRED), "commits-iff-it-wrote-and-did-not-fail"); vp_check(need == db.insideTransaction(), "transaction-open-iff-it-will-be-committed"); if (failed) vp_reach("failed"); vp_check(failed || c.jsonContent.empty() || c.response.content == "{\"k\":\"v\"}", "content-is-in-the-response"); vp_check(!c.response.methodLine.empty(), "response-is-set");
    if (need) { bool leading = vp_choice("leading", 2); if (!leading) node._state = St::STANDINGDOWN; uint64_t id = 0; string h; committing = true; bool ok = core.commit(node, id, h, "x", false, nullptr, chrono::microseconds(0), &c.shouldAbort); committing = false; string after = content(other); string full = before; for (int i = 0; i < (mock ? 0 : c.wrote); i++) full += to_string(100 + i) + ",";
        vp_check(ok || faulted || !leading, "commit-succeeds-while-leading"); vp_check(!ok || leading, "no-commit-when-not-leading"); vp_check(after == (ok ? full : before) && other.getCommitCount() == count + (ok ? 1 : 0), "all-writes-or-none"); if (ok) vp_check(id == count + 1 && h == other.getCommittedHash(), "commit-number-and-hash"); vp_reach(ok ? "committed" : "refused"); if (mock) vp_reach("mock"); }
    else vp_check(content(other) == before && other.getCommitCount() == count, "failed-or-read-only-commands-change-nothing");
    armed = false; usable(db, other, &c);
}
static void timing() {
    SData r("Do"); r["requestID"] = "x"; bool t = vp_choice("timeout", 2), p = vp_choice("process timeout", 2), f = vp_choice("forget", 2); static const char* vals[] = {"0", "1", "5000", "-1", "2147483647", "x"}; int tv = t ? vp_choice("timeout value", 6) : 0, pv = p ? vp_choice("process value", 6) : 0; static const int64_t num[] = {0, 1, 5000, -1, 2147483647, 0};
    if (t) r["timeout"] = vals[tv]; if (p) r["processTimeout"] = vals[pv]; if (f) r["Connection"] = "forget"; int64_t limit = t ? num[tv] : f ? 3600000 : 110000, plimit = p ? num[pv] : 5000; uint64_t start = clk; unique_ptr<BedrockCommand> c(new BedrockCommand(SQLiteCommand(move(r)), nullptr));
    vp_check(c->timeout() == start + limit * 1000 && c->scheduledTime == start, "timeout-counts-from-the-schedule"); bool proc = vp_bool("processing"); uint64_t pass = vp_range("pass", 0, 1ull << 42); clk = start + pass; int64_t left = limit * 1000 - (int64_t)pass; bool expired = left <= 0 || (proc && plimit <= 0); int64_t got = 0; bool threw = false;
    try { got = BedrockCore::getRemainingTime(c, proc).count(); } catch (const SException& e) { threw = true; vp_check(SStartsWith(e.what(), "555"), "expired-is-555"); }
    vp_check(threw == expired, "expired-iff-no-time-is-left"); if (!expired) vp_check(got == (proc && plimit * 1000 < left ? plimit * 1000 : left), "remaining-time"); vp_check(BedrockCore::isTimedOut(c) == (left <= 0) && c->complete == (left <= 0), "timed-out-iff-over"); vp_reach(expired ? "expired" : "remains"); vp_reach("end");
}
void vp_main() { quiet(); vp_param("MODE") ? timing() : stages(); }
