//VP property: P01
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteUtils.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp plugins/Jobs.cpp BedrockCommand.cpp BedrockCore.cpp BedrockServer.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp BedrockConflictManager.cpp ConflictLockGuard.cpp BedrockPlugin.cpp VMTouch.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp shared_lock.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp counting_random.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case get: quick MODE=0 JOBS=2 | thorough MODE=0 JOBS=3 | reach end given none failed
//VP case family: quick MODE=1 WIDE=0 | thorough MODE=1 WIDE=1 | reach end accepted refused resumed paused
//VP case again: quick MODE=2 | thorough MODE=2 | reach end failed rescheduled
//VP case create: quick MODE=3 | thorough MODE=3 | reach end created existing refused
//VP bound: get: JOBS jobs in any state, of several priorities, names, mock settings, retry settings and any minute of due time, every form of GetJob(s) until nothing is left; family: one operation on any consistent state of a parent and two children; again: a job through its failed runs and its repeats; create: one or two creations with any mixture of uniqueness, overwriting, mocking, priority and parent
//VP assume: SQLite behaves as env/sqlite_model.cpp; commands run one after another (concurrent ones conflict, see D04)
#include "server.h"
#include <plugins/Jobs.h>
SQLiteClusterMessenger::SQLiteClusterMessenger(const shared_ptr<const SQLiteNode>& n) : _node(n) {}
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, bool) { return false; }
vector<SData> SQLiteClusterMessenger::runOnAll(const SData&) { return {}; }
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, const string&) { return true; }
static SQLite* dbp; static BedrockPlugin_Jobs* jobs_; static string now_() { return "2023-11-14 22:13:20"; }
struct R { string err; STable j; string content; bool peeked = false; };
static R call(SData q) { SQLite& db = *dbp; R r; auto c = jobs_->getCommand(SQLiteCommand(move(q))); db.beginTransaction(); try { r.peeked = c->peek(db); if (!r.peeked) c->process(db); db.prepare(); db.commit(); } catch (const SException& e) { r.err = e.what(); db.rollback(); } catch (const SQLite::constraint_error&) { r.err = "constraint"; db.rollback(); } r.content = c->response.content; r.j = c->jsonContent; if (r.content.size()) for (auto& x : SParseJSONObject(r.content)) r.j[x.first] = x.second; return r; }
static string one(const string& q) { SQResult r; SQuery(dbp->getDBHandle(), q.c_str(), r); return r.empty() ? "" : r[0][0]; }
static string field(int id, const char* f) { return one("SELECT " + string(f) + " FROM jobs WHERE jobID = " + to_string(id) + ";"); }
static void put(int id, const string& state, const string& nextRun, const string& name = "a", int prio = 500, int parent = 0, const string& data = "{}", const string& retry = "", const string& repeat = "", const string& lastRun = "") { string q = "INSERT INTO jobs (created, jobID, state, name, nextRun, lastRun, repeat, data, priority, parentJobID, retryAfter) VALUES ('2023-11-01 00:00:00', " + to_string(id) + ", '" + state + "', '" + name + "', '" + nextRun + "', " + (lastRun.empty() ? "NULL" : "'" + lastRun + "'") + ", '" + repeat + "', '" + data + "', " + to_string(prio) + ", " + to_string(parent) + ", '" + retry + "');"; SQuery(dbp->getDBHandle(), q.c_str()); }
static vector<STable> given(const R& r) { vector<STable> v; auto it = r.j.find("jobs"); if (it != r.j.end()) { for (auto& s : SParseJSONArray(it->second)) v.push_back(SParseJSONObject(s)); } else if (r.j.count("jobID")) v.push_back(r.j); return v; }
static SData req(const string& m, int id = 0) { SData d(m); if (id) d["jobID"] = to_string(id); return d; }
static string snap() { SQResult r; SQuery(dbp->getDBHandle(), "SELECT jobID, state, nextRun, data, repeat, name, priority FROM jobs ORDER BY jobID;", r); string s; for (auto& x : r) for (auto& y : x) s += (string)y + "|"; return s; }
void vp_main() {
    quiet(); vp_nosched(1); size_t mode = vp_param("MODE"); Sv v = mkServer("/nonexistent/a.db", 1); BedrockServer& s = *v.s; SQLite& db = v.pool->getBase(); dbp = &db; BedrockPlugin_Jobs plug(s); jobs_ = &plug;
    db.beginTransaction(); plug.upgradeDatabase(db); db.prepare(); db.commit();
    if (mode == 0) { size_t N = vp_param("JOBS"); enum { PLAIN, HIGH, AGAIN, OFF, MOCK, OTHER, P850, WORN, WORN1, KINDS }; struct J { int kind, prio; string name, next; bool on, mock, worn; int out = 0; }; vector<J> js; int how = vp_choice("request", 6); 
        for (size_t i = 0; i < N; i++) { J j; j.kind = i ? (int[]){PLAIN, HIGH, OTHER, AGAIN, WORN}[vp_choice("kind", i > 1 ? 2 : 5)] : vp_choice("kind", KINDS); j.prio = j.kind == HIGH ? 1000 : j.kind == P850 ? 850 : 500; j.name = j.kind == OTHER ? "b" : "a"; j.on = j.kind != OFF; j.mock = j.kind == MOCK; j.worn = j.kind == WORN; char m = vp_range("minute", 48, 57); j.next = "2023-11-14 22:1" + string(1, m) + ":20"; bool retry = j.kind == AGAIN || j.kind == WORN; 
            put(i + 1, j.kind == OFF ? (const char*[]){"RUNNING", "PAUSED", "FAILED", "FINISHED", "CANCELLED"}[vp_choice("state", 5)] : j.kind == AGAIN ? "RUNQUEUED" : "QUEUED", j.next, j.name, j.prio, 0, j.mock ? "{\"mockRequest\":true}" : j.worn || j.kind == WORN1 ? "{\"retryAfterCount\":10}" : "{}", retry ? "+1 HOUR" : ""); js.push_back(j); }
        if (how == 4) plug._crashedBedrockJobPatterns.insert("b*");
        string before = snap(); for (size_t round = 0; round <= N + 1; round++) { SData q(how == 1 ? "GetJobs" : "GetJob"); q["name"] = how == 5 ? "b,c" : how == 3 ? "a" : "*"; if (how == 1) q["numResults"] = "2"; if (how == 2) q["jobPriority"] = "500"; if (how == 3) q["getMockedJobs"] = "true"; 
            auto can = [&](J& j) { bool name = how == 5 ? j.name == "b" : how == 3 ? j.name == "a" : true; return j.on && !j.out && name && (how != 2 || j.prio == 500) && (!j.mock || how == 3) && string(now_()) >= j.next; }; vector<int> el; for (size_t i = 0; i < N; i++) if (can(js[i])) el.push_back(i); R r = call(q); auto got = given(r);
            if (el.empty()) { vp_check(SStartsWith(r.err, "404") && got.empty(), "nothing-is-given-when-nothing-is-due"); vp_reach("none"); break; }
            vp_check(r.err.empty(), "a-due-job-is-found"); if (!r.err.empty()) break; size_t want = how == 1 ? 2 : 1; vp_check(got.size() <= want, "at-most-as-many-as-asked-for"); vector<int> ids; for (auto& g : got) ids.push_back(SToInt(g["jobID"]) - 1);
            auto before2 = [&](int a, int b) { return js[a].prio > js[b].prio || (js[a].prio == js[b].prio && js[a].next < js[b].next); };
            set<int> touched; for (size_t i = 0; i < N; i++) { string st = field(i + 1, "state"); bool was = find(el.begin(), el.end(), i) != el.end(), now = find(ids.begin(), ids.end(), i) != ids.end(); vp_check(!now || was, "only-due-matching-free-jobs-are-given"); if (!was) continue; bool bad = js[i].worn || (how == 4 && js[i].name == "b"); if (now) { vp_check(!bad && (js[i].kind == AGAIN ? st == "RUNQUEUED" : st == "RUNNING"), "a-given-job-is-marked-as-taken"); js[i].out = 1; touched.insert(i); vp_reach("given"); } else if (st == "FAILED") { vp_check(bad, "only-hopeless-jobs-fail"); js[i].out = 1; touched.insert(i); vp_reach("failed"); } else vp_check(st == (js[i].kind == AGAIN ? "RUNQUEUED" : "QUEUED"), "a-job-not-given-stays-queued"); }
            vp_check(touched.size() == min(want, el.size()), "as-many-as-there-are"); for (int a : touched) for (int b : el) if (!touched.count(b)) vp_check(!before2(b, a), "highest-priority-then-earliest-first"); for (size_t k = 0; k + 1 < ids.size(); k++) vp_check(!before2(ids[k + 1], ids[k]) || js[ids[k]].prio == js[ids[k + 1]].prio, "given-in-order-of-priority");
            for (size_t k = 0; k < got.size(); k++) { vp_check(got[k]["name"] == js[ids[k]].name && got[k]["data"] == (js[ids[k]].mock ? "{\"mockRequest\":true}" : js[ids[k]].kind == WORN1 ? "{\"retryAfterCount\":10}" : "{}") && got[k]["nextRun"] == js[ids[k]].next && got[k]["priority"] == to_string(js[ids[k]].prio) && got[k]["created"] == "2023-11-01 00:00:00", "the-job-is-described-truthfully"); vp_check(field(ids[k] + 1, "lastRun") == now_(), "its-start-is-recorded"); } } }
    if (mode == 1) { static const char* ST[] = {"QUEUED", "RUNQUEUED", "RUNNING", "PAUSED", "FINISHED", "CANCELLED", "FAILED", ""}; string P = (const char*[]){"QUEUED", "RUNQUEUED", "RUNNING", "PAUSED", "FAILED"}[vp_choice("parent", 5)]; auto child = [&](bool wide) -> string { if (P == "PAUSED") return wide ? (const char*[]){"QUEUED", "RUNQUEUED", "RUNNING", "FINISHED", "CANCELLED", "FAILED", ""}[vp_choice("child", 7)] : (const char*[]){"RUNNING", "FINISHED", ""}[vp_choice("child", 3)]; return wide ? (const char*[]){"PAUSED", "FINISHED", "CANCELLED", "FAILED", ""}[vp_choice("child", 5)] : (const char*[]){"PAUSED", "CANCELLED", ""}[vp_choice("child", 3)]; }; string c[2] = {child(true), child(vp_param("WIDE"))}; 
        auto row = [&](int id, const string& st, int parent) { if (st.size()) put(id, st, "2023-11-14 22:00:00", "a", 500, parent, "{\"n\":" + to_string(id) + "}", st == "RUNQUEUED" ? "+1 HOUR" : "", "", "2023-11-14 22:10:00"); }; row(1, P, 0); row(11, c[0], 1); row(12, c[1], 1); string before = snap(); vector<string> want = {P, c[0], c[1], ""}; bool refuse = false; auto running = [](const string& s) { return s == "RUNNING" || s == "RUNQUEUED"; }; auto pending = [](const string& s) { return s == "QUEUED" || s == "RUNQUEUED" || s == "RUNNING" || s == "PAUSED"; }; auto done = [](const string& s) { return s == "FINISHED" || s == "CANCELLED"; };
        enum { FINP, FINC, RETP, RETC, CANC, FAILP, FAILC, DELC, CREATE, GET, UPD, CANP, OPS }; int op = vp_choice("op", OPS); SData q; auto sweep = [&] { for (int i = 1; i < 3; i++) if (done(want[i])) want[i] = ""; }; auto resume = [&] { if (want[0] == "PAUSED" && !pending(want[1]) && !pending(want[2])) { want[0] = "QUEUED"; vp_reach("resumed"); } };
        if (op == FINP) { q = req("FinishJob", 1); refuse = !running(P); sweep(); if (!refuse) { if (pending(want[1]) || pending(want[2])) { want[0] = "PAUSED"; vp_reach("paused"); for (int i = 1; i < 3; i++) if (want[i] == "PAUSED") want[i] = "QUEUED"; } else if (want[1] == "FAILED" || want[2] == "FAILED") refuse = true; else want[0] = ""; } }
        if (op == FINC) { q = req("FinishJob", 11); refuse = !running(c[0]); want[1] = "FINISHED"; resume(); }
        if (op == RETP) { q = req("RetryJob", 1); refuse = !running(P); sweep(); want[0] = "QUEUED"; } if (op == RETC) { q = req("RetryJob", 11); q["delay"] = "5"; refuse = !running(c[0]); want[1] = "QUEUED"; }
        if (op == CANC) { q = req("CancelJob", 11); refuse = c[0].empty(); if (c[0] == "QUEUED" || c[0] == "RUNQUEUED" || c[0] == "FAILED" || c[0] == "CANCELLED") { want[1] = "CANCELLED"; resume(); } }
        if (op == FAILP) { q = req("FailJob", 1); refuse = !running(P); want[0] = "FAILED"; } if (op == FAILC) { q = req("FailJob", 11); refuse = !running(c[0]); want[1] = "FAILED"; }
        if (op == DELC) { q = req("DeleteJob", 11); refuse = c[0].empty() || c[0] == "RUNNING" || c[0] == "PAUSED"; want[1] = ""; }
        if (op == CREATE) { q = req("CreateJob"); q["name"] = "a"; q["parentJobID"] = "1"; refuse = !running(P) && P != "PAUSED"; want[3] = P == "PAUSED" ? "QUEUED" : "PAUSED"; }
        if (op == GET) { q = req("GetJobs"); q["name"] = "*"; q["numResults"] = "5"; int n = 0; for (int i = 0; i < 3; i++) if (want[i] == "QUEUED") { want[i] = "RUNNING"; n++; } else if (want[i] == "RUNQUEUED") n++; refuse = !n; }
        if (op == UPD) { q = req("UpdateJob", 11); q["data"] = "{\"z\":1}"; refuse = c[0].empty(); } if (op == CANP) { q = req("CancelJob", 1); refuse = true; }
        R r = call(q); vp_check(r.err.empty() == !refuse, "allowed-exactly-in-the-right-state"); if (!r.err.empty()) { vp_check(snap() == before, "a-refused-command-changes-nothing"); vp_reach("refused"); } if (r.err.empty() && !refuse) { vp_reach("accepted"); int nid = 0; vector<string> got; for (int id : {1, 11, 12}) got.push_back(field(id, "state")); got.push_back(one("SELECT state FROM jobs WHERE jobID NOT IN (1, 11, 12);")); vp_check(got[0] == want[0], "the-parent-moves-as-described"); vp_check(got[1] == want[1] && got[2] == want[2], "the-children-move-as-described"); vp_check(got[3] == want[3], "a-new-child-waits-for-its-parent");
            bool active = false, waiting = false; for (int i = 1; i < 4; i++) { active = active || got[i] == "QUEUED" || running(got[i]); waiting = waiting || got[i] == "PAUSED"; } vp_check(!active || got[0] == "PAUSED", "parent-and-children-never-run-together"); vp_check(!waiting || got[0] != "PAUSED", "no-child-is-left-waiting");
            if (op == GET) { auto g = given(r); size_t n = 0; for (int i = 0; i < 3; i++) { string o = i == 0 ? P : c[i - 1]; if (o == "QUEUED" || o == "RUNQUEUED") n++; } vp_check(g.size() == n, "every-due-job-is-given-once"); for (auto& j : g) { int id = SToInt(j["jobID"]); vp_check(j["data"] == "{\"n\":" + to_string(id) + "}", "given-with-its-data"); if (id == 1) { for (const char* w : {"FINISHED", "CANCELLED"}) { size_t k = (c[0] == w) + (c[1] == w); list<string> l = SParseJSONArray(j[w[0] == 'F' ? "finishedChildJobs" : "cancelledChildJobs"]); vp_check(l.size() == k, "a-resumed-parent-gets-its-childrens-results"); for (auto& x : l) { STable t = SParseJSONObject(x); int cid = SToInt(t["jobID"]); vp_check((cid == 11 || cid == 12) && c[cid - 11] == w && t["data"] == "{\"n\":" + to_string(cid) + "}", "a-resumed-parent-gets-its-childrens-results"); } } } else vp_check(j["parentJobID"] == "1" && j["parentData"] == "{\"n\":1}", "a-child-is-given-its-parents-data"); } }
            if (op == FINP && want[0] == "PAUSED") vp_check(field(1, "nextRun") == "2023-11-14 22:10:00", "a-paused-parent-is-due-when-resumed"); if (op == RETC) vp_check(field(11, "nextRun") == "2023-11-14 22:13:25", "retried-after-the-delay"); if (op == RETP) vp_check(field(1, "nextRun") == now_(), "retried-at-once"); if (op == UPD) vp_check(field(11, "data") == "{\"z\":1}", "data-is-updated"); else for (int id : {1, 11, 12}) if (field(id, "state").size() && op != RETC) { string d = field(id, "data"); vp_check(d == "{\"n\":" + to_string(id) + "}" || d == "{\"n\":" + to_string(id) + ",\"retryAfterCount\":1}", "data-is-kept"); } } }
    if (mode == 2) { int rep = vp_choice("repeat", 8); static const char* reps[] = {"", "HOURLY", "DAILY", "WEEKLY", "SCHEDULED, +30 MINUTES", "STARTED, +2 HOURS", "FINISHED, +1 DAY", "SCHEDULED, +1 DAYS"}; bool retry = vp_choice("retryAfter", 2), manual = vp_choice("manual", 2); int late = vp_choice("late", 3); string next = late == 0 ? "2023-11-14 22:13:20" : late == 1 ? "2023-11-14 22:00:05" : "2023-11-14 19:47:05"; int64_t lateBy = late == 0 ? 0 : late == 1 ? 795 : 8775; put(1, "QUEUED", next, manual ? "manual/a" : "a", 500, 0, "{}", retry ? "+10 MINUTES" : "", reps[rep]); SData q("GetJob"); q["name"] = "*"; int64_t t0 = 1700000000, t = t0; auto at = [&](const string& f) { return SToInt64(one("SELECT STRFTIME('%s', " + f + ") FROM jobs WHERE jobID = 1;")); };
        int runs = vp_choice("failed runs", 3); if (runs == 2) runs = 10; if (!retry) runs = 0; auto g = given(call(q)); vp_check(g.size() == 1, "given"); for (int k = 0; k < runs; k++) { vp_check(field(1, "state") == "RUNQUEUED" && at("nextRun") > t && at("nextRun") <= t + 600 && at("lastRun") == t, "waits-before-running-again"); vp_check(SStartsWith(call(q).err, "404"), "not-given-twice"); clk += (at("nextRun") - t) * 1000000ull - 1000; vp_check(SStartsWith(call(q).err, "404"), "not-given-early"); clk += 1000; t = clk / 1000000; R r = call(q); bool worn = k + 1 >= 10 && !manual; vp_check(r.err.empty() && given(r).size() == (worn ? 0 : 1), "given-again-if-it-never-finished"); if (worn) { vp_check(field(1, "state") == "FAILED", "gives-up-after-ten-retries"); vp_check(SStartsWith(call(q).err, "404"), "a-failed-job-is-not-given"); vp_reach("failed"); return vp_reach("end"); } }
        clk += 61000000; int64_t start = t; t += 61; int how = vp_choice("how", 3); SData f = req(how == 2 ? "RetryJob" : "FinishJob", 1); if (how == 1) f["data"] = "{\"k\":1}"; if (how == 2) { f["delay"] = "7"; f["ignoreRepeat"] = vp_choice("ignore", 2) ? "true" : "false"; } R r = call(f); vp_check(r.err.empty(), "a-running-job-can-be-finished"); if (!r.err.empty()) return; string st = field(1, "state"); bool gone = how != 2 && !rep; vp_check(gone ? st.empty() : st == "QUEUED", "finished-jobs-go-repeating-jobs-stay"); if (gone) return vp_reach("end"); vp_reach("rescheduled"); int64_t n = at("nextRun"), sched = t0 - lateBy; string d = field(1, "data"); vp_check(d.find("retryAfterCount") == string::npos && (how != 1 || d.find("\"k\":1") != string::npos), "counts-and-data-are-renewed");
        if (how == 2 && (!rep || f["ignoreRepeat"] == "true")) vp_check(n == t + 7, "retried-after-the-delay"); else if (rep == 1) vp_check(n > t && n <= t + 3600 && n % 3600 == 0, "next-hour"); else if (rep == 2) vp_check(n > t && n <= t + 86400 && n % 86400 == 0, "next-day"); else if (rep == 3) vp_check(n > t && n <= t + 7 * 86400 && n % 86400 == 0 && (n / 86400 + 4) % 7 == 0, "next-week"); else if (rep == 4) { if (!retry || !runs) { vp_check((n - sched) % 1800 == 0 && n > sched && (n > t || n == sched + 1800) && n <= max(t, sched) + 1800, "keeps-its-schedule"); } else vp_check(n > t - 1800, "comes-back"); } else if (rep == 5) vp_check(n == start + 7200, "counted-from-its-start"); else if (rep == 6) vp_check(n == t + 86400, "counted-from-its-finish"); else if (rep == 7 && !retry) vp_check(n == sched + 86400, "keeps-its-schedule"); }
    if (mode == 3) { auto make = [&](const string& name, const string& data, bool uniq, int over, bool mock, const string& prio) { SData q("CreateJob"); q["name"] = name; if (data.size()) q["data"] = data; if (uniq) q["unique"] = "true"; if (over) q["overwrite"] = over == 1 ? "true" : "false"; if (mock) q["mockRequest"] = "true"; if (prio.size()) q["jobPriority"] = prio; return call(q); };
        bool m1 = vp_choice("mocked", 2), m2 = vp_choice("mocked", 2), same = vp_choice("same data", 2), uniq = vp_choice("unique", 2); int over = vp_choice("overwrite", 3), pr = vp_choice("priority", 4); static const char* prios[] = {"", "1000", "1", "0"}; static const int val[] = {500, 1000, -1, 0}; R a = make("a", "{\"k\":1}", false, 0, m1, ""); vp_check(a.err.empty() && SToInt64(a.j["jobID"]) > 0, "created"); int64_t id = SToInt64(a.j["jobID"]); auto rowOf = [&](const char* f, int64_t i) { return one("SELECT " + string(f) + " FROM jobs WHERE jobID = " + to_string(i) + ";"); };
        vp_check(rowOf("state", id) == "QUEUED" && rowOf("priority", id) == "500" && rowOf("parentJobID", id) == "0" && SStartsWith(rowOf("nextRun", id), now_()) && one("SELECT JSON_EXTRACT(data, '$.k') FROM jobs;") == "1" && one("SELECT JSON_EXTRACT(data, '$.mockRequest') FROM jobs;") == (m1 ? "1" : ""), "stored-as-asked"); string before = snap(); R b = make("a", same ? "{\"k\":1}" : "{\"k\":2}", uniq, over, m2, prios[pr]); string n = one("SELECT COUNT(1) FROM jobs;");
        if (val[pr] < 0) { vp_check(SStartsWith(b.err, "402") && snap() == before, "a-bad-priority-is-refused"); vp_reach("refused"); return vp_reach("end"); } vp_check(b.err.empty(), "accepted"); int64_t id2 = SToInt64(b.j["jobID"]); bool reuse = uniq && m1 == m2; vp_check((id2 == id) == reuse && n == (reuse ? "1" : "2"), "a-unique-job-exists-once"); vp_reach(reuse ? "existing" : "created"); bool exact = same; string d = one("SELECT JSON_EXTRACT(data, '$.k') FROM jobs WHERE jobID = " + to_string(id2) + ";"), pq = rowOf("priority", id2); bool wrote = !reuse || (!exact && over != 2); vp_check(d == (wrote && !same ? "2" : "1"), "overwritten-only-when-allowed"); vp_check(pq == to_string(wrote || (reuse && exact && m1 && over != 2 && pq != "500") ? val[pr] : 500), "priority-as-asked"); vp_check(one("SELECT JSON_EXTRACT(data, '$.mockRequest') FROM jobs WHERE jobID = " + to_string(id2) + ";") == (m2 ? "1" : ""), "mocking-is-kept"); }
    vp_reach("end");
}
