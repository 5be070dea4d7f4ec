//VP property: S02
//VP tus: libstuff/*.cpp sqlitecluster/SQLiteCommand.cpp BedrockCommand.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp
//VP env: os_model.cpp pipe_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case window: quick MODE=0 RECORDS=2 MAX=7 | thorough MODE=0 RECORDS=2 MAX=15 | reach end blocked open
//VP case history: quick MODE=1 OPS=3 | thorough MODE=1 OPS=4 | reach end blocked open rejected refused unblocked
//VP case threads: quick MODE=2 --preempt 2 | thorough MODE=2 --preempt 3 | reach end
//VP bound: window: RECORDS executions of one caller with every duration, gap, window, threshold and block duration up to MAX us; history: every sequence of OPS operations (record for either of two callers and two commands, passing of time, push, get, change of a limit, clear) with durations from a few values; threads: two recorders and one asker, all interleavings with up to the stated number of preemptions
//VP assume: logging has no effect
#include "../rt/vp.h"
#include "common.h"
#include <BedrockBlockingCommandQueue.h>
#include <thread>
static uint64_t clk = 1ull << 50;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" void vp_timed_out(const timespec* t) { uint64_t d = (uint64_t)t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000; if (d >= clk) clk = d + 1; }
static unique_ptr<BedrockCommand> mk(const string& name, const string& who) { SData r(name); r["requestID"] = "x"; auto c = make_unique<BedrockCommand>(SQLiteCommand(move(r)), nullptr); const_cast<uint64_t&>(c->scheduledTime) = clk; c->_timeout = clk + 1000000000; c->blockingQueueRateLimitIdentifier = who; return c; }
// Reference: a caller is blocked from a record that brings its time within the window over the threshold, for the block duration; nothing is counted while blocked.
struct Ref { vector<pair<uint64_t, uint64_t>> done; uint64_t until = 0;
    void record(uint64_t now, uint64_t took, uint64_t window, uint64_t limit, uint64_t dur) { if (!limit || until > now) return; done.push_back({now, took}); uint64_t sum = 0; for (auto& d : done) { uint64_t end = d.first, start = end - d.second, from = now - window; if (end <= from) continue; sum += end - (start > from ? start : from); } if (sum > limit) until = now + dur; } };
static void window() {
    BedrockBlockingCommandQueue q; uint64_t w = vp_range("window", 1, vp_param("MAX")), l = vp_range("threshold", 0, vp_param("MAX")), d = vp_range("duration", 0, vp_param("MAX")); vp_check(q.setWindow(w) == 180000000 && q.setIdentifierThreshold(l) == 20000000 && q.setCommandThreshold(0) == 40000000 && q.setBlockDuration(d) == 60000000, "setters-return-the-old-value"); Ref r;
    for (size_t i = 0; i < vp_param("RECORDS"); i++) { clk += vp_range("gap", 0, vp_param("MAX")); uint64_t t = vp_range("took", 0, vp_param("MAX")); q.recordExecutionTime("a", "c", t); r.record(clk, t, w, l, d); bool b = q.isBlocked("a", "c"); vp_check(b == (r.until > clk), "blocked-iff-over-the-limit-within-the-window"); }
    vp_check(!q.isBlocked("b", "c") && !q.isBlocked("", "c"), "others-are-not-affected"); vp_reach(q.isBlocked("a", "c") ? "blocked" : "open"); vp_reach("end");
}
static void history() {
    BedrockBlockingCommandQueue q; uint64_t w = 10, l = 4, cl = 6, d = 5; q.setWindow(w); q.setIdentifierThreshold(l); q.setCommandThreshold(cl); q.setBlockDuration(d); map<string, Ref> who, cmd; vector<pair<string, string>> queued; static const char* ids[] = {"a", "b", ""}; static const char* cs[] = {"X", "Y"};
    auto blocked = [&](const string& a, const string& c) { return (!a.empty() && who[a].until > clk) || cmd[c].until > clk; }; bool was = false;
    for (size_t k = 0; k < vp_param("OPS"); k++) {
        size_t op = k ? vp_choice("op", 5) : 2 * vp_choice("first", 2); string a = op == 0 || op == 2 ? ids[vp_choice("caller", 3)] : "", c = op == 0 || op == 2 ? cs[vp_choice("command", 2)] : "X";
        if (op == 0) { uint64_t t = 1 + 2 * vp_choice("took", 4); q.recordExecutionTime(a, c, t); if (!a.empty()) who[a].record(clk, t, w, l, d); cmd[c].record(clk, t, w, cl, d); }
        else if (op == 1) clk += 1 + vp_range("pass", 0, 11);
        else if (op == 2) { bool threw = false; auto x = mk(c, a); try { q.push(move(x)); } catch (const SException& e) { threw = true; vp_check(!strncmp(e.what(), "503", 3) || SContains(e.method, "503"), "refused-with-503"); } vp_check(threw == blocked(a, c), "refused-iff-blocked"); if (threw) vp_reach("refused"); else queued.push_back({a, c}); }
        else if (op == 3) { unique_ptr<BedrockCommand> x; try { x = q.get(1); } catch (const BedrockCommandQueue::timeout_error&) {} vp_check((x != nullptr) == !queued.empty(), "queued-commands-are-handed-out"); if (x) { auto h = queued[0]; queued.erase(queued.begin()); vp_check(x->request.methodLine == h.second && x->blockingQueueRateLimitIdentifier == h.first, "in-order"); bool b = blocked(h.first, h.second); vp_check(x->complete == b && (b ? SContains(x->response.methodLine, "503") : x->response.methodLine.empty()), "answered-503-iff-blocked"); if (b) vp_reach("rejected"); } }
        else { size_t what = vp_choice("what", 3); if (what == 0) { size_t n = q.clearRateLimits(); who.clear(); cmd.clear(); (void)n; } else if (what == 1) { q.clear(); who.clear(); cmd.clear(); queued.clear(); vp_check(q.empty(), "cleared"); } else { l = 0; q.setIdentifierThreshold(0); } }
        STable s = q.getState(); for (auto x : {"a", "b"}) for (auto y : cs) { bool b = blocked(x, y); vp_check(q.isBlocked(x, y) == b, "blocked-iff-over-a-limit"); if (b) { was = true; vp_reach("blocked"); } else { vp_reach("open"); if (was) vp_reach("unblocked"); } } list<string> li; SParseList(s["blockingBlockedIdentifiers"], li); size_t n = 0; for (auto& p : who) n += p.second.until > clk; vp_check(li.size() == n && q.size() == queued.size(), "status-is-truthful");
    }
    vp_reach("end");
}
static void threads() {
    BedrockBlockingCommandQueue q; q.setWindow(100); q.setIdentifierThreshold(5); q.setCommandThreshold(0); q.setBlockDuration(50); bool seen = false; vp_nosched(0); std::thread a([&] { q.recordExecutionTime("a", "c", 3); }), b([&] { q.recordExecutionTime("a", "c", 3); }), c([&] { seen = q.isBlocked("a", "c"); auto x = mk("c", "a"); try { q.push(move(x)); } catch (const SException&) { seen = true; } q.getState(); }); a.join(); b.join(); c.join(); vp_nosched(1);
    vp_check(q.isBlocked("a", "c"), "no-record-lost"); vp_check(q.size() == 1 || seen, "queued-or-refused"); vp_check(q.clearRateLimits() == 1 && !q.isBlocked("a", "c"), "cleared"); vp_reach("end");
}
void vp_main() { quiet(); vp_nosched(1); size_t m = vp_param("MODE"); if (m == 0) window(); else if (m == 1) history(); else threads(); }
