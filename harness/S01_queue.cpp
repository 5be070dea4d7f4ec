//VP property: S01
//VP tus: libstuff/*.cpp sqlitecluster/SQLiteCommand.cpp BedrockCommand.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp
//VP env: os_model.cpp pipe_model.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case history: quick MODE=0 INIT=1 OPS=5 ITEMS=2 BLOCKING=0 GETS=0 | thorough MODE=0 INIT=2 OPS=6 ITEMS=3 BLOCKING=0 GETS=0 | reach end got timedout early waited expired all abandoned
//VP case order: quick MODE=0 INIT=3 OPS=4 ITEMS=3 BLOCKING=0 GETS=1 | thorough MODE=0 INIT=4 OPS=6 ITEMS=4 BLOCKING=0 GETS=1 | reach end got timedout
//VP case blocking: quick MODE=0 INIT=1 OPS=3 ITEMS=2 BLOCKING=1 GETS=0 | thorough MODE=0 INIT=2 OPS=4 ITEMS=3 BLOCKING=1 GETS=0 | reach end got timedout
//VP case consumers: quick MODE=1 ITEMS=3 CONSUMERS=2 WAIT=0 --preempt 2 | thorough MODE=1 ITEMS=3 CONSUMERS=3 WAIT=0 --preempt 2 | reach end
//VP case polling: quick MODE=1 ITEMS=2 CONSUMERS=2 WAIT=1 --preempt 2 | thorough MODE=1 ITEMS=3 CONSUMERS=2 WAIT=1 --preempt 2 | reach end
//VP bound: history: every sequence of OPS operations (push with any schedule and timeout up to 7 us around now, passing of up to 3 us, get without waiting, get with a wait of up to 3 us, get all, clear, abandon) on a queue of up to ITEMS commands; consumers: CONSUMERS threads waiting on the queue while two threads push ITEMS commands, all interleavings with up to the stated number of preemptions
//VP assume: waits end when notified or when their time is over
#include "../rt/vp.h"
#include "common.h"
#include <BedrockCommandQueue.h>
#include <BedrockBlockingCommandQueue.h>
#include <thread>
static uint64_t clk = 1700000000000000ull;
extern "C" uint64_t vp_now_us() { return clk; }
extern "C" void vp_timed_out(const timespec* t) { uint64_t d = (uint64_t)t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000; if (d >= clk) clk = d + 1; }
struct It { int id; uint64_t when, out; };
static unique_ptr<BedrockCommand> mk(int id, uint64_t when, uint64_t out) { SData r("c" + to_string(id)); r["requestID"] = "x"; r["commandExecuteTime"] = "1"; auto c = make_unique<BedrockCommand>(SQLiteCommand(move(r)), nullptr); const_cast<uint64_t&>(c->scheduledTime) = when; c->_timeout = out; return c; }
static int idOf(BedrockCommand& c) { return c.request.methodLine[1] - '0'; }
static void history() { bool sym = vp_param("GETS");
    bool bl = vp_param("BLOCKING"); unique_ptr<BedrockCommandQueue> q(bl ? new BedrockBlockingCommandQueue : new BedrockCommandQueue); vector<It> have; int next = 0; size_t before = BedrockCommand::getCommandCount();
    auto pick = [&](BedrockCommand& c) {
        int id = idOf(c); size_t at = have.size(); for (size_t i = 0; i < have.size(); i++) if (have[i].id == id) at = i; vp_check(at < have.size(), "returns-a-queued-command-once"); It x = have[at]; bool late = false; for (auto& y : have) late = late || y.out <= clk;
        if (late) { vp_check(x.out <= clk, "timed-out-commands-come-first"); for (auto& y : have) vp_check(y.out >= x.out, "oldest-timeout-first"); vp_reach("timedout"); }
        else { vp_check(x.when <= clk, "never-before-its-time"); for (size_t i = 0; i < have.size(); i++) vp_check(have[i].when > x.when || (i >= at && have[i].when == x.when), "oldest-schedule-first"); vp_reach("got"); }
        vp_check(!c.timingInfo.empty() && get<0>(c.timingInfo.back()) == (bl ? BedrockCommand::QUEUE_BLOCKING : BedrockCommand::QUEUE_WORKER), "queue-time-recorded"); vp_check(!c.complete, "handed-out-for-processing"); have.erase(have.begin() + at); };
    auto ready = [&] { for (auto& y : have) if (y.out <= clk || y.when <= clk) return true; return false; };
    for (size_t k = 0; k < vp_param("OPS"); k++) {
        size_t op = k < vp_param("INIT") ? 0 : vp_param("GETS") ? 1 : vp_choice("op", 7); if (k >= vp_param("INIT")) clk += sym ? vp_range("pass", 0, 2) : vp_choice("pass", 2);
        if (op == 0) { if ((size_t)next >= vp_param("ITEMS")) return; uint64_t w = clk - 1 + (sym ? vp_range("when", 0, 4) : 2 * vp_choice("when", 2)), o = clk - 1 + (sym ? vp_range("timeout", 0, 4) : 3 * vp_choice("timeout", 2)); auto c = mk(next, w, o); bool own = vp_choice("own schedule", vp_param("GETS") ? 1 : 2); if (own) q->push(move(c)); else q->BedrockCommandQueue::push(move(c), w); have.push_back({next++, w, o}); }
        else if (op == 1 || op == 2) { uint64_t wait = op == 1 ? 1 : sym ? vp_range("wait", 1, 2) : 2, start = clk; bool r = ready(); unique_ptr<BedrockCommand> c; try { c = q->get(wait); } catch (const BedrockCommandQueue::timeout_error&) {}
            if (r) { vp_check(c != nullptr && clk == start, "a-ready-command-is-returned-at-once"); pick(*c); } else if (c) { vp_check(clk >= start, "later"); pick(*c); vp_reach("waited"); } else { vp_check(clk > start + wait, "waits-as-long-as-asked"); vp_check(!ready(), "not-empty-handed-while-a-command-is-ready"); vp_reach("expired"); } }
        else if (op == 3) { auto l = q->getAll(); vp_check(l.size() == have.size(), "get-all-returns-everything"); uint64_t last = 0; for (auto& c : l) { size_t at = have.size(); for (size_t i = 0; i < have.size(); i++) if (have[i].id == idOf(*c)) at = i; vp_check(at < have.size() && have[at].when >= last && !c->timingInfo.empty(), "each-once-in-order"); last = have[at].when; have.erase(have.begin() + at); } vp_check(q->empty() && have.empty(), "nothing-left"); vp_reach("all"); }
        else if (op == 4) { q->clear(); have.clear(); vp_check(BedrockCommand::getCommandCount() == before, "cleared-commands-are-freed"); }
        else if (op == 5) { for (auto& y : have) vp_assume(y.when != clk); vector<It> keep; for (auto& y : have) if (y.when < clk + 0) keep.push_back(y); q->abandonFutureCommands(0); if (keep.size() < have.size()) vp_reach("abandoned"); have = keep; }
        else { auto l = q->getRequestMethodLines(); vp_check(l.size() == have.size(), "lists-everything"); for (auto& y : have) { bool f = false; for (auto& s : l) f = f || s[1] - '0' == y.id; vp_check(f, "each-is-listed"); } if (!ready() && !have.empty()) vp_reach("early"); }
        vp_check(q->size() == have.size() && q->empty() == have.empty(), "size"); vp_check(BedrockCommand::getCommandCount() == before + have.size(), "no-command-lost-or-leaked"); 
    }
    vp_reach("end");
}
static BedrockCommandQueue* Q; static int got[8], total; static bool ended;
static void consumers() {
    Q = new BedrockCommandQueue; size_t n = vp_param("ITEMS"), m = vp_param("CONSUMERS"); bool poll = vp_param("WAIT"); vector<std::thread> t;
    vector<unique_ptr<BedrockCommand>> items; for (size_t i = 0; i < n; i++) items.push_back(mk(i, clk, clk + 1000000000)); vector<unique_ptr<BedrockCommand>> stop; for (size_t i = 0; i < m; i++) stop.push_back(mk(9, clk, clk + 1000000000));
    for (size_t i = 0; i < m; i++) t.emplace_back([poll] { int last = -1; size_t idle = 0; while (true) { unique_ptr<BedrockCommand> c; try { c = Q->get(poll ? 1000 : 0); } catch (const BedrockCommandQueue::timeout_error&) { if (++idle > 2) return; continue; } int id = idOf(*c); if (id == 9) return; vp_check(!got[id]++, "each-command-once"); total++; (void)last; } });
    vp_nosched(0);
    std::thread p([&] { for (size_t i = 1; i < n; i += 2) Q->push(move(items[i])); }); for (size_t i = 0; i < n; i += 2) Q->push(move(items[i])); p.join(); for (auto& c : stop) Q->push(move(c)); for (auto& x : t) x.join(); vp_nosched(1);
    if (!poll) vp_check(total == (int)n, "every-command-is-handed-out"); vp_check(Q->size() + total >= n, "no-command-lost"); vp_reach("end");
}
void vp_main() { quiet(); vp_nosched(1); if (vp_param("MODE") == 0) history(); else consumers(); }
