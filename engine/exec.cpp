// Symbolic executor for LLVM-18 bitcode (see DESIGN.md).
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <map>
#include <set>
#include <chrono>
#include <cmath>
#include <atomic>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
using namespace llvm;
using std::string; using std::vector;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double gStart;

// ---------- values ----------
struct Val { uint64_t c = 0; Expr* e = nullptr; };
static inline Val C(uint64_t v) { return Val{v, nullptr}; }
static inline Val V(Expr* e) { if (isC(e)) return Val{e->c, nullptr}; return Val{0, e}; }
static inline Expr* E(const Val& v, unsigned w) { if (v.e) { if (v.e->w != w) { fprintf(stderr, "E width %d vs %d\n", v.e->w, w); abort(); } return v.e; } return mkConst(v.c, w); }

// ---------- memory ----------
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_EXT };
struct Obj {
    int rc = 1; uint32_t size = 0; Kind kind = K_HEAP; bool ro = false; uint8_t tid = 0; bool shared = false; const Instruction* site = nullptr; const char* name = nullptr;
    uint8_t* b = nullptr; Expr** s = nullptr;
    Obj(uint32_t n) : size(n) { b = (uint8_t*)malloc(n ? n : 1); }
    Obj(const Obj& o) : size(o.size), kind(o.kind), ro(o.ro), tid(o.tid), shared(o.shared), site(o.site), name(o.name) { b = (uint8_t*)malloc(size ? size : 1); memcpy(b, o.b, size); if (o.s) { s = (Expr**)malloc(sizeof(Expr*) * size); memcpy(s, o.s, sizeof(Expr*) * size); } }
    ~Obj() { free(b); free(s); }
    void sym() { if (!s) s = (Expr**)calloc(size ? size : 1, sizeof(Expr*)); }
};
static inline void unref(Obj* o) { if (o && --o->rc == 0) delete o; }
struct Chunk { int rc = 1; Obj* o[64] = {}; uint16_t gen[64] = {};
    Chunk() {} Chunk(const Chunk& c) { for (int i = 0; i < 64; i++) { o[i] = c.o[i]; gen[i] = c.gen[i]; if (o[i]) o[i]->rc++; } }
    ~Chunk() { for (auto* x : o) unref(x); } };
static const uint64_t BASEOFF = 0x10000000ull;
static const uint64_t FUNCSLOT = 1;
static uint8_t gCurTid = 0;
struct Memory {
    vector<Chunk*> ch; vector<uint32_t> freeSlots; uint32_t next = 2; uint32_t freeHead = 0;
    Memory() {}
    Memory(const Memory& m) : ch(m.ch), freeSlots(m.freeSlots), next(m.next), freeHead(m.freeHead) { for (auto* c : ch) c->rc++; }
    ~Memory() { for (auto* c : ch) if (--c->rc == 0) delete c; }
    Chunk* wchunk(uint32_t slot) { Chunk*& c = ch[slot >> 6]; if (c->rc > 1) { c->rc--; c = new Chunk(*c); } return c; }
    uint64_t alloc(uint32_t size, Kind k, bool zero, const Instruction* site) {
        uint32_t slot;
        if (freeSlots.size() - freeHead > 64) { slot = freeSlots[freeHead++]; if (freeHead > 4096) { freeSlots.erase(freeSlots.begin(), freeSlots.begin() + freeHead); freeHead = 0; } }
        else { slot = next++; if ((slot >> 6) >= ch.size()) ch.push_back(new Chunk()); if (slot >= (1u << 20)) { fprintf(stderr, "out of slots\n"); abort(); } }
        Chunk* c = wchunk(slot); Obj* o = new Obj(size); o->kind = k; o->site = site; o->tid = gCurTid; memset(o->b, zero ? 0 : 0xAE, size); c->o[slot & 63] = o;
        return ((uint64_t)c->gen[slot & 63] << 52) | ((uint64_t)slot << 32) | BASEOFF;
    }
    static uint32_t slotOf(uint64_t a) { return (a >> 32) & 0xFFFFF; }
    Obj* find(uint64_t a) const { uint32_t s = slotOf(a); if (a >> 63 || s < 2 || (s >> 6) >= ch.size()) return nullptr; Chunk* c = ch[s >> 6]; if (c->gen[s & 63] != (a >> 52)) return nullptr; return c->o[s & 63]; }
    uint64_t baseOf(uint64_t a) const { return (a & ~0xFFFFFFFFull) | BASEOFF; }
    Obj* writable(uint64_t a) { uint32_t s = slotOf(a); Chunk* c = wchunk(s); Obj*& o = c->o[s & 63]; if (o->rc > 1) { o->rc--; o = new Obj(*o); } return o; }
    void dealloc(uint64_t a) { uint32_t s = slotOf(a); Chunk* c = wchunk(s); unref(c->o[s & 63]); c->o[s & 63] = nullptr; c->gen[s & 63] = (c->gen[s & 63] + 1) & 0x7FF; freeSlots.push_back(s); }
};

// ---------- code ----------
struct PhiCopy { int dst, src, n; };
struct Edge { int pc; vector<PhiCopy> phis; BasicBlock* bb; };
struct ArgI { int op; int n; uint32_t byval; uint8_t w; };
enum IOp : uint16_t { I_BIN, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE, I_EXTRACTV, I_INSERTV, I_LANDINGPAD, I_RESUME, I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_FBIN, I_FCMP, I_FNEG, I_FPCAST, I_NOP, I_UNSUPPORTED, I_INTRIN };
struct FuncInfo;
struct Inst {
    IOp op; uint8_t w = 0, w2 = 0; uint16_t sub = 0; int dst = -1, a = 0, b = 0, c = 0; uint32_t n = 1; uint64_t imm = 0;
    vector<std::pair<int, uint64_t>> geps; // (operand, scale); widths in gw
    vector<uint8_t> gw;
    vector<std::pair<uint32_t, uint8_t>> parts; // flattened (offset,width)
    vector<Edge> edges; vector<std::pair<uint64_t, int>> cases;
    vector<ArgI> args; Function* callee = nullptr; FuncInfo* target = nullptr; std::function<int(struct State&, Inst&, vector<Val>&, Val*)>* handler = nullptr;
    bool atomic = false, ev = false;
    const Instruction* I = nullptr;
};
struct FuncInfo { Function* f; bool ready = false; vector<Inst> code; vector<Val> consts; int nslots = 0; vector<ArgI> params; bool executed = false; bool infra = false; };

struct Frame { FuncInfo* fi; int pc = 0; vector<Val> regs; vector<uint64_t> allocas; uint64_t varargs = 0; };
struct Thread { vector<Frame> st; int status = 0; /*0 runnable,1 blocked,2 done,3 timed-blocked*/ uint64_t waitAddr = 0; bool wakeTimeout = false; bool inCall = false; vector<uint64_t> caught; std::map<const GlobalVariable*, uint64_t> tls; uint64_t arg = 0; int uncaught = 0; uint64_t ev = 0; bool evHold = false; int locks = 0; int atomic = 0; };
struct ExcRec { uint64_t tinfo, dtor, adjusted; };
struct InputRec { string name; vector<Expr*> bytes; };
struct State {
    Memory mem; vector<Thread> th; int cur = 0; PathCond pc; uint64_t steps = 0; std::map<uint64_t, ExcRec> exc; std::map<string, int> symCount; vector<InputRec> inputs;
    int preempt = 0; bool skipSched = false, skipNow = false; vector<uint8_t> trace; uint64_t stepLimit = 0; bool incomplete = false; int schedCount = 0; bool noSched = false;
    std::map<uint64_t, uint64_t> kv;
    string schedTrace;
    vector<Expr*> obligations;
};

struct Violation { string label, kind, detail, trace; vector<std::pair<string, string>> inputs; string sched; };
struct Results {
    uint64_t paths = 0, completed = 0, pruned = 0, errors = 0, instrs = 0, forks = 0, concretizations = 0, obligTotal = 0, obligConst = 0, obligSolver = 0, unknown = 0, schedPoints = 0, maxForkDepth = 0, deadlocks = 0;
    std::map<string, uint64_t> incomplete; std::map<string, uint64_t> reach; std::map<string, Violation> viol; std::map<string, uint64_t> obligs; std::set<string> funcs; uint64_t maxThreads = 1;
    std::map<string, vector<std::pair<string, string>>> witness; std::map<string, string> witnessSched;
} R;

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Value*, uint64_t> gAddr; // functions + globals
static vector<FuncInfo*> funcByIdx; static std::unordered_map<const Function*, FuncInfo*> fiOf;
typedef std::function<int(State&, Inst&, vector<Val>&, Val*)> Handler;
static std::unordered_map<string, Handler> handlers;
static std::unordered_map<uint64_t, int> typeIds;
static vector<State*> stack_; static string gRepoPrefix = "/repo/";
static int optWorkers = 8, optPreempt = 2, optMaxViol = 1; static double optTime = 600; static uint64_t optSteps = 50000000; static string optOut; static bool optVerbose = false; static bool optTraceCalls = false;
struct Shared { std::atomic<int> slots, active, stop, started, crashed; std::atomic<uint64_t> paths; std::atomic<double> stopAt; };
static std::map<string, uint64_t> gParams; static std::set<string> gKnownLabels; static bool gStopOnViol = true, optRaces = false; static string optInstrument; static double gMemLimit = 3.5e9;
static void crashHandler(int);
static Shared* SH; static string gWorkerId = "0"; static int gChildSeq = 0; static bool gNoSplit = false;

enum HRet { H_OK = 0, H_KILL = 1, H_REDO = 2, H_JUMPED = 3 };

// ---------- reporting ----------
static string fname(const Function* f) { return llvm::demangle(f->getName().str()); }
static string locStr(const Instruction* I) {
    if (!I) return "?";
    if (auto& dl = I->getDebugLoc()) { string s = dl->getFilename().str(); s += ":" + std::to_string(dl->getLine()); return s; }
    return "?";
}
static string backtrace(State& s) {
    string r; auto& t = s.th[s.cur];
    for (int i = (int)t.st.size() - 1, n = 0; i >= 0 && n < 14; i--, n++) {
        auto& f = t.st[i]; const Inst* in = f.pc < (int)f.fi->code.size() ? &f.fi->code[f.pc] : nullptr;
        r += fname(f.fi->f).substr(0, 110) + " @ " + (in ? locStr(in->I) : "?") + "; ";
    }
    return r;
}
// Innermost frame located in the repository: identifies the site of an error.
static string repoSite(State& s) {
    auto& t = s.th[s.cur];
    for (int i = (int)t.st.size() - 1; i >= 0; i--) {
        auto& f = t.st[i]; if (auto* sp = f.fi->f->getSubprogram()) { string file = sp->getFilename().str(); string dir = sp->getDirectory().str(); string full = file[0] == '/' ? file : dir + "/" + file; if (full.find(gRepoPrefix) == 0) { string n = fname(f.fi->f); size_t p = n.find('('); return n.substr(0, p); } }
    }
    return "?";
}
static vector<std::pair<string, string>> concreteInputs(State& s, const Model& m) {
    vector<std::pair<string, string>> r;
    for (auto& in : s.inputs) { string h; char buf[20]; for (Expr* e : in.bytes) { uint64_t v = evalExpr(e, m); for (unsigned k = 0; k * 8 < (unsigned)std::max<int>(8, e->w); k++) { snprintf(buf, sizeof buf, "%02x", (unsigned)((v >> (8 * k)) & 255)); h += buf; } } r.push_back({in.name, h}); }
    return r;
}
static void report(State& s, const string& label, const string& kind, const string& detail, const Model& m) {
    R.errors++;
    auto& v = R.viol[label];
    if (v.label.empty()) { v.label = label; v.kind = kind; v.detail = detail; v.trace = backtrace(s); v.inputs = concreteInputs(s, m); v.sched = s.schedTrace;
        if (gStopOnViol && !gKnownLabels.count(label)) { double z = 0; SH->stopAt.compare_exchange_strong(z, now() + 3); }
        if (optVerbose) { fprintf(stderr, "[viol] %s: %s | %s\n", label.c_str(), detail.c_str(), v.trace.c_str()); } }
}
static void incomplete(State& s, const string& why) { R.incomplete[why]++; s.incomplete = true; if (optVerbose && R.incomplete[why] < 3) fprintf(stderr, "[incomplete] %s | %s\n", why.c_str(), backtrace(s).c_str()); }
static void error(State& s, const string& kind, const string& detail, const Model& m) { report(s, kind + "@" + repoSite(s), kind, detail, m); }

// ---------- forking ----------
static State* cloneState(State& s) { R.forks++; return new State(s); }
static void assume(State& s, Expr* e, const Model* m) { addConstraint(s.pc, e, m); }
// Decide a condition: returns 1/0; when both are possible the current state takes `true` if prefer, the other is queued and re-executes the instruction.
static int fork2(State& s, Expr* cond, bool prefer = true) { static bool fk = getenv("VP_FORKS"); if (fk) fprintf(stderr, "FORK %s | %s\n", exprStr(cond, 8).substr(0, 300).c_str(), backtrace(s).substr(0, 500).c_str());
    if (isC(cond)) return cond->c;
    bool cur = evalExpr(cond, s.pc.model);
    if (s.pc.allBound(cond)) return cur;
    Expr* other = cur ? mkNot(cond) : cond; Model m;
    Tri t = feasible(s.pc, other, &m);
    if (t == UNKNOWN) { R.unknown++; incomplete(s, "solver-unknown"); t = NO; }
    if (t == YES) {
        State* o = cloneState(s); assume(*o, other, &m); stack_.push_back(o);
        assume(s, cur ? cond : mkNot(cond), nullptr);
    }
    return cur;
}
static uint64_t concretize(State& s, const Val& v) {
    if (!v.e) return v.c;
    uint64_t x = evalExpr(v.e, s.pc.model);
    if (s.pc.allBound(v.e)) return x;
    R.concretizations++;
    fork2(s, mkBin(O_EQ, v.e, mkConst(x, v.e->w)));
    return x;
}
static inline void simp(State& s, Val& v) { if (v.e && s.pc.allBound(v.e)) { v.c = evalExpr(v.e, s.pc.model); v.e = nullptr; } }

// ---------- memory access ----------
static string objName(Obj* o) { string r = o->kind == K_STACK ? "stack object" : o->kind == K_HEAP ? "heap object" : "global"; if (o->name) r += string(" ") + o->name; r += " of " + std::to_string(o->size) + " bytes"; return r; }
// Resolves address; on success obj base in `base`, offset either concrete (off) or symbolic (offE).
static HRet resolve(State& s, Val addr, uint32_t size, uint64_t& base, uint32_t& off, Expr*& offE, bool write) {
    offE = nullptr; simp(s, addr);
    if (addr.e && addr.e->op == O_ITE) { fork2(s, addr.e->a); bool c = evalExpr(addr.e->a, s.pc.model); return resolve(s, V(c ? addr.e->b : addr.e->d), size, base, off, offE, write); }
    // A field of an object chosen by a condition: decide the condition when the choice is between different objects.
    if (addr.e && addr.e->op == O_ADD) for (int side = 0; side < 2; side++) {
        Expr *i = side ? addr.e->b : addr.e->a, *k = side ? addr.e->a : addr.e->b; if (i->op != O_ITE) continue;
        uint64_t x = evalExpr(i->b, s.pc.model), y = evalExpr(i->d, s.pc.model); if (s.mem.find(x) && s.mem.find(x) == s.mem.find(y)) continue;
        fork2(s, i->a); bool c = evalExpr(i->a, s.pc.model); return resolve(s, V(mkBin(O_ADD, c ? i->b : i->d, k)), size, base, off, offE, write);
    }
    uint64_t a = addr.e ? evalExpr(addr.e, s.pc.model) : addr.c;
    uint64_t anchor = a;
    Obj* o = s.mem.find(a);
    if (!o && addr.e && addr.e->op == O_ADD && isC(addr.e->b)) { anchor = addr.e->b->c; o = s.mem.find(anchor); }
    if (!o && addr.e && addr.e->op == O_SUB && isC(addr.e->a)) { anchor = addr.e->a->c; o = s.mem.find(anchor); }
    if (!o) {
        if (a < 0x10000) error(s, "null-deref", write ? "write through null pointer" : "read through null pointer", s.pc.model);
        else { uint32_t sl = Memory::slotOf(a); bool known = sl >= 2 && (sl >> 6) < s.mem.ch.size() && !(a >> 63); error(s, known ? "use-after-free" : "wild-pointer", "access to invalid address", s.pc.model); }
        return H_KILL;
    }
    base = s.mem.baseOf(anchor);
    if (!addr.e) {
        uint64_t d = a - base;
        if (d > o->size || o->size - d < size) { error(s, write ? "oob-write" : "oob-read", "offset " + std::to_string((int64_t)d) + " size " + std::to_string(size) + " in " + objName(o), s.pc.model); return H_KILL; }
        off = d; return H_OK;
    }
    Expr* d = mkBin(O_SUB, addr.e, mkConst(base, 64));
    if (o->size < size) { error(s, write ? "oob-write" : "oob-read", "object too small", s.pc.model); return H_KILL; }
    Expr* inb = mkBin(O_ULE, d, mkConst(o->size - size, 64));
    if (!isC(inb)) {
        bool cur = evalExpr(inb, s.pc.model); Model m;
        if (!cur) m = s.pc.model;
        Tri t = cur ? feasible(s.pc, mkNot(inb), &m) : YES;
        if (t == UNKNOWN) { R.unknown++; incomplete(s, "solver-unknown"); }
        if (t == YES) {
            error(s, write ? "oob-write" : "oob-read", "symbolic offset, e.g. " + std::to_string((int64_t)evalExpr(d, m)) + " size " + std::to_string(size) + " in " + objName(o), m);
            Model m2; if (feasible(s.pc, inb, &m2) != YES) return H_KILL;
            assume(s, inb, &m2);
        }
    } else if (!inb->c) { error(s, write ? "oob-write" : "oob-read", "always out of bounds: " + exprStr(addr.e, 5) + " in " + objName(o), s.pc.model); return H_KILL; }
    Val dv = V(d); simp(s, dv);
    if (!dv.e) { off = dv.c; return H_OK; }
    offE = d; return H_OK;
}
static Val readConc(Obj* o, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (o->s) {
        bool any = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { any = true; break; }
        if (any) {
            Expr* r = nullptr;
            for (int i = n - 1; i >= 0; i--) { Expr* x = o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8); r = r ? mkConcat(r, x) : x; }
            if (w != n * 8) r = mkExtract(r, 0, w);
            return V(r);
        }
    }
    uint64_t v = 0; memcpy(&v, o->b + off, n); return C(v & maskw(w));
}
static void writeConc(Obj* o, uint32_t off, unsigned w, const Val& v) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { memcpy(o->b + off, &v.c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
    o->sym(); Expr* e = v.e; if (w != n * 8) e = mkExt(O_ZEXT, e, n * 8);
    for (unsigned i = 0; i < n; i++) { Expr* x = mkExtract(e, i * 8, 8); if (isC(x)) { o->b[off + i] = x->c; o->s[off + i] = nullptr; } else { o->s[off + i] = x; o->b[off + i] = 0; } }
}
static unsigned lowZeroBits(Expr* e) { if (isC(e)) return e->c ? std::min<unsigned>(e->w, __builtin_ctzll(e->c)) : e->w; if (e->op == O_CONCAT) { unsigned z = lowZeroBits(e->b); return z == e->b->w ? z + lowZeroBits(e->a) : z; } if (e->op == O_ZEXT) return lowZeroBits(e->a); if (e->op == O_ADD) return std::min(lowZeroBits(e->a), lowZeroBits(e->b)); return 0; }
static Expr* readTree(Obj* o, Expr* off, uint64_t lo, uint64_t step, uint64_t cnt, unsigned w) {
    if (cnt == 1) return E(readConc(o, lo, w), w);
    uint64_t h = cnt / 2;
    Expr* l = readTree(o, off, lo, step, h, w); Expr* r = readTree(o, off, lo + h * step, step, cnt - h, w);
    if (l == r) return l;
    return mkIte(mkBin(O_ULT, off, mkConst(lo + h * step, 64)), l, r);
}
static HRet load(State& s, const Val& addr, unsigned w, Val& out) {
    uint64_t base; uint32_t off; Expr* offE; unsigned n = (w + 7) / 8;
    HRet h = resolve(s, addr, n, base, off, offE, false); if (h != H_OK) return h;
    Obj* o = s.mem.find(base);
    if (!offE) { out = readConc(o, off, w); return H_OK; }
    uint64_t lo, hi; exprRange(offE, lo, hi); hi = std::min<uint64_t>(hi, o->size - n);
    unsigned z = std::min(lowZeroBits(offE), 6u); uint64_t step = 1ull << z; lo = (lo + step - 1) & ~(step - 1);
    uint64_t cnt = (hi - lo) / step + 1;
    if (cnt > 2048) { uint64_t x = concretize(s, V(offE)); out = readConc(o, x, w); return H_OK; }
    out = V(readTree(o, offE, lo, step, cnt, w)); return H_OK;
}
static HRet store(State& s, const Val& addr, unsigned w, const Val& v) {
    uint64_t base; uint32_t off; Expr* offE; unsigned n = (w + 7) / 8;
    HRet h = resolve(s, addr, n, base, off, offE, true); if (h != H_OK) return h;
    if (s.mem.find(base)->ro) { error(s, "write-to-constant", objName(s.mem.find(base)), s.pc.model); return H_KILL; }
    if (offE) {
        uint64_t lo, hi; exprRange(offE, lo, hi); Obj* ro = s.mem.find(base); hi = std::min<uint64_t>(hi, ro->size - n);
        if (hi - lo > 128) { off = concretize(s, V(offE)); offE = nullptr; }
        else {
            Obj* o = s.mem.writable(base); o->sym(); Expr* e = E(v, w); if (w != n * 8) e = mkExt(O_ZEXT, e, n * 8);
            unsigned z = std::min(lowZeroBits(offE), 6u); uint64_t step = 1ull << z; lo = (lo + step - 1) & ~(step - 1);
            for (uint64_t p = lo; p <= hi; p += step) { Expr* c = mkBin(O_EQ, offE, mkConst(p, 64)); for (unsigned i = 0; i < n; i++) { Expr* old = o->s[p + i] ? o->s[p + i] : mkConst(o->b[p + i], 8); Expr* x = mkIte(c, mkExtract(e, i * 8, 8), old); if (isC(x)) { o->b[p + i] = x->c; o->s[p + i] = nullptr; } else o->s[p + i] = x; } }
            return H_OK;
        }
    }
    writeConc(s.mem.writable(base), off, w, v); return H_OK;
}
// Resolve a region with a concrete length for bulk operations.
static HRet region(State& s, const Val& addr, uint64_t n, uint64_t& base, uint32_t& off, bool write) {
    Expr* offE; if (n > 0xFFFFFFF) { error(s, write ? "oob-write" : "oob-read", "huge length " + std::to_string(n), s.pc.model); return H_KILL; }
    HRet h = resolve(s, addr, n, base, off, offE, write); if (h != H_OK) return h;
    if (offE) off = concretize(s, V(offE));
    if (write && s.mem.find(base)->ro) { error(s, "write-to-constant", objName(s.mem.find(base)), s.pc.model); return H_KILL; }
    return H_OK;
}
static HRet copyMem(State& s, const Val& d, const Val& src, uint64_t n) {
    if (!n) return H_OK;
    uint64_t b1, b2; uint32_t o1, o2; HRet h;
    if ((h = region(s, src, n, b2, o2, false)) != H_OK) return h;
    if ((h = region(s, d, n, b1, o1, true)) != H_OK) return h;
    Obj* w = s.mem.writable(b1); Obj* r = s.mem.find(b2);
    memmove(w->b + o1, r->b + o2, n);
    if (r->s || w->s) { w->sym(); if (r->s) memmove(w->s + o1, r->s + o2, n * sizeof(Expr*)); else memset((void*)(w->s + o1), 0, n * sizeof(Expr*)); }
    return H_OK;
}
static HRet readBytes(State& s, const Val& addr, uint64_t n, vector<Expr*>& out) {
    out.clear(); if (!n) return H_OK; uint64_t b; uint32_t o; HRet h = region(s, addr, n, b, o, false); if (h != H_OK) return h;
    Obj* ob = s.mem.find(b); for (uint64_t i = 0; i < n; i++) out.push_back(ob->s && ob->s[o + i] ? ob->s[o + i] : mkConst(ob->b[o + i], 8)); return H_OK;
}
static string readCStr(State& s, uint64_t addr) { string r; Obj* o = s.mem.find(addr); if (!o) return "?"; uint64_t off = addr - s.mem.baseOf(addr); for (; off < o->size; off++) { if (o->s && o->s[off]) { r += (char)evalExpr(o->s[off], s.pc.model); continue; } if (!o->b[off]) break; r += (char)o->b[off]; } return r; }
static uint64_t rd64(State& s, uint64_t a) { Val v; if (load(s, C(a), 64, v) != H_OK || v.e) return 0; return v.c; }

// ---------- predecode ----------
static unsigned tw(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static void flatten(Type* t, uint64_t off, vector<std::pair<uint32_t, uint8_t>>& out, bool& ok) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out, ok); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out, ok); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out, ok); return; }
    unsigned w = tw(t); if (!w || w > 64) { if (t->isIntegerTy(128)) { out.push_back({(uint32_t)off, 64}); out.push_back({(uint32_t)off + 8, 64}); ok = false; return; } ok = false; w = 64; }
    out.push_back({(uint32_t)off, (uint8_t)w});
}
static int nslots(Type* t) { if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return 0; if (t->isAggregateType() || t->isVectorTy()) { vector<std::pair<uint32_t, uint8_t>> p; bool ok = true; flatten(t, 0, p, ok); return p.size(); } return 1; }
static unsigned aggIndex(Type* t, ArrayRef<unsigned> idx) { unsigned r = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nslots(st->getElementType(k)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); r += i * nslots(at->getElementType()); t = at->getElementType(); } } return r; }
static void constFlat(const Constant* c, vector<Val>& out, bool& ok);
static uint64_t constAddr(const Constant* c, bool& ok) {
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee(), ok);
    if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gAddr.find(gv); if (it == gAddr.end()) { ok = false; return 0; } return it->second; }
    vector<Val> v; constFlat(c, v, ok); return v.empty() ? 0 : v[0].c;
}
static void constFlat(const Constant* c, vector<Val>& out, bool& ok) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; out.push_back(C(ci->getValue().getLoBits(64).getZExtValue())); out.push_back(C(ci->getValue().lshr(64).getZExtValue())); return; } out.push_back(C(ci->getZExtValue())); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) { ok = false; out.push_back(C(0)); return; } out.push_back(C(b.getZExtValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(C(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = nslots(t); for (int i = 0; i < n; i++) out.push_back(C(0)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constFlat(cd->getElementAsConstant(i), out, ok); return; }
    if (isa<ConstantAggregate>(c)) { for (auto& op : c->operands()) constFlat(cast<Constant>(op), out, ok); return; }
    if (isa<GlobalValue>(c)) { out.push_back(C(constAddr(c, ok))); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        vector<Val> a;
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0); auto* g = cast<GEPOperator>(ce);
                uint64_t base = constAddr(cast<Constant>(g->getPointerOperand()), ok);
                if (!g->accumulateConstantOffset(*DL, off)) { ok = false; }
                out.push_back(C(base + off.getSExtValue())); return;
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constFlat(ce->getOperand(0), a, ok); out.push_back(C(a[0].c & maskw(tw(t)))); return;
            case Instruction::Trunc: constFlat(ce->getOperand(0), a, ok); out.push_back(C(a[0].c & maskw(tw(t)))); return;
            case Instruction::Sub: { vector<Val> b; constFlat(ce->getOperand(0), a, ok); constFlat(ce->getOperand(1), b, ok); out.push_back(C((a[0].c - b[0].c) & maskw(tw(t)))); return; }
            case Instruction::Add: { vector<Val> b; constFlat(ce->getOperand(0), a, ok); constFlat(ce->getOperand(1), b, ok); out.push_back(C((a[0].c + b[0].c) & maskw(tw(t)))); return; }
            case Instruction::ICmp: { vector<Val> b; constFlat(ce->getOperand(0), a, ok); constFlat(ce->getOperand(1), b, ok); bool r = false; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a[0].c == b[0].c; break; case CmpInst::ICMP_NE: r = a[0].c != b[0].c; break; default: ok = false; } out.push_back(C(r)); return; }
            default: break;
        }
    }
    ok = false; int n = nslots(t); for (int i = 0; i < std::max(n, 1); i++) out.push_back(C(0));
}
static FuncInfo* getFI(Function* f) { auto it = fiOf.find(f); if (it != fiOf.end()) return it->second; auto* fi = new FuncInfo(); fi->f = f; fiOf[f] = fi; return fi; }

static void predecode(FuncInfo* fi) {
    fi->ready = true; Function* f = fi->f;
    std::unordered_map<const Value*, int> slot; int ns = 0;
    for (auto& a : f->args()) { slot[&a] = ns; int n = nslots(a.getType()); fi->params.push_back({ns, n, a.hasByValAttr() ? (uint32_t)DL->getTypeAllocSize(a.getParamByValType()) : 0, (uint8_t)tw(a.getType())}); ns += n; }
    for (auto& bb : *f) for (auto& i : bb) { int n = nslots(i.getType()); if (n) { slot[&i] = ns; ns += n; } }
    fi->nslots = ns;
    std::unordered_map<const Constant*, int> cpos;
    bool ok = true;
    auto op = [&](Value* v) -> int {
        if (auto it = slot.find(v); it != slot.end()) return it->second;
        if (auto* c = dyn_cast<Constant>(v)) { auto it = cpos.find(c); if (it != cpos.end()) return it->second; int p = fi->consts.size(); constFlat(c, fi->consts, ok); return cpos[c] = ~p; }
        if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) return ~0;
        ok = false; return ~0;
    };
    std::unordered_map<const BasicBlock*, int> bbpc; 
    fi->consts.push_back(C(0));
    for (auto& bb : *f) {
        bbpc[&bb] = fi->code.size();
        for (auto& i : bb) {
            if (isa<PHINode>(i)) continue;
            if (isa<DbgInfoIntrinsic>(i)) continue;
            Inst in; in.I = &i; in.op = I_UNSUPPORTED; ok = true;
            if (slot.count(&i)) in.dst = slot[&i];
            in.w = tw(i.getType()); bool vec = i.getType()->isVectorTy();
            auto edge = [&](BasicBlock* to) { Edge e; e.bb = to; e.pc = -1; for (auto& p : to->phis()) { e.phis.push_back({slot[&p], op(p.getIncomingValueForBlock(&bb)), nslots(p.getType())}); } in.edges.push_back(e); };
            switch (i.getOpcode()) {
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                    if (!in.w || in.w > 64 || vec) break;
                    static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
                    in.op = I_BIN; in.sub = m.at(i.getOpcode()); in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); break;
                }
                case Instruction::ICmp: { unsigned w = tw(i.getOperand(0)->getType()); if (!w || w > 64) break; in.op = I_ICMP; in.w = w; in.sub = cast<ICmpInst>(i).getPredicate(); in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); break; }
                case Instruction::Select: in.op = I_SELECT; if (i.getOperand(0)->getType()->isVectorTy()) { in.op = I_UNSUPPORTED; break; } in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); in.c = op(i.getOperand(2)); in.n = nslots(i.getType()); { bool k = true; flatten(i.getType(), 0, in.parts, k); } break;
                case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: in.w2 = tw(i.getOperand(0)->getType()); if (!in.w || in.w > 64 || !in.w2 || in.w2 > 64) break; in.op = i.getOpcode() == Instruction::ZExt ? I_ZEXT : i.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; in.a = op(i.getOperand(0)); break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: { in.w2 = tw(i.getOperand(0)->getType()); in.a = op(i.getOperand(0)); in.op = in.w == in.w2 ? I_COPY : in.w > in.w2 ? I_ZEXT : I_TRUNC; in.n = 1; break; }
                case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { bool k1 = true, k2 = true; vector<std::pair<uint32_t, uint8_t>> p1, p2; flatten(i.getType(), 0, p1, k1); flatten(i.getOperand(0)->getType(), 0, p2, k2); if (p1 != p2) break; in.op = I_COPY; in.a = op(i.getOperand(0)); in.n = p1.size(); break; }
                case Instruction::Load: { bool k = true; flatten(i.getType(), 0, in.parts, k); if (!k) { break; } in.op = I_LOAD; in.a = op(i.getOperand(0)); in.atomic = cast<LoadInst>(i).isAtomic(); break; }
                case Instruction::Store: { bool k = true; flatten(i.getOperand(0)->getType(), 0, in.parts, k); if (!k) break; in.op = I_STORE; in.a = op(i.getOperand(1)); in.b = op(i.getOperand(0)); in.atomic = cast<StoreInst>(i).isAtomic(); break; }
                case Instruction::GetElementPtr: {
                    if (vec) break;
                    in.op = I_GEP; in.a = op(i.getOperand(0)); int64_t off = 0;
                    for (auto gi = gep_type_begin(&i), ge = gep_type_end(&i); gi != ge; ++gi) {
                        if (auto* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
                        else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) off += ci->getSExtValue() * (int64_t)sz; else { in.geps.push_back({op(gi.getOperand()), sz}); in.gw.push_back(tw(gi.getOperand()->getType())); } }
                    }
                    in.imm = off; break;
                }
                case Instruction::Alloca: { auto& al = cast<AllocaInst>(i); in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(al.getAllocatedType()); in.a = op(al.getArraySize()); in.w2 = tw(al.getArraySize()->getType()); break; }
                case Instruction::Br: { auto& b = cast<BranchInst>(i); if (b.isConditional()) { in.op = I_CONDBR; in.a = op(b.getCondition()); edge(b.getSuccessor(0)); edge(b.getSuccessor(1)); } else { in.op = I_BR; edge(b.getSuccessor(0)); } break; }
                case Instruction::Switch: { auto& sw = cast<SwitchInst>(i); in.op = I_SWITCH; in.a = op(sw.getCondition()); in.w = tw(sw.getCondition()->getType()); edge(sw.getDefaultDest()); for (auto& c : sw.cases()) { edge(c.getCaseSuccessor()); in.cases.push_back({c.getCaseValue()->getZExtValue(), (int)in.edges.size() - 1}); } break; }
                case Instruction::Ret: in.op = I_RET; in.n = i.getNumOperands() ? nslots(i.getOperand(0)->getType()) : 0; in.a = in.n ? op(i.getOperand(0)) : 0; break;
                case Instruction::Unreachable: in.op = I_UNREACHABLE; break;
                case Instruction::ExtractValue: { auto& ev = cast<ExtractValueInst>(i); in.op = I_EXTRACTV; in.a = op(ev.getAggregateOperand()); in.n = nslots(i.getType()); in.imm = aggIndex(ev.getAggregateOperand()->getType(), ev.getIndices()); break; }
                case Instruction::InsertValue: { auto& iv = cast<InsertValueInst>(i); in.op = I_INSERTV; in.a = op(iv.getAggregateOperand()); in.b = op(iv.getInsertedValueOperand()); in.n = nslots(i.getType()); in.imm = aggIndex(i.getType(), iv.getIndices()); in.c = nslots(iv.getInsertedValueOperand()->getType()); break; }
                case Instruction::ExtractElement: { if (auto* ci = dyn_cast<ConstantInt>(i.getOperand(1))) { in.op = I_EXTRACTV; in.a = op(i.getOperand(0)); in.n = 1; in.imm = ci->getZExtValue(); } break; }
                case Instruction::InsertElement: { if (auto* ci = dyn_cast<ConstantInt>(i.getOperand(2))) { in.op = I_INSERTV; in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); in.n = nslots(i.getType()); in.imm = ci->getZExtValue(); in.c = 1; } break; }
                case Instruction::LandingPad: in.op = I_LANDINGPAD; break;
                case Instruction::Resume: in.op = I_RESUME; in.a = op(i.getOperand(0)); break;
                case Instruction::AtomicRMW: { auto& rw = cast<AtomicRMWInst>(i); in.op = I_ATOMICRMW; in.sub = rw.getOperation(); in.a = op(rw.getPointerOperand()); in.b = op(rw.getValOperand()); in.atomic = true; if (in.w > 64) in.op = I_UNSUPPORTED; break; }
                case Instruction::AtomicCmpXchg: { auto& cx = cast<AtomicCmpXchgInst>(i); in.op = I_CMPXCHG; in.a = op(cx.getPointerOperand()); in.b = op(cx.getCompareOperand()); in.c = op(cx.getNewValOperand()); in.w = tw(cx.getCompareOperand()->getType()); in.atomic = true; break; }
                case Instruction::Fence: in.op = I_NOP; break;
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: if (vec || !in.w) break; in.op = I_FBIN; in.sub = i.getOpcode(); in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); break;
                case Instruction::FNeg: if (vec || !in.w) break; in.op = I_FNEG; in.a = op(i.getOperand(0)); break;
                case Instruction::FCmp: in.w = tw(i.getOperand(0)->getType()); if (!in.w) break; in.op = I_FCMP; in.sub = cast<FCmpInst>(i).getPredicate(); in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); break;
                case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: in.w2 = tw(i.getOperand(0)->getType()); if (!in.w || !in.w2 || in.w > 64) break; in.op = I_FPCAST; in.sub = i.getOpcode(); in.a = op(i.getOperand(0)); break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto& cb = cast<CallBase>(i);
                    Value* cv = cb.getCalledOperand()->stripPointerCasts();
                    while (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                    in.callee = dyn_cast<Function>(cv);
                    if (in.callee && in.callee->isIntrinsic()) {
                        auto id = in.callee->getIntrinsicID();
                        switch (id) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::stackrestore: in.op = I_NOP; break; default: in.op = I_INTRIN; in.sub = id; }
                    } else if (isa<InlineAsm>(cv)) in.op = I_NOP;
                    else { in.op = I_CALL; if (!in.callee) in.a = op(cv); }
                    in.n = nslots(i.getType());
                    if (in.op != I_NOP) for (unsigned k = 0; k < cb.arg_size(); k++) { Value* av = cb.getArgOperand(k); if (av->getType()->isMetadataTy()) { in.args.push_back({~0, 0, 0, 0}); continue; } in.args.push_back({op(av), nslots(av->getType()), cb.isByValArgument(k) ? (uint32_t)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0, (uint8_t)tw(av->getType())}); }
                    if (auto* iv = dyn_cast<InvokeInst>(&i)) { edge(iv->getNormalDest()); edge(iv->getUnwindDest()); if (in.op == I_NOP) in.op = I_BR; }
                    break;
                }
                default: break;
            }
            if (!ok && in.op != I_NOP) { if (in.op == I_BR || in.op == I_CONDBR || in.op == I_CALL || in.op == I_RET || in.op == I_STORE) { /* keep: constants approximated */ in.op = I_UNSUPPORTED; } else in.op = I_UNSUPPORTED; }
            fi->code.push_back(std::move(in));
        }
    }
    for (auto& in : fi->code) for (auto& e : in.edges) e.pc = bbpc[e.bb];
    for (auto& in : fi->code) { if (in.op == I_LOAD || in.op == I_STORE || in.op == I_ATOMICRMW || in.op == I_CMPXCHG || in.op == I_FENCE) in.ev = true; if (in.op == I_CALL && in.callee) { StringRef n = in.callee->getName(); if (n == "vp_sched" || n == "vp_block" || n == "vp_block_timed" || n == "vp_join") in.ev = true; } }
}

// ---------- threads ----------
static bool schedule(State& s, bool voluntary); // choose the next thread; false if the state ended
static void initMain(State& s);

static void finishPath(State& s, bool ok) { R.paths++; if (ok) R.completed++; }

static inline Val opv(Frame& f, int o) { return o >= 0 ? f.regs[o] : f.fi->consts[~o]; }
static void takeEdge(Frame& f, const Edge& e) {
    size_t n = e.phis.size();
    if (n == 1 && e.phis[0].n == 1) { f.regs[e.phis[0].dst] = opv(f, e.phis[0].src); }
    else if (n) { static thread_local vector<Val> tmp; tmp.clear(); for (auto& p : e.phis) for (int k = 0; k < p.n; k++) tmp.push_back(p.src >= 0 ? f.regs[p.src + k] : f.fi->consts[~p.src + k]); size_t j = 0; for (auto& p : e.phis) for (int k = 0; k < p.n; k++) f.regs[p.dst + k] = tmp[j++]; }
    f.pc = e.pc;
}
static void popFrame(State& s, Thread& t) { for (uint64_t a : t.st.back().allocas) if (s.mem.find(a)) s.mem.dealloc(a); t.st.pop_back(); }
static bool pushFrame(State& s, Thread& t, FuncInfo* fi, vector<Val>& args, const vector<ArgI>* argInfo) {
    if (!fi->ready) { predecode(fi); if (auto* sp = fi->f->getSubprogram()) { string fn = "/" + sp->getFilename().str(); if (fn.find("/rt/") != string::npos || fn.find("/env/") != string::npos || fn.find("/harness/") != string::npos || fn.find("vpstream") != string::npos) fi->infra = true; } }
    if (!fi->executed) { fi->executed = true; if (auto* sp = fi->f->getSubprogram()) { string file = sp->getFilename().str(); string full = file[0] == '/' ? file : sp->getDirectory().str() + "/" + file; if (full.find(gRepoPrefix) == 0) R.funcs.insert(fname(fi->f)); } }
    if (t.st.size() > 3000) { error(s, "stack-overflow", "recursion deeper than 3000 frames", s.pc.model); return false; }
    t.st.emplace_back(); Frame& f = t.st.back(); f.fi = fi; f.regs.resize(fi->nslots);
    size_t need = 0; for (auto& p : fi->params) need += p.n;
    for (size_t i = 0; i < need && i < args.size(); i++) f.regs[i] = args[i];
    if (fi->f->isVarArg()) {
        size_t extra = args.size() > need ? args.size() - need : 0;
        f.varargs = s.mem.alloc(extra * 8 + 8, K_STACK, true, nullptr); f.allocas.push_back(f.varargs);
        Obj* o = s.mem.writable(f.varargs);
        size_t ai = 0, flat = 0; vector<uint8_t> ws; if (argInfo) for (auto& a : *argInfo) for (int k = 0; k < a.n; k++) ws.push_back(a.n == 1 && a.w ? a.w : 64);
        (void)ai; (void)flat;
        for (size_t i = 0; i < extra; i++) { unsigned w = need + i < ws.size() ? ws[need + i] : 64; writeConc(o, i * 8, w, args[need + i]); }
    }
    for (size_t i = 0; i < fi->params.size(); i++) { auto& p = fi->params[i]; if (p.byval) { uint64_t a = s.mem.alloc(p.byval, K_STACK, false, nullptr); if (copyMem(s, C(a), f.regs[p.op], p.byval) != H_OK) return false; t.st.back().allocas.push_back(a); t.st.back().regs[p.op] = C(a); } }
    return true;
}

// ---------- exceptions ----------
static uint64_t tiKindAddr(const char* n) { auto* g = M->getNamedValue(n); if (!g) return 1; auto it = gAddr.find(g); return it == gAddr.end() ? 1 : it->second + 16; }
// Finds base `want` in class typeinfo `ti`; returns true and the offset.
static bool isBase(State& s, uint64_t ti, uint64_t want, int64_t& off, uint64_t objForVirtual, int depth = 0) {
    if (ti == want) { return true; }
    if (depth > 20 || !s.mem.find(ti)) return false;
    static uint64_t si = tiKindAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = tiKindAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    uint64_t k = rd64(s, ti);
    if (k == si) return isBase(s, rd64(s, ti + 16), want, off, objForVirtual, depth + 1);
    if (k == vmi) {
        uint64_t cnt = rd64(s, ti + 16) >> 32;
        for (uint64_t i = 0; i < cnt; i++) { uint64_t b = rd64(s, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(s, ti + 32 + 16 * i); int64_t o2 = 0;
            int64_t add = of >> 8; if (of & 1) { if (!objForVirtual) continue; uint64_t vp = rd64(s, objForVirtual); add = (int64_t)rd64(s, vp + add); }
            if (isBase(s, b, want, o2, objForVirtual ? objForVirtual + add : 0, depth + 1)) { off += add + o2; return true; } }
    }
    return false;
}
static int typeId(uint64_t a) { auto it = typeIds.find(a); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[a] = n; return n; }
static string tiName(State& s, uint64_t ti) { uint64_t p = rd64(s, ti + 8); string n = p ? readCStr(s, p) : "?"; return llvm::demangle("_ZTS" + n).substr(0, 100); }
// Unwind the current thread with exception object `ex`. The throwing frame is the top (its pc at the call).
static HRet unwind(State& s, uint64_t ex, bool phase2only = false) {
    Thread& t = s.th[s.cur]; ExcRec rec = s.exc[ex];
    auto match = [&](const LandingPadInst* lp, int& sel, uint64_t& adj) -> bool {
        for (unsigned c = 0; c < lp->getNumClauses(); c++) {
            if (!lp->isCatch(c)) continue;
            Constant* cl = lp->getClause(c); bool ok = true; uint64_t want = isa<ConstantPointerNull>(cl) ? 0 : constAddr(cl, ok);
            int64_t off = 0;
            if (want == 0) { sel = typeId(0); adj = ex; return true; }
            if (rec.tinfo && isBase(s, rec.tinfo, want, off, ex)) { sel = typeId(want); adj = ex + off; return true; }
        }
        return false;
    };
    auto padOf = [&](Frame& f) -> const LandingPadInst* { Inst& in = f.fi->code[f.pc]; if (in.edges.size() == 2 && (in.op == I_CALL || in.op == I_INTRIN)) return in.edges[1].bb->getLandingPadInst(); return nullptr; };
    bool handled = false;
    for (int i = (int)t.st.size() - 1; i >= 0; i--) { auto* lp = padOf(t.st[i]); int sel; uint64_t adj; if (lp && match(lp, sel, adj)) { handled = true; break; } 
        if (t.st[i].fi->f->doesNotThrow() && !lp) break; }
    if (!handled) { auto al = s.kv.find(~7ull); if (al != s.kv.end() && al->second) return H_KILL; error(s, "uncaught-exception", "type " + (rec.tinfo ? tiName(s, rec.tinfo) : string("?")), s.pc.model); return H_KILL; }
    while (!t.st.empty()) {
        Frame& f = t.st.back(); auto* lp = padOf(f);
        if (lp) {
            int sel = 0; uint64_t adj = ex; bool m = match(lp, sel, adj);
            if (m || lp->isCleanup()) {
                if (m) s.exc[ex].adjusted = adj;
                Inst& in = f.fi->code[f.pc]; takeEdge(f, in.edges[1]);
                Inst& li = f.fi->code[f.pc]; if (li.op != I_LANDINGPAD) { incomplete(s, "landingpad-layout"); return H_KILL; }
                f.regs[li.dst] = C(ex); f.regs[li.dst + 1] = C(m ? sel : 0); f.pc++; return H_JUMPED;
            }
        }
        popFrame(s, t);
    }
    return H_KILL;
}

// ---------- intrinsics ----------
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { float d; uint32_t x = v; memcpy(&d, &x, 4); return d; }
static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static uint64_t conc(State& s, Val v, const char* why) { if (!v.e) return v.c; simp(s, v); if (!v.e) return v.c; return concretize(s, v); }

static void initGlobal(State& s, GlobalVariable& g, uint64_t addr);
static HRet doMemset(State& s, const Val& d, Val v, uint64_t n) { if (!n) return H_OK; uint64_t b; uint32_t o; HRet h = region(s, d, n, b, o, true); if (h != H_OK) return h; Obj* w = s.mem.writable(b);
    Val x = v; if (x.e && x.e->w != 8) x = V(mkExtract(x.e, 0, 8)); simp(s, x);
    if (!x.e) { memset(w->b + o, (int)(x.c & 255), n); if (w->s) memset((void*)(w->s + o), 0, n * sizeof(Expr*)); } else for (uint64_t i = 0; i < n; i++) writeConc(w, o + i, 8, x); return H_OK; }

static HRet intrinsic(State& s, Frame& f, Inst& in, vector<Val>& a, Val* ret) {
    unsigned w = in.w; auto wi = [&](int k) { return in.args[k].w; };
    auto both = [&](Op op, unsigned ww) -> Expr* { return mkBin(op, E(a[0], ww), E(a[1], ww)); };
    switch (in.sub) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = conc(s, a[2], "memcpy"); return copyMem(s, a[0], a[1], n); }
        case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = conc(s, a[2], "memset"); return doMemset(s, a[0], a[1], n); }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence: case Intrinsic::expect_with_probability: ret[0] = a[0]; return H_OK;
        case Intrinsic::objectsize: ret[0] = C(maskw(w)); return H_OK;
        case Intrinsic::is_constant: ret[0] = C(0); return H_OK;
        case Intrinsic::stacksave: ret[0] = C(0); return H_OK;
        case Intrinsic::threadlocal_address: { ret[0] = a[0]; if (s.cur) { auto* g = dyn_cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts()); if (g) { Thread& t = s.th[s.cur]; auto it = t.tls.find(g); if (it == t.tls.end()) { uint64_t n = s.mem.alloc(s.mem.find(gAddr[g])->size, K_GLOBAL, true, nullptr); initGlobal(s, *const_cast<GlobalVariable*>(g), n); t.tls[g] = n; ret[0] = C(n); } else ret[0] = C(it->second); } } return H_OK; }
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: error(s, "trap", "llvm.trap reached", s.pc.model); return H_KILL;
        case Intrinsic::umin: ret[0] = V(mkIte(both(O_ULT, w), E(a[0], w), E(a[1], w))); return H_OK;
        case Intrinsic::umax: ret[0] = V(mkIte(both(O_ULT, w), E(a[1], w), E(a[0], w))); return H_OK;
        case Intrinsic::smin: ret[0] = V(mkIte(both(O_SLT, w), E(a[0], w), E(a[1], w))); return H_OK;
        case Intrinsic::smax: ret[0] = V(mkIte(both(O_SLT, w), E(a[1], w), E(a[0], w))); return H_OK;
        case Intrinsic::abs: { Expr* x = E(a[0], w); ret[0] = V(mkIte(mkBin(O_SLT, x, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), x), x)); return H_OK; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned ww = wi(0); Expr *x = E(a[0], ww), *y = E(a[1], ww), *r, *o;
            switch (in.sub) {
                case Intrinsic::uadd_with_overflow: r = mkBin(O_ADD, x, y); o = mkBin(O_ULT, r, x); break;
                case Intrinsic::usub_with_overflow: r = mkBin(O_SUB, x, y); o = mkBin(O_ULT, x, y); break;
                case Intrinsic::umul_with_overflow: r = mkBin(O_MUL, x, y); if (isC(x) && isC(y)) { o = mkConst(x->c && (unsigned __int128)x->c * y->c > (unsigned __int128)maskw(ww), 1); } else o = mkIte(mkBin(O_EQ, y, mkConst(0, ww)), mkConst(0, 1), mkBin(O_ULT, mkBin(O_UDIV, mkConst(maskw(ww), ww), y), x)); break;
                case Intrinsic::sadd_with_overflow: { r = mkBin(O_ADD, x, y); Expr* z = mkConst(0, ww); Expr *xn = mkBin(O_SLT, x, z), *yn = mkBin(O_SLT, y, z), *rn = mkBin(O_SLT, r, z); o = mkBin(O_AND, mkBin(O_EQ, xn, yn), mkBin(O_XOR, xn, rn)); break; }
                case Intrinsic::ssub_with_overflow: { r = mkBin(O_SUB, x, y); Expr* z = mkConst(0, ww); Expr *xn = mkBin(O_SLT, x, z), *yn = mkBin(O_SLT, y, z), *rn = mkBin(O_SLT, r, z); o = mkBin(O_AND, mkBin(O_XOR, xn, yn), mkBin(O_XOR, xn, rn)); break; }
                default: { r = mkBin(O_MUL, x, y); if (isC(x) && isC(y)) { __int128 p = (__int128)sextw(x->c, ww) * sextw(y->c, ww); o = mkConst(p != sextw(r->c, ww) , 1); }
                    else if (ww <= 32) { Expr *lx = mkExt(O_SEXT, x, 2 * ww), *ly = mkExt(O_SEXT, y, 2 * ww); Expr* lr = mkBin(O_MUL, lx, ly); o = mkNot(mkBin(O_EQ, lr, mkExt(O_SEXT, mkExtract(lr, 0, ww), 2 * ww))); }
                    else if (isC(y) && sextw(y->c, ww) > 0) { int64_t k = sextw(y->c, ww); int64_t mx = INT64_MAX / k, mn = INT64_MIN / k; o = mkBin(O_OR, mkBin(O_SLT, mkConst(mx, ww), x), mkBin(O_SLT, x, mkConst(mn, ww))); }
                    else { // y == 0 ? no : (r / y != x) or (x==min && y==-1)
                        Expr* z = mkConst(0, ww); o = mkIte(mkBin(O_EQ, y, z), mkConst(0, 1), mkBin(O_OR, mkNot(mkBin(O_EQ, mkBin(O_SDIV, r, y), x)), mkBin(O_AND, mkBin(O_EQ, y, mkConst(~0ull, ww)), mkBin(O_EQ, x, mkConst(1ull << (ww - 1), ww))))); } }
            }
            ret[0] = V(r); ret[1] = V(o); return H_OK;
        }
        case Intrinsic::uadd_sat: { Expr *x = E(a[0], w), *y = E(a[1], w), *r = mkBin(O_ADD, x, y); ret[0] = V(mkIte(mkBin(O_ULT, r, x), mkConst(maskw(w), w), r)); return H_OK; }
        case Intrinsic::usub_sat: { Expr *x = E(a[0], w), *y = E(a[1], w); ret[0] = V(mkIte(mkBin(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y))); return H_OK; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            uint64_t k = conc(s, a[2], "fsh") % w; Expr *x = E(a[0], w), *y = E(a[1], w); bool l = in.sub == Intrinsic::fshl;
            if (k == 0) { ret[0] = l ? a[0] : a[1]; return H_OK; }
            uint64_t sl = l ? k : w - k; ret[0] = V(mkBin(O_OR, mkBin(O_SHL, x, mkConst(sl, w)), mkBin(O_LSHR, y, mkConst(w - sl, w)))); return H_OK;
        }
        case Intrinsic::bswap: { Expr* x = E(a[0], w); Expr* r = nullptr; for (unsigned k = 0; k < w / 8; k++) { Expr* b = mkExtract(x, k * 8, 8); r = r ? mkConcat(r, b) : b; } ret[0] = V(r); return H_OK; }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            Val v = a[0]; simp(s, v);
            if (v.e) { Expr* x = v.e; Expr* r;
                if (in.sub == Intrinsic::ctpop) { r = mkConst(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(O_ADD, r, mkExt(O_ZEXT, mkExtract(x, k, 1), w)); }
                else { r = mkConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned bit = in.sub == Intrinsic::cttz ? w - 1 - k : k; unsigned val = in.sub == Intrinsic::cttz ? bit : w - 1 - bit; r = mkIte(mkExtract(x, bit, 1), mkConst(val, w), r); } }
                ret[0] = V(r); return H_OK; }
            uint64_t x = v.c; ret[0] = C(in.sub == Intrinsic::ctpop ? __builtin_popcountll(x) : in.sub == Intrinsic::ctlz ? (x ? __builtin_clzll(x) - (64 - w) : w) : (x ? __builtin_ctzll(x) : w)); return H_OK;
        }
        case Intrinsic::eh_typeid_for: { ret[0] = C(typeId(a[0].c)); return H_OK; }
        case Intrinsic::vastart: { HRet h; uint64_t va = f.varargs; if ((h = store(s, a[0], 32, C(48))) != H_OK) return h; if ((h = store(s, C(a[0].c + 4), 32, C(176))) != H_OK) return h; if ((h = store(s, C(a[0].c + 8), 64, C(va))) != H_OK) return h; return store(s, C(a[0].c + 16), 64, C(0)); }
        case Intrinsic::vacopy: return copyMem(s, a[0], a[1], 24);
        case Intrinsic::fabs: { uint64_t x = conc(s, a[0], "fp"); ret[0] = C(w == 64 ? fromD(fabs(asD(x))) : fromF(fabsf(asF(x)))); return H_OK; }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sqrt: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: {
            uint64_t x = conc(s, a[0], "fp"); double d = w == 64 ? asD(x) : asF(x), r; switch (in.sub) { case Intrinsic::floor: r = floor(d); break; case Intrinsic::ceil: r = ceil(d); break; case Intrinsic::trunc: r = trunc(d); break; case Intrinsic::round: r = round(d); break; case Intrinsic::sqrt: r = sqrt(d); break; case Intrinsic::log: r = log(d); break; case Intrinsic::log2: r = log2(d); break; case Intrinsic::log10: r = log10(d); break; case Intrinsic::exp: r = exp(d); break; default: r = rint(d); } ret[0] = C(w == 64 ? fromD(r) : fromF(r)); return H_OK; }
        case Intrinsic::pow: { double r = pow(asD(conc(s, a[0], "fp")), asD(conc(s, a[1], "fp"))); ret[0] = C(fromD(r)); return H_OK; }
        case Intrinsic::fmuladd: case Intrinsic::fma: { uint64_t x = conc(s, a[0], ""), y = conc(s, a[1], ""), z = conc(s, a[2], ""); ret[0] = C(w == 64 ? fromD(asD(x) * asD(y) + asD(z)) : fromF(asF(x) * asF(y) + asF(z))); return H_OK; }
        case Intrinsic::maxnum: case Intrinsic::minnum: { double x = asD(conc(s, a[0], "")), y = asD(conc(s, a[1], "")); ret[0] = C(fromD(in.sub == Intrinsic::maxnum ? fmax(x, y) : fmin(x, y))); return H_OK; }
        case Intrinsic::ptrmask: ret[0] = V(mkBin(O_AND, E(a[0], 64), E(a[1], 64))); return H_OK;
        case Intrinsic::load_relative: { Val o; HRet h = load(s, V(mkBin(O_ADD, E(a[0], 64), E(a[1], 64))), 32, o); if (h != H_OK) return h; ret[0] = V(mkBin(O_ADD, E(a[0], 64), mkExt(O_SEXT, E(o, 32), 64))); return H_OK; }
        default: if (in.callee->getName() == "llvm.x86.sse2.pause") return H_OK; incomplete(s, "unsupported-intrinsic:" + in.callee->getName().str()); return H_KILL;
    }
}

#include "handlers.inc"

// ---------- threads: scheduling ----------
// Switch to some runnable thread. `voluntary` = current thread cannot or need not continue (no preemption cost).
static bool pickThread(State& s, bool curOk) {
    // A timed wait ends by timeout freely when nothing else can run; while others can run, an expiry counts as a preemption.
    vector<int> cand; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == 0) cand.push_back(i);
    bool idle = cand.empty(); if (idle || (s.preempt < optPreempt && !s.noSched)) for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == 3) cand.push_back(i);
    auto cost = [&](State& x, int t) { return (curOk && t != x.cur) || (!idle && x.th[t].status == 3); };
    bool mainDone = s.th[0].status == 2;
    if (mainDone) return false;
    if (cand.empty()) { string d; for (size_t i = 0; i < s.th.size(); i++) { if (s.th[i].status == 1) { d += "T" + std::to_string(i) + " blocked in "; int save = s.cur; s.cur = i; d += backtrace(s).substr(0, 300); s.cur = save; } } R.deadlocks++; error(s, "deadlock", d, s.pc.model); return false; }
    if (curOk && s.th[s.cur].status == 0) {
        if (s.preempt >= optPreempt || s.noSched || s.th[s.cur].atomic) return true;
        if (cand.size() == 1) return true;
    }
    int from = s.cur; uint64_t fromEv = s.th[from].ev; auto note = [&](State& x, int to) { if (to != from || !curOk) x.schedTrace += std::to_string(from) + ":" + std::to_string(fromEv) + ">" + std::to_string(to) + " "; };
    if (cand.size() == 1) { s.cur = cand[0]; note(s, s.cur); }
    else if (cand.size() > 1) {
        // the scheduler's decision is a symbolic input
        R.schedPoints++; static bool ph = getenv("VP_POINTS"); if (ph) fprintf(stderr, "POINT T%d ev%lu %s\n", from, (unsigned long)fromEv, backtrace(s).substr(0, 500).c_str());
        if (curOk) { auto it = std::find(cand.begin(), cand.end(), s.cur); if (it != cand.end()) std::iter_swap(cand.begin(), it); }
        Expr* c = mkSym("sched!" + std::to_string(s.schedCount++) , 8);
        Model m = s.pc.model; Expr* lim = mkBin(O_ULT, c, mkConst(cand.size(), 8)); m.set(c->c, 0); addConstraint(s.pc, lim, &m);
        for (size_t k = cand.size() - 1; k >= 1; k--) {
            State* o = cloneState(s); Model mm = o->pc.model; mm.set(c->c, k); addConstraint(o->pc, mkBin(O_EQ, c, mkConst(k, 8)), &mm);
            if (cost(*o, cand[k])) o->preempt++;
            o->cur = cand[k]; note(*o, o->cur); o->skipSched = true;
            if (o->th[o->cur].status == 3) { o->th[o->cur].status = 0; o->th[o->cur].wakeTimeout = true; }
            stack_.push_back(o);
        }
        addConstraint(s.pc, mkBin(O_EQ, c, mkConst(0, 8)), nullptr);
        if (cost(s, cand[0])) s.preempt++;
        s.cur = cand[0]; note(s, s.cur);
    }
    if (s.th[s.cur].status == 3) { s.th[s.cur].status = 0; s.th[s.cur].wakeTimeout = true; }
    s.skipSched = true;
    return true;
}

// ---------- main loop ----------
static bool maybeSplit() {
    if (gNoSplit || stack_.size() < 2 || SH->slots.load() <= 0) return false;
    int v = SH->slots.fetch_sub(1); if (v <= 0) { SH->slots.fetch_add(1); return false; }
    SH->active++; int myId = SH->started++;
    pid_t p = fork();
    if (p < 0) { SH->active--; SH->started--; SH->slots++; return false; }
    size_t half = stack_.size() / 2;
    if (p == 0) {
        // child: oldest half
        stack_.resize(half); gWorkerId = std::to_string(myId); gChildSeq = 0; R = Results(); gSolver = SolverStats(); for (auto& p : fiOf) p.second->executed = false;
        return true;
    }
    gChildSeq++;
    vector<State*> keep(stack_.begin() + half, stack_.end()); stack_.swap(keep); // states of the child are leaked here (COW)
    return false;
}

enum StepRes { S_CONT, S_END };
static void runState(State* sp);

static double rssBytes() { FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a = 0, b = 0, c = 0; if (fscanf(f, "%ld %ld %ld", &a, &b, &c) != 3) b = c = 0; fclose(f); return (double)(b) * 4096.0; }
static void crashHandler(int sig) { SH->crashed++; SH->stop = 1; SH->active--; _exit(70 + sig % 20); }
static void runLoop() {
    uint64_t n = 0;
    while (!stack_.empty()) {
        { double z = SH->stopAt.load(); if (z != 0 && now() > z) SH->stop = 1; }
        if ((n & 63) == 0 && rssBytes() > gMemLimit) { R.incomplete["memory-limit"] += stack_.size(); SH->stop = 1; break; }
        if (SH->stop.load()) { R.incomplete["stopped"] += stack_.size(); break; }
        if (now() - gStart > optTime) { R.incomplete["time-limit"] += stack_.size(); SH->stop = 1; break; }
        State* s = stack_.back(); stack_.pop_back();
        runState(s); delete s;
        if ((++n & 3) == 0 || stack_.size() > 8) maybeSplit();
    }
}

static void runState(State* sp) {
    State& s = *sp;
    vector<Val> args; Val ret[16];
    uint64_t localCheck = 0;
    for (;;) {
        if ((++localCheck & 0xFFFF) == 0) { if (now() - gStart > optTime || SH->stop.load()) { R.incomplete["time-limit"]++; R.paths++; return; } }
        Thread& t = s.th[s.cur]; Frame& f = t.st.back(); Inst& in = f.fi->code[f.pc];
        s.steps++; R.instrs++;
        if (s.steps > (s.stepLimit ? s.stepLimit : optSteps)) { if (s.stepLimit) { error(s, "no-termination", "more than " + std::to_string(s.stepLimit) + " instructions", s.pc.model); } else incomplete(s, "step-limit"); R.paths++; return; }
        s.skipNow = s.skipSched; s.skipSched = false;
        gCurTid = s.cur;
        if (in.ev && s.th.size() > 1) {
            if (!t.evHold) { t.ev++; t.evHold = true; }
            if (in.op != I_CALL) {
                bool point = in.atomic;
                if (!s.skipNow && !s.noSched && !t.atomic && !point && optRaces && !t.locks && s.preempt < optPreempt && !f.fi->infra && (in.op == I_LOAD || in.op == I_STORE)) { Val a = opv(f, in.a); if (!a.e) { Obj* o = s.mem.find(a.c); if (o && o->kind != K_STACK && !o->ro) { if (o->tid != s.cur && !o->shared) { o = s.mem.writable(a.c); o->shared = true; } point = o->shared; } else if (o && o->kind == K_STACK && o->tid != s.cur) point = true; } }
                if (point && !s.skipNow && !s.noSched && !t.atomic) { int c0 = s.cur; if (!pickThread(s, true)) { R.paths++; return; } if (s.cur != c0) continue; s.skipSched = false; }
                s.th[s.cur].evHold = false;
            }
        }
        auto setD = [&](const Val& v) { f.regs[in.dst] = v; };
        switch (in.op) {
            case I_NOP: f.pc++; break;
            case I_BIN: {
                Val a = opv(f, in.a), b = opv(f, in.b); unsigned w = in.w;
                if (in.sub >= O_UDIV && in.sub <= O_SREM) {
                    simp(s, b);
                    if (b.e) { Expr* z = mkBin(O_EQ, b.e, mkConst(0, w)); if (!isC(z)) { Model m; bool cur = evalExpr(z, s.pc.model); if (cur) m = s.pc.model; Tri r = cur ? YES : feasible(s.pc, z, &m); if (r == YES) { error(s, "div-by-zero", "", m); Model m2; if (feasible(s.pc, mkNot(z), &m2) != YES) { R.paths++; return; } assume(s, mkNot(z), &m2); } } }
                    else if (!b.c) { error(s, "div-by-zero", "", s.pc.model); R.paths++; return; }
                }
                if (!a.e && !b.e) setD(C(foldBin((Op)in.sub, a.c, b.c, w))); else { simp(s, a); simp(s, b); setD(V(mkBin((Op)in.sub, E(a, w), E(b, w)))); }
                f.pc++; break;
            }
            case I_ICMP: {
                Val a = opv(f, in.a), b = opv(f, in.b); unsigned w = in.w; Op o = O_EQ; bool neg = false, sw = false;
                switch (in.sub) { case CmpInst::ICMP_EQ: o = O_EQ; break; case CmpInst::ICMP_NE: o = O_EQ; neg = true; break; case CmpInst::ICMP_ULT: o = O_ULT; break; case CmpInst::ICMP_ULE: o = O_ULE; break; case CmpInst::ICMP_UGT: o = O_ULT; sw = true; break; case CmpInst::ICMP_UGE: o = O_ULE; sw = true; break; case CmpInst::ICMP_SLT: o = O_SLT; break; case CmpInst::ICMP_SLE: o = O_SLE; break; case CmpInst::ICMP_SGT: o = O_SLT; sw = true; break; case CmpInst::ICMP_SGE: o = O_SLE; sw = true; break; }
                if (sw) std::swap(a, b);
                if (!a.e && !b.e) setD(C(foldBin(o, a.c, b.c, w) ^ neg)); else { Expr* r = mkBin(o, E(a, w), E(b, w)); if (neg) r = mkNot(r); setD(V(r)); }
                f.pc++; break;
            }
            case I_SELECT: {
                Val c = opv(f, in.a); simp(s, c);
                for (uint32_t k = 0; k < in.n; k++) { Val x = in.b >= 0 ? f.regs[in.b + k] : f.fi->consts[~in.b + k], y = in.c >= 0 ? f.regs[in.c + k] : f.fi->consts[~in.c + k]; f.regs[in.dst + k] = !c.e ? (c.c ? x : y) : V(mkIte(c.e, E(x, in.parts[k].second), E(y, in.parts[k].second))); }
                f.pc++; break;
            }
            case I_ZEXT: { Val a = opv(f, in.a); setD(a.e ? V(mkExt(O_ZEXT, a.e, in.w)) : a); f.pc++; break; }
            case I_SEXT: { Val a = opv(f, in.a); setD(a.e ? V(mkExt(O_SEXT, a.e, in.w)) : C((uint64_t)sextw(a.c, in.w2) & maskw(in.w))); f.pc++; break; }
            case I_TRUNC: { Val a = opv(f, in.a); setD(a.e ? V(mkExtract(a.e, 0, in.w)) : C(a.c & maskw(in.w))); f.pc++; break; }
            case I_COPY: for (uint32_t k = 0; k < in.n; k++) f.regs[in.dst + k] = in.a >= 0 ? f.regs[in.a + k] : f.fi->consts[~in.a + k]; f.pc++; break;
            case I_LOAD: {
                Val a = opv(f, in.a); bool ok = true;
                for (size_t k = 0; k < in.parts.size(); k++) { Val ad = in.parts[k].first ? (a.e ? V(mkBin(O_ADD, a.e, mkConst(in.parts[k].first, 64))) : C(a.c + in.parts[k].first)) : a; Val o; HRet h = load(s, ad, in.parts[k].second, o); if (h != H_OK) { ok = false; break; } f.regs[in.dst + k] = o; }
                if (!ok) { R.paths++; return; }
                f.pc++; break;
            }
            case I_STORE: {
                Val a = opv(f, in.a); bool ok = true;
                for (size_t k = 0; k < in.parts.size(); k++) { Val ad = in.parts[k].first ? (a.e ? V(mkBin(O_ADD, a.e, mkConst(in.parts[k].first, 64))) : C(a.c + in.parts[k].first)) : a; Val v = in.b >= 0 ? f.regs[in.b + k] : f.fi->consts[~in.b + k]; HRet h = store(s, ad, in.parts[k].second, v); if (h != H_OK) { ok = false; break; } }
                if (!ok) { R.paths++; return; }
                f.pc++; break;
            }
            case I_GEP: {
                Val a = opv(f, in.a);
                if (!a.e) { uint64_t r = a.c + in.imm; Expr* se = nullptr; for (size_t k = 0; k < in.geps.size(); k++) { Val x = opv(f, in.geps[k].first); simp(s, x); if (!x.e) r += (uint64_t)sextw(x.c, in.gw[k]) * in.geps[k].second; else { Expr* y = mkBin(O_MUL, mkExt(O_SEXT, x.e, 64), mkConst(in.geps[k].second, 64)); se = se ? mkBin(O_ADD, se, y) : y; } }
                    setD(se ? V(mkBin(O_ADD, se, mkConst(r, 64))) : C(r)); }
                else { Expr* r = mkBin(O_ADD, a.e, mkConst(in.imm, 64)); for (size_t k = 0; k < in.geps.size(); k++) { Val x = opv(f, in.geps[k].first); r = mkBin(O_ADD, r, mkBin(O_MUL, mkExt(O_SEXT, E(x, in.gw[k]), 64), mkConst(in.geps[k].second, 64))); } setD(V(r)); }
                f.pc++; break;
            }
            case I_ALLOCA: { uint64_t n = conc(s, opv(f, in.a), "alloca") * in.imm; uint64_t a = s.mem.alloc(n, K_STACK, false, in.I); f.allocas.push_back(a); setD(C(a)); f.pc++; break; }
            case I_BR: takeEdge(f, in.edges[0]); break;
            case I_CONDBR: {
                Val c = opv(f, in.a);
                if (!c.e) { takeEdge(f, in.edges[c.c ? 0 : 1]); break; }
                int r = fork2(s, c.e); takeEdge(s.th[s.cur].st.back(), in.edges[r ? 0 : 1]); break;
            }
            case I_SWITCH: {
                Val c = opv(f, in.a); simp(s, c);
                int e = 0;
                if (!c.e) { for (auto& p : in.cases) if (p.first == c.c) { e = p.second; break; } }
                else {
                    // group by target: decide which edge, forking over targets
                    std::map<int, Expr*> byPc; Expr* any = mkConst(0, 1);
                    vector<std::pair<Expr*, int>> conds;
                    for (auto& p : in.cases) { Expr* q = mkBin(O_EQ, c.e, mkConst(p.first, in.w)); any = mkBin(O_OR, any, q); bool merged = false; for (auto& cd : conds) if (in.edges[cd.second].pc == in.edges[p.second].pc && in.edges[p.second].phis.empty()) { cd.first = mkBin(O_OR, cd.first, q); merged = true; break; } if (!merged) conds.push_back({q, p.second}); }
                    e = -1;
                    uint64_t cv = evalExpr(c.e, s.pc.model); (void)cv;
                    for (auto& cd : conds) if (evalExpr(cd.first, s.pc.model)) { fork2(s, cd.first); e = cd.second; break; }
                    if (e < 0) { fork2(s, mkNot(any)); e = 0; }
                }
                takeEdge(s.th[s.cur].st.back(), in.edges[e]); break;
            }
            case I_RET: {
                Val rv[16]; for (uint32_t k = 0; k < in.n && k < 16; k++) rv[k] = in.a >= 0 ? f.regs[in.a + k] : f.fi->consts[~in.a + k];
                uint32_t n = in.n; popFrame(s, t);
                if (t.st.empty()) {
                    t.status = 2; t.ev++;
                    if (s.cur == 0) { R.paths++; R.completed++; if (s.obligations.size()) {} return; }
                    // wake joiners
                    for (auto& o : s.th) if (o.status == 1 && o.waitAddr == (0x7000000000000000ull | (uint64_t)s.cur)) o.status = 0;
                    if (!pickThread(s, false)) { R.paths++; return; }
                    break;
                }
                Frame& p = t.st.back(); Inst& ci = p.fi->code[p.pc];
                if (ci.dst >= 0) for (uint32_t k = 0; k < n; k++) p.regs[ci.dst + k] = rv[k];
                if (ci.edges.size()) takeEdge(p, ci.edges[0]); else p.pc++;
                break;
            }
            case I_CALL: case I_INTRIN: {
                args.clear(); for (auto& a : in.args) for (int k = 0; k < a.n; k++) args.push_back(a.op >= 0 ? f.regs[a.op + k] : f.fi->consts[~a.op + k]);
                HRet h = H_OK;
                if (in.op == I_INTRIN) h = intrinsic(s, f, in, args, ret);
                else {
                    Function* cf = in.callee;
                    if (!cf) { Val p = opv(f, in.a); simp(s, p); if (p.e) { if (p.e->op == O_ITE) fork2(s, p.e->a); } uint64_t a = p.e ? concretize(s, p) : p.c; uint64_t idx = (a - ((FUNCSLOT << 32) + BASEOFF)) / 16; if ((a >> 32) != FUNCSLOT || idx >= funcByIdx.size()) { error(s, "bad-call", "call through invalid function pointer", s.pc.model); R.paths++; return; } cf = funcByIdx[idx]->f; }
                    Handler* hd = nullptr;
                    if (in.callee && in.handler) hd = in.handler;
                    else if (in.callee && in.target) {}
                    else { auto it = handlers.find(cf->getName().str()); if (it != handlers.end()) hd = &it->second; if (in.callee) { if (hd) in.handler = hd; else in.target = getFI(cf); } }
                    if (hd) h = (HRet)(*hd)(s, in, args, ret);
                    else {
                        if (cf->isDeclaration()) { incomplete(s, "unmodelled:" + fname(cf)); R.paths++; return; }
                        FuncInfo* fi = in.callee ? in.target : getFI(cf);
                        if (optTraceCalls) fprintf(stderr, "%*s%s\n", (int)t.st.size(), "", fname(cf).substr(0, 100).c_str());
                        if (!pushFrame(s, t, fi, args, &in.args)) { R.paths++; return; }
                        break;
                    }
                }
                if (h == H_KILL) { R.paths++; return; }
                if (h == H_REDO || h == H_JUMPED) break;
                if (in.ev) s.th[s.cur].evHold = false;
                Frame& p = s.th[s.cur].st.back();
                if (in.dst >= 0) for (uint32_t k = 0; k < in.n; k++) p.regs[in.dst + k] = ret[k];
                if (in.edges.size()) takeEdge(p, in.edges[0]); else p.pc++;
                break;
            }
            case I_UNREACHABLE: error(s, "unreachable", "llvm unreachable executed", s.pc.model); R.paths++; return;
            case I_EXTRACTV: for (uint32_t k = 0; k < in.n; k++) f.regs[in.dst + k] = in.a >= 0 ? f.regs[in.a + in.imm + k] : f.fi->consts[~in.a + in.imm + k]; f.pc++; break;
            case I_INSERTV: {
                for (uint32_t k = 0; k < in.n; k++) f.regs[in.dst + k] = in.a >= 0 ? f.regs[in.a + k] : f.fi->consts[~in.a + k];
                for (int k = 0; k < in.c; k++) f.regs[in.dst + in.imm + k] = in.b >= 0 ? f.regs[in.b + k] : f.fi->consts[~in.b + k];
                f.pc++; break;
            }
            case I_LANDINGPAD: incomplete(s, "landingpad-fallthrough"); R.paths++; return;
            case I_RESUME: { uint64_t ex = opv(f, in.a).c; popFrame(s, t); if (t.st.empty()) { error(s, "uncaught-exception", "resume", s.pc.model); R.paths++; return; } HRet h = unwind(s, ex); if (h == H_KILL) { R.paths++; return; } break; }
            case I_ATOMICRMW: {
                Val p = opv(f, in.a), v = opv(f, in.b), o; unsigned w = in.w;
                HRet h = load(s, p, w, o); if (h != H_OK) { R.paths++; return; }
                Expr *x = E(o, w), *y = E(v, w), *r = nullptr;
                switch (in.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(O_ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(O_SUB, x, y); break; case AtomicRMWInst::And: r = mkBin(O_AND, x, y); break; case AtomicRMWInst::Or: r = mkBin(O_OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(O_XOR, x, y); break; case AtomicRMWInst::Max: r = mkIte(mkBin(O_SLT, x, y), y, x); break; case AtomicRMWInst::Min: r = mkIte(mkBin(O_SLT, x, y), x, y); break; case AtomicRMWInst::UMax: r = mkIte(mkBin(O_ULT, x, y), y, x); break; case AtomicRMWInst::UMin: r = mkIte(mkBin(O_ULT, x, y), x, y); break; default: incomplete(s, "atomicrmw"); R.paths++; return; }
                if (store(s, p, w, V(r)) != H_OK) { R.paths++; return; }
                setD(o); f.pc++; break;
            }
            case I_CMPXCHG: {
                Val p = opv(f, in.a), cmp = opv(f, in.b), nv = opv(f, in.c), o; unsigned w = in.w;
                if (load(s, p, w, o) != H_OK) { R.paths++; return; }
                Expr* eq = mkBin(O_EQ, E(o, w), E(cmp, w)); bool r = fork2(s, eq);
                if (r && store(s, p, w, nv) != H_OK) { R.paths++; return; }
                Frame& g = s.th[s.cur].st.back(); g.regs[in.dst] = o; g.regs[in.dst + 1] = C(r); g.pc++; break;
            }
            case I_FBIN: {
                uint64_t a = conc(s, opv(f, in.a), "fp"), b = conc(s, opv(f, in.b), "fp"), r;
                if (in.w == 64) { double x = asD(a), y = asD(b), z; switch (in.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); } r = fromD(z); }
                else { float x = asF(a), y = asF(b), z; switch (in.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodf(x, y); } r = fromF(z); }
                s.th[s.cur].st.back().regs[in.dst] = C(r); s.th[s.cur].st.back().pc++; break;
            }
            case I_FNEG: { uint64_t a = conc(s, opv(f, in.a), "fp"); setD(C(in.w == 64 ? a ^ (1ull << 63) : a ^ (1ull << 31))); f.pc++; break; }
            case I_FCMP: {
                uint64_t a = conc(s, opv(f, in.a), "fp"), b = conc(s, opv(f, in.b), "fp"); double x = in.w == 64 ? asD(a) : asF(a), y = in.w == 64 ? asD(b) : asF(b); bool un = std::isnan(x) || std::isnan(y), r = false;
                switch (in.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
                setD(C(r)); f.pc++; break;
            }
            case I_FPCAST: {
                uint64_t a = conc(s, opv(f, in.a), "fp"), r = 0;
                switch (in.sub) {
                    case Instruction::FPToSI: { double d = in.w2 == 64 ? asD(a) : asF(a); r = (uint64_t)(int64_t)d & maskw(in.w); break; }
                    case Instruction::FPToUI: { double d = in.w2 == 64 ? asD(a) : asF(a); r = (uint64_t)d & maskw(in.w); break; }
                    case Instruction::SIToFP: { int64_t x = sextw(a, in.w2); r = in.w == 64 ? fromD((double)x) : fromF((float)x); break; }
                    case Instruction::UIToFP: r = in.w == 64 ? fromD((double)a) : fromF((float)a); break;
                    case Instruction::FPExt: r = fromD(asF(a)); break;
                    case Instruction::FPTrunc: r = fromF((float)asD(a)); break;
                }
                setD(C(r)); f.pc++; break;
            }
            default: { string d; raw_string_ostream os(d); in.I->print(os); incomplete(s, "unsupported-inst:" + d.substr(0, 120)); R.paths++; return; }
        }
    }
}

// ---------- setup ----------
static void initGlobal(State& s, GlobalVariable& g, uint64_t addr) {
    if (!g.hasInitializer()) return;
    std::function<void(const Constant*, uint64_t)> put = [&](const Constant* c, uint64_t off) {
        Type* t = c->getType(); Obj* o = s.mem.writable(addr);
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); StringRef raw = cd->getRawDataValues(); (void)es; memcpy(o->b + off, raw.data(), raw.size()); return; }
        if (auto* st = dyn_cast<StructType>(t); st && isa<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < c->getNumOperands(); i++) put(cast<Constant>(c->getOperand(i)), off + sl->getElementOffset(i)); return; }
        if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { uint64_t es = DL->getTypeAllocSize(isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) put(cast<Constant>(c->getOperand(i)), off + i * es); return; }
        vector<Val> v; bool ok = true; constFlat(c, v, ok); vector<std::pair<uint32_t, uint8_t>> p; bool k = true; flatten(t, 0, p, k);
        if (!ok) { fprintf(stderr, "warning: constant initialiser of %s approximated\n", g.getName().str().c_str()); }
        for (size_t i = 0; i < p.size() && i < v.size(); i++) writeConc(o, off + p[i].first, p[i].second, v[i]);
    };
    put(g.getInitializer(), 0);
}
static void jsonEsc(string& o, const string& s) { for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else if (c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } }
static string jstr(const string& s) { string o = "\""; jsonEsc(o, s); return o + "\""; }
static void writeResults() {
    string o = "{";
    auto kv = [&](const char* k, double v) { char b[64]; snprintf(b, sizeof b, "\"%s\":%.17g,", k, v); o += b; };
    kv("paths", R.paths); kv("completed", R.completed); kv("pruned", R.pruned); kv("errors", R.errors); kv("instructions", R.instrs); kv("forks", R.forks); kv("concretizations", R.concretizations);
    kv("obligations", R.obligTotal); kv("obligations_folded", R.obligConst); kv("obligations_solver", R.obligSolver); kv("unknown", R.unknown); kv("sched_points", R.schedPoints);
    kv("queries", gSolver.queries); kv("q_model", gSolver.modelHits); kv("q_unary", gSolver.unary); kv("q_cache", gSolver.cacheHits); kv("q_enum", gSolver.enumerated); kv("q_z3", gSolver.z3); kv("z3_sat", gSolver.z3sat); kv("z3_unsat", gSolver.z3unsat); kv("z3_unknown", gSolver.z3unknown); kv("z3_time", gSolver.z3time); kv("z3_max", gSolver.z3max);
    auto mp = [&](const char* k, std::map<string, uint64_t>& m) { o += string("\"") + k + "\":{"; bool first = true; for (auto& p : m) { if (!first) o += ","; first = false; o += jstr(p.first) + ":" + std::to_string(p.second); } o += "},"; };
    mp("incomplete", R.incomplete); mp("reach", R.reach); mp("obligation_labels", R.obligs);
    o += "\"functions\":["; bool first = true; for (auto& f : R.funcs) { if (!first) o += ","; first = false; o += jstr(f); } o += "],\"violations\":["; first = true;
    for (auto& p : R.viol) { auto& v = p.second; if (!first) o += ","; first = false; o += "{\"label\":" + jstr(v.label) + ",\"kind\":" + jstr(v.kind) + ",\"detail\":" + jstr(v.detail) + ",\"trace\":" + jstr(v.trace) + ",\"sched\":" + jstr(v.sched) + ",\"inputs\":["; bool f2 = true; for (auto& i : v.inputs) { if (!f2) o += ","; f2 = false; o += "[" + jstr(i.first) + "," + jstr(i.second) + "]"; } o += "]}"; }
    o += "],\"witness\":{"; first = true; for (auto& w : R.witness) { if (!first) o += ","; first = false; o += jstr(w.first) + ":["; bool f2 = true; for (auto& i : w.second) { if (!f2) o += ","; f2 = false; o += "[" + jstr(i.first) + "," + jstr(i.second) + "]"; } o += "]"; }
    o += "},\"witness_sched\":{"; first = true; for (auto& w : R.witnessSched) { if (!first) o += ","; first = false; o += jstr(w.first) + ":" + jstr(w.second); }
    o += "}}\n";
    FILE* f = fopen((optOut + "/w" + gWorkerId + ".json").c_str(), "w"); if (f) { fputs(o.c_str(), f); fclose(f); }
}

// Prepares the module for native schedule replay: a call to vp_ev() before every event instruction, bodies of engine-handled functions dropped.
static void instrument() {
    FunctionCallee ev = M->getOrInsertFunction("vp_ev", Type::getVoidTy(Ctx));
    for (auto& f : *M) {
        if (f.isDeclaration()) continue;
        if (handlers.count(f.getName().str())) { f.deleteBody(); f.setLinkage(GlobalValue::ExternalLinkage); f.setComdat(nullptr); continue; }
        f.addFnAttr(Attribute::SanitizeAddress); f.removeFnAttr(Attribute::NoUnwind); f.setMemoryEffects(MemoryEffects::unknown());
        for (auto& b : f) for (auto& i : b) if (isa<LoadInst>(i) || isa<StoreInst>(i) || isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<FenceInst>(i)) CallInst::Create(ev, "", &i);
            else if (auto* c = dyn_cast<CallBase>(&i)) { auto* cf = c->getCalledFunction(); if (cf && cf->getName() == "__cxa_throw") c->setArgOperand(2, ConstantPointerNull::get(PointerType::get(Ctx, 0))); } // the executor does not run destructors of caught exceptions
    }
    std::error_code ec; raw_fd_ostream os(optInstrument, ec); WriteBitcodeToFile(*M, os);
}
static void* mainThread(void* p) {
    auto& av = *(vector<string>*)p;
    string file, entry = "vp_main";
    for (size_t i = 1; i < av.size(); i++) {
        string a = av[i]; auto nx = [&] { return av.at(++i); };
        if (a == "--out") optOut = nx(); else if (a == "--workers") optWorkers = stoi(nx()); else if (a == "--time") optTime = stod(nx()); else if (a == "--preempt") optPreempt = stoi(nx()); else if (a == "--steps") optSteps = stoull(nx()); else if (a == "-v") optVerbose = true; else if (a == "--trace") optTraceCalls = true; else if (a == "--repo") gRepoPrefix = nx(); else if (a == "--z3timeout") gZ3TimeoutMs = stoi(nx()); else if (a == "--entry") entry = nx(); else if (a == "--nosplit") gNoSplit = true; else if (a == "--param") { string v = nx(); size_t q = v.find('='); gParams[v.substr(0, q)] = stoull(v.substr(q + 1)); } else if (a == "--known") gKnownLabels.insert(nx()); else if (a == "--keep-going") gStopOnViol = false; else if (a == "--races") optRaces = true; else if (a == "--instrument") optInstrument = nx(); else if (a == "--mem") gMemLimit = stod(nx()); else file = a;
    }
    SMDiagnostic err; M = parseIRFile(file, err, Ctx); if (!M) { err.print("symex", errs()); exit(3); }
    DL = &M->getDataLayout();
    // Address thread-local variables through the intrinsic everywhere, so that each thread gets its own copy.
    for (auto& g : M->globals()) if (g.isThreadLocal()) {
        convertUsersOfConstantsToInstructions({&g}); vector<Use*> us; for (auto& u : g.uses()) us.push_back(&u);
        Function* tla = Intrinsic::getDeclaration(M.get(), Intrinsic::threadlocal_address, {g.getType()});
        for (Use* u : us) { auto* I = dyn_cast<Instruction>(u->getUser()); if (!I) continue; if (auto* cb = dyn_cast<CallBase>(I)) if (cb->getIntrinsicID() == Intrinsic::threadlocal_address) continue; Instruction* at = I; if (auto* ph = dyn_cast<PHINode>(I)) at = ph->getIncomingBlock(*u)->getTerminator(); auto* c = CallInst::Create(tla, {&g}, "", at); c->setDebugLoc(at->getDebugLoc()); u->set(c); }
    }
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->slots = optWorkers - 1; SH->active = 1; SH->stop = 0; SH->started = 1; SH->crashed = 0; SH->stopAt = 0;
    for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crashHandler; sa.sa_flags = SA_ONSTACK; sigaction(sg, &sa, nullptr); }
    { static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr); }
    State* s = new State();
    { uint64_t i = 0; for (auto& f : *M) { FuncInfo* fi = getFI(&f); funcByIdx.push_back(fi); gAddr[&f] = f.isDeclaration() && f.hasExternalWeakLinkage() && !handlers.count(f.getName().str()) ? 0 : (FUNCSLOT << 32) + BASEOFF + 16 * i; i++; } }
    for (auto& g : M->globals()) { if (g.isThreadLocal()) {} uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64; if (!g.hasInitializer() && sz < 256) sz = 256; uint64_t a = s->mem.alloc(sz, K_GLOBAL, true, nullptr); Obj* o = s->mem.writable(a); o->name = strdup(g.getName().str().c_str()); if (!g.hasInitializer()) o->kind = K_EXT; gAddr[&g] = a; }
    for (auto& g : M->globals()) if (!g.getName().starts_with("llvm.")) initGlobal(*s, g, gAddr[&g]);
    for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer()) s->mem.writable(gAddr[&g])->ro = true;
    registerHandlers();
    if (optInstrument.size()) { instrument(); exit(0); }
    Function* mainF = M->getFunction(entry); if (!mainF) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
    // static constructors run first, in order, as a synthetic frame sequence
    vector<std::pair<int, Function*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), f}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    // build driver function: calls each ctor then entry
    Function* drv = Function::Create(FunctionType::get(Type::getVoidTy(Ctx), false), GlobalValue::InternalLinkage, "vp_driver", M.get());
    BasicBlock* bb = BasicBlock::Create(Ctx, "e", drv); for (auto& c : ctors) CallInst::Create(c.second->getFunctionType(), c.second, "", bb);
    CallInst::Create(mainF->getFunctionType(), mainF, vector<Value*>{}, "", bb); ReturnInst::Create(Ctx, bb);
    s->th.emplace_back(); vector<Val> none; pushFrame(*s, s->th[0], getFI(drv), none, nullptr);
    stack_.push_back(s);
    runLoop();
    writeResults();
    SH->slots++; SH->active--;
    if (gWorkerId == "0") { while (SH->active.load() > 0) { usleep(2000); while (waitpid(-1, nullptr, WNOHANG) > 0) {} if (now() - gStart > optTime + 90) break; }
        FILE* f = fopen((optOut + "/summary.json").c_str(), "w"); if (f) { fprintf(f, "{\"started\":%d,\"crashed\":%d,\"active\":%d,\"wall\":%.3f}\n", SH->started.load(), SH->crashed.load(), SH->active.load(), now() - gStart); fclose(f); } }
    else _exit(0);
    return nullptr;
}
int main(int argc, char** argv) {
    gStart = now(); vector<string> av(argv, argv + argc);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t t; pthread_create(&t, &at, mainThread, &av); pthread_join(t, nullptr);
    fflush(stdout); _exit(0);
}
