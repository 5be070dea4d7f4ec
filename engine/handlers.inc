static bool pickThread(State& s, bool curOk);
static uint64_t newHeap(State& s, uint64_t n, bool zero, const Instruction* site) { return s.mem.alloc(n, K_HEAP, zero, site); }
static string symName(State& s, const string& n) { int k = s.symCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static HRet doCheck(State& s, Val c, unsigned w, const string& label) {
    R.obligTotal++; R.obligs[label]++;
    simp(s, c);
    if (!c.e) { R.obligConst++; if (!(c.c & maskw(w))) { report(s, label, "assertion", "assertion does not hold", s.pc.model); return H_KILL; } return H_OK; }
    Expr* e = w == 1 ? c.e : mkNot(mkBin(O_EQ, c.e, mkConst(0, w)));
    if (isC(e)) { R.obligConst++; if (!e->c) { report(s, label, "assertion", "assertion does not hold", s.pc.model); return H_KILL; } return H_OK; }
    R.obligSolver++;
    Model m; Tri r = feasible(s.pc, mkNot(e), &m, true);
    if (r == UNKNOWN) { R.unknown++; incomplete(s, "solver-unknown-on-obligation"); return H_OK; }
    if (r == YES) { report(s, label, "assertion", "assertion can be false", m); Model m2; if (feasible(s.pc, e, &m2) != YES) return H_KILL; assume(s, e, &m2); return H_OK; }
    return H_OK;
}
static int64_t subtypeOffset(State& s, uint64_t from, uint64_t to, bool& ok, uint64_t obj) { int64_t off = 0; ok = isBase(s, from, to, off, obj); return off; }

static void registerHandlers() {
    auto& H = handlers;
    auto str = [](State& s, Val v) { simp(s, v); return readCStr(s, v.e ? conc(s, v, "label") : v.c); };
    H["vp_sym"] = [=](State& s, Inst& in, vector<Val>& a, Val*) -> int {
        uint64_t n = conc(s, a[1], "n"); string nm = symName(s, str(s, a[2])); uint64_t b; uint32_t o; if (!n) { s.inputs.push_back({nm, {}}); return H_OK; } HRet h = region(s, a[0], n, b, o, true); if (h) return h;
        Obj* ob = s.mem.writable(b); ob->sym(); InputRec rec; rec.name = nm;
        for (uint64_t i = 0; i < n; i++) { Expr* e = mkSym(nm + "[" + std::to_string(i) + "]", 8); ob->s[o + i] = e; rec.bytes.push_back(e); }
        s.inputs.push_back(rec); return H_OK; };
    H["vp_u64"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { string nm = symName(s, str(s, a[0])); Expr* e = mkSym(nm, 64); s.inputs.push_back({nm, {e}}); r[0] = V(e); return H_OK; };
    H["vp_range"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int {
        string nm = symName(s, str(s, a[0])); uint64_t lo = conc(s, a[1], ""), hi = conc(s, a[2], ""); 
        if (lo == hi) { s.inputs.push_back({nm, {mkConst(lo, 64)}}); r[0] = C(lo); return H_OK; }
        uint64_t span = hi - lo; unsigned w = span < 256 ? 8 : span < 65536 ? 16 : span <= 0xFFFFFFFFull ? 32 : 64;
        Expr* e = mkSym(nm + "~" + std::to_string(w), w); Expr* full = mkBin(O_ADD, mkExt(O_ZEXT, e, 64), mkConst(lo, 64));
        if (span != maskw(w)) { Model m = s.pc.model; m.set(e->c, 0); addConstraint(s.pc, mkBin(O_ULE, e, mkConst(span, w)), &m); }
        s.inputs.push_back({nm, {full}}); r[0] = V(full); return H_OK; };
    H["vp_assume"] = [=](State& s, Inst& in, vector<Val>& a, Val*) -> int {
        Val c = a[0]; simp(s, c); unsigned w = in.args[0].w; if (!c.e) { if (!(c.c & maskw(w))) { R.pruned++; return H_KILL; } return H_OK; }
        Expr* e = mkNot(mkBin(O_EQ, c.e, mkConst(0, w))); Model m; Tri t = feasible(s.pc, e, &m); if (t == UNKNOWN) { incomplete(s, "solver-unknown"); return H_KILL; } if (t == NO) { R.pruned++; return H_KILL; } assume(s, e, &m); return H_OK; };
    H["vp_check"] = [=](State& s, Inst& in, vector<Val>& a, Val*) -> int { return doCheck(s, a[0], in.args[0].w, str(s, a[1])); };
    H["vp_fail"] = [=](State& s, Inst& in, vector<Val>& a, Val*) -> int { return doCheck(s, C(0), 32, str(s, a[0])); };
    H["vp_reach"] = [=](State& s, Inst& in, vector<Val>& a, Val*) -> int { string l = str(s, a[0]); if (!R.reach[l]++) { R.witness[l] = concreteInputs(s, s.pc.model); R.witnessSched[l] = s.schedTrace; } return H_OK; };
    H["vp_conc"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { r[0] = C(conc(s, a[0], "vp")); return H_OK; };
    H["vp_is_symbolic"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { Val v = a[0]; simp(s, v); r[0] = C(v.e ? 1 : 0); return H_OK; };
    H["vp_param"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { string n = str(s, a[0]); auto it = gParams.find(n); if (it == gParams.end()) { fprintf(stderr, "symex: missing --param %s\n", n.c_str()); incomplete(s, "missing-param-" + n); return H_KILL; } r[0] = C(it->second); return H_OK; };
    H["vp_native"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { r[0] = C(0); return H_OK; };
    H["vp_steps"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { s.stepLimit = a[0].c ? s.steps + a[0].c : 0; return H_OK; };
    H["vp_stop"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { R.paths++; R.completed++; R.paths--; return H_KILL; };
    H["vp_print"] = [=](State& s, Inst&, vector<Val>& a, Val*) -> int { if (optVerbose) { Val v = a[1]; simp(s, v); fprintf(stderr, "[print] %s %s\n", str(s, a[0]).c_str(), v.e ? exprStr(v.e, 5).c_str() : std::to_string((int64_t)v.c).c_str()); } return H_OK; };
    H["vp_prints"] = [=](State& s, Inst&, vector<Val>& a, Val*) -> int { if (optVerbose) { fprintf(stderr, "[print] %s %s\n", str(s, a[0]).c_str(), str(s, a[1]).c_str()); } return H_OK; };
    H["vp_atomic"] = [=](State& s, Inst&, vector<Val>& a, Val*) -> int { s.th[s.cur].atomic += (int)(int64_t)(int32_t)a[0].c; return H_OK; };
    H["vp_nosched"] = [=](State& s, Inst&, vector<Val>& a, Val*) -> int { s.noSched = a[0].c; return H_OK; };
    // memory
    auto mal = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { uint64_t n = conc(s, a[0], "malloc"); if (n > (64u << 20)) { r[0] = C(0); return H_OK; } r[0] = C(newHeap(s, n, false, in.I)); return H_OK; };
    H["malloc"] = mal; H["vp_malloc"] = mal;
    H["calloc"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { uint64_t n = conc(s, a[0], "") , m = conc(s, a[1], ""); if (n * m > (64u << 20)) { r[0] = C(0); return H_OK; } r[0] = C(newHeap(s, n * m, true, in.I)); return H_OK; };
    auto fr = [=](State& s, Inst& in, vector<Val>& a, Val*) -> int { uint64_t p = conc(s, a[0], ""); if (!p) return H_OK; Obj* o = s.mem.find(p); if (!o || p != s.mem.baseOf(p) || o->kind != K_HEAP) { error(s, !o ? "double-free" : "bad-free", "free of invalid pointer", s.pc.model); return H_KILL; } s.mem.dealloc(p); return H_OK; };
    H["free"] = fr; H["vp_free"] = fr;
    H["realloc"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { uint64_t p = conc(s, a[0], ""), n = conc(s, a[1], ""); if (n > (64u << 20)) { r[0] = C(0); return H_OK; } uint64_t q = newHeap(s, n, false, in.I); if (p) { Obj* o = s.mem.find(p); if (!o) { error(s, "double-free", "realloc", s.pc.model); return H_KILL; } uint64_t k = std::min<uint64_t>(o->size, n); copyMem(s, C(q), C(p), k); s.mem.dealloc(p); } r[0] = C(q); return H_OK; };
    auto mcpy = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { uint64_t n = conc(s, a[2], ""); HRet h = copyMem(s, a[0], a[1], n); r[0] = a[0]; return h; };
    H["memcpy"] = mcpy; H["memmove"] = mcpy;
    H["memset"] = [=](State& s, Inst&, vector<Val>& a, Val* r) -> int { uint64_t n = conc(s, a[2], ""); HRet h = doMemset(s, a[0], a[1], n); r[0] = a[0]; return h; };
    auto mcmp = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int {
        uint64_t n = conc(s, a[2], ""); vector<Expr*> x, y; HRet h; if ((h = readBytes(s, a[0], n, x))) return h; if ((h = readBytes(s, a[1], n, y))) return h;
        Expr* res = mkConst(0, 32);
        for (int64_t i = (int64_t)n - 1; i >= 0; i--) { if (x[i] == y[i]) continue; Val u = V(x[i]), v = V(y[i]); simp(s, u); simp(s, v); Expr *p = E(u, 8), *q = E(v, 8); res = mkIte(mkBin(O_EQ, p, q), res, mkIte(mkBin(O_ULT, p, q), mkConst(~0u, 32), mkConst(1, 32))); }
        r[0] = V(res); return H_OK; };
    H["memcmp"] = mcmp; H["bcmp"] = mcmp;
    H["strlen"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int {
        uint64_t p = conc(s, a[0], ""); for (uint64_t i = 0;; i++) { Val v; HRet h = load(s, C(p + i), 8, v); if (h) return h; if (!v.e) { if (!v.c) { r[0] = C(i); return H_OK; } continue; } if (fork2(s, mkBin(O_EQ, v.e, mkConst(0, 8)))) { r[0] = C(i); return H_OK; } } };
    H["memchr"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int {
        uint64_t p = conc(s, a[0], ""), n = conc(s, a[2], ""); Val c = a[1]; simp(s, c); Expr* ce = mkExtract(E(c, 32), 0, 8);
        uint64_t b; uint32_t o; if (n) { HRet h = region(s, C(p), 1, b, o, false); if (h) return h; Obj* ob = s.mem.find(b);
        for (uint64_t i = 0; i < n; i++) { if (o + i >= ob->size) { error(s, "oob-read", "memchr", s.pc.model); return H_KILL; } Expr* e = mkBin(O_EQ, ob->s && ob->s[o + i] ? ob->s[o + i] : mkConst(ob->b[o + i], 8), ce); if (isC(e) ? e->c : fork2(s, e)) { r[0] = C(p + i); return H_OK; } ob = s.mem.find(b); } }
        r[0] = C(0); return H_OK; };
    // exceptions
    H["__cxa_allocate_exception"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { r[0] = C(newHeap(s, conc(s, a[0], ""), true, in.I)); return H_OK; };
    H["__cxa_free_exception"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { s.mem.dealloc(a[0].c); return H_OK; };
    H["__cxa_throw"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { s.exc[a[0].c] = ExcRec{a[1].c, a[2].c, a[0].c}; s.th[s.cur].uncaught++; return unwind(s, a[0].c); };
    H["__cxa_begin_catch"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { auto it = s.exc.find(a[0].c); if (it == s.exc.end()) { incomplete(s, "begin_catch"); return H_KILL; } s.th[s.cur].caught.push_back(a[0].c); if (s.th[s.cur].uncaught > 0) s.th[s.cur].uncaught--; r[0] = C(it->second.adjusted); return H_OK; };
    H["__cxa_end_catch"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { auto& c = s.th[s.cur].caught; if (c.size()) c.pop_back(); return H_OK; };
    H["__cxa_rethrow"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { auto& c = s.th[s.cur].caught; if (c.empty()) { error(s, "abort", "rethrow without exception", s.pc.model); return H_KILL; } s.th[s.cur].uncaught++; return unwind(s, c.back()); };
    H["__cxa_get_exception_ptr"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { r[0] = C(s.exc[a[0].c].adjusted); return H_OK; };
    H["vp_uncaught"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { r[0] = C(s.th[s.cur].uncaught); return H_OK; };
    H["vp_caught_top"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { auto& c = s.th[s.cur].caught; r[0] = C(c.empty() ? 0 : c.back()); return H_OK; };
    H["vp_rethrow_obj"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { s.th[s.cur].uncaught++; return unwind(s, a[0].c); };
    H["__cxa_atexit"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { r[0] = C(0); return H_OK; };
    H["__cxa_thread_atexit"] = H["__cxa_atexit"]; H["atexit"] = H["__cxa_atexit"];
    H["vp_allow_abort"] = [=](State& s, Inst&, vector<Val>& a, Val*) -> int { s.kv[~7ull] = conc(s, a[0], ""); return H_OK; };
    auto die = [](const char* k) { return [k](State& s, Inst& in, vector<Val>& a, Val* r) -> int { if (s.kv.count(~7ull) && s.kv[~7ull]) { R.pruned++; return H_KILL; } error(s, "abort", k, s.pc.model); return H_KILL; }; };
    for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_bad_cast", "__assert_fail", "exit", "_exit", "quick_exit", "_Exit", "__cxa_deleted_virtual", "__cxa_call_unexpected", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) H[n] = die(n);
    H["__dynamic_cast"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int {
        uint64_t p = conc(s, a[0], ""), dst = a[2].c; if (!p) { r[0] = C(0); return H_OK; }
        Val vp; HRet h = load(s, C(p), 64, vp); if (h) return h; uint64_t vt = conc(s, vp, ""); int64_t top = (int64_t)rd64(s, vt - 16); uint64_t ti = rd64(s, vt - 8); uint64_t whole = p + top; bool ok; int64_t off = subtypeOffset(s, ti, dst, ok, whole); r[0] = C(ok ? whole + off : 0); return H_OK; };
    // threads
    H["vp_tid"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { r[0] = C(s.cur); return H_OK; };
    H["vp_thread_create"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int {
        uint64_t fa = a[0].c, idx = (fa - ((FUNCSLOT << 32) + BASEOFF)) / 16; if (idx >= funcByIdx.size()) { incomplete(s, "thread fn"); return H_KILL; }
        s.th.emplace_back(); R.maxThreads = std::max<uint64_t>(R.maxThreads, s.th.size()); vector<Val> ar{a[1]}; if (!pushFrame(s, s.th.back(), funcByIdx[idx], ar, nullptr)) return H_KILL; r[0] = C(s.th.size() - 1); return H_OK; };
    H["vp_sched"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { if (s.skipNow || s.th.size() == 1 || s.noSched || s.th[s.cur].atomic) return H_OK; int c0 = s.cur; if (!pickThread(s, true)) return H_KILL; if (s.cur == c0) { s.skipSched = false; return H_OK; } return H_REDO; };
    auto block = [=](int st) { return [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int {
        Thread& t = s.th[s.cur]; if (t.inCall) { t.inCall = false; r[0] = C(t.wakeTimeout ? 1 : 0); t.wakeTimeout = false; return H_OK; }
        t.inCall = true; t.wakeTimeout = false; t.status = st; t.waitAddr = a[0].c; if (!pickThread(s, false)) return H_KILL; return H_REDO; }; };
    H["vp_lock_delta"] = [=](State& s, Inst&, vector<Val>& a, Val*) -> int { s.th[s.cur].locks += (int)(int64_t)sextw(a[0].c, 32); return H_OK; };
    H["vp_block"] = block(1); H["vp_block_timed"] = block(3);
    H["vp_wake"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { uint64_t n = a[1].c; for (auto& t : s.th) if ((t.status == 1 || t.status == 3) && t.waitAddr == a[0].c && n) { t.status = 0; t.wakeTimeout = false; n--; } return H_OK; };
    H["vp_join"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { uint64_t id = conc(s, a[0], ""); if (id >= s.th.size()) { error(s, "abort", "join of unknown thread", s.pc.model); return H_KILL; } Thread& t = s.th[s.cur]; if (s.th[id].status == 2) { t.inCall = false; return H_OK; } t.status = 1; t.waitAddr = 0x7000000000000000ull | id; if (!pickThread(s, false)) return H_KILL; return H_REDO; };
    H["vp_thread_done"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { uint64_t id = conc(s, a[0], ""); r[0] = C(id < s.th.size() && s.th[id].status == 2); return H_OK; };
    // key/value side table (per state): used by runtime models
    H["vp_kv_get"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { auto it = s.kv.find(conc(s, a[0], "")); r[0] = C(it == s.kv.end() ? 0 : it->second); return H_OK; };
    H["vp_kv_set"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { s.kv[conc(s, a[0], "")] = conc(s, a[1], ""); return H_OK; };
    H["vp_dtoa"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { // (buf, cap, fmt, double bits)
        string f = str(s, a[2]); double d = asD(conc(s, a[3], "fp")); char buf[512]; int n = snprintf(buf, sizeof buf, f.c_str(), d); uint64_t cap = a[1].c; if ((uint64_t)n + 1 > cap) n = cap - 1; uint64_t b; uint32_t o; HRet h = region(s, a[0], n + 1, b, o, true); if (h) return h; Obj* w = s.mem.writable(b); for (int i = 0; i < n; i++) writeConc(w, o + i, 8, C((unsigned char)buf[i])); writeConc(w, o + n, 8, C(0)); r[0] = C(n); return H_OK; };
    H["vp_strtod"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { uint64_t p = conc(s, a[0], ""); string t; for (uint64_t i = 0; i < 64; i++) { Val v; HRet h = load(s, C(p + i), 8, v); if (h) return h; uint64_t c = conc(s, v, ""); if (!c) break; t += (char)c; } char* e; double d = strtod(t.c_str(), &e); if (a[1].c) { HRet h = store(s, a[1], 64, C(p + (e - t.c_str()))); if (h) return h; } r[0] = C(fromD(d)); return H_OK; };
    H["vp_math"] = [=](State& s, Inst& in, vector<Val>& a, Val* r) -> int { double x = asD(conc(s, a[1], "")), y = asD(conc(s, a[2], "")), z = 0; switch (a[0].c) { case 0: z = pow(x, y); break; case 1: z = log(x); break; case 2: z = sqrt(x); break; case 3: z = ceil(x); break; case 4: z = floor(x); break; case 5: z = round(x); break; case 6: z = fmod(x, y); break; case 7: z = exp(x); break; case 8: z = log10(x); break; case 9: z = log2(x); break; } r[0] = C(fromD(z)); return H_OK; };
}
