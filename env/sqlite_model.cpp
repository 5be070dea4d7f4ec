// A small SQL engine behind the sqlite3 C API: tables, snapshot-isolated concurrent transactions, authorizer, progress handler,
// statement expansion, application-defined functions, and injectable errors (vp_sqlite_fault). Stands in for SQLite itself,
// which is not part of the repository. Covers the SQL that Bedrock issues and simple user statements.
#include <libstuff/sqlite3.h>
#include <libstuff/qrf.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <cstring>
#include <cstdlib>
#include <cstdint>
using std::string; using std::vector; using std::map; using std::shared_ptr;
extern "C" { void vp_sched(); void vp_atomic(int); void vp_fail(const char*); void vp_print(const char*, int64_t); void vp_prints(const char*, const char*);
// Harness hook: return a non-zero SQLite (extended) error code to make this statement fail; add VP_AUTOROLLBACK to have SQLite roll the transaction back by itself.
__attribute__((weak)) int vp_sqlite_fault(sqlite3*, int where, const char* sql) { return 0; } }
extern "C" __attribute__((weak)) int vp_sqlite_progress() { return 1; } // does the progress handler get called during this statement?
struct Atomic { Atomic() { vp_atomic(1); } ~Atomic() { vp_atomic(-1); } }; // an SQLite call is one step for other threads
#define VP_AUTOROLLBACK (1 << 24)
uint64_t STimeNow();
namespace ms {
struct Val { int t = SQLITE_NULL; int64_t i = 0; double d = 0; string s; bool null() const { return t == SQLITE_NULL; } };
static Val vint(int64_t i) { Val v; v.t = SQLITE_INTEGER; v.i = i; return v; }
static Val vreal(double d) { Val v; v.t = SQLITE_FLOAT; v.d = d; return v; }
static Val vtext(string s) { Val v; v.t = SQLITE_TEXT; v.s = std::move(s); return v; }
enum { A_NONE, A_INT, A_TEXT, A_NUM };
struct Table { string name, sql, type = "table", tbl, op; vector<string> cols; vector<int> aff; vector<string> dflt; vector<bool> nn; vector<vector<int>> uniq; int pk = -1; vector<vector<Val>> rows; vector<int64_t> ids; int64_t nextId = 1; uint64_t ver = 0; };
typedef shared_ptr<Table> TP;
struct State { vector<TP> t; int64_t schema = 1; uint64_t schemaVer = 0; };
struct Db { string file; State cur; uint64_t seq = 0; };
static string low(const string& s) { string r = s; for (auto& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
static bool ieq(const string& a, const string& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) { char x = a[k], y = b[k]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; } return true; }
struct Fn { string name; int n; void (*f)(sqlite3_context*, int, sqlite3_value**); void* arg; };
// ---- tokens ----
struct Tok { char k; string s; size_t b, e; }; // k: i identifier, n number, s string, x blob, p parameter, o operator, 0 end
struct E { char op; Val v; string n, tab; vector<E*> a; struct Sel* sub = nullptr; bool ign = false, neg = false; int col = -1, src = -1; };
struct Src { string name, alias; Sel* sub = nullptr; E* on = nullptr; bool left = false; TP t; };
struct Sel { vector<E*> out; vector<string> as; vector<Src> from; E* where = nullptr; vector<E*> group; E* having = nullptr; vector<E*> ord; vector<char> desc; E* lim = nullptr; E* off = nullptr; bool distinct = false; Sel* next = nullptr; bool all = false; };
enum Kind { SELECT, INSERT, UPDATE, DELETE, CREATE, DROP, ALTER, PRAGMA, BEGIN, COMMIT, ROLLBACK, OTHER };
struct Stmt { Kind k = OTHER; string sql, table, name, arg, type; bool hasArg = false, ifne = false, unique = false; char conflict = 'a'; Sel* sel = nullptr; vector<string> cols; vector<vector<E*>> rows; vector<std::pair<string, E*>> sets; E* where = nullptr; E* lim = nullptr; Sel* ret = nullptr; vector<string> defs; };
static bool idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || (c & 0x80); }
struct Parser {
    const char* z; vector<Tok> t; size_t p = 0; string err; vector<E*>* arena; vector<Sel*>* sels; vector<string>* params;
    // Returns the length of the first statement (including its semicolon).
    size_t lex(const char* s, size_t n) {
        z = s; size_t i = 0;
        while (i < n && s[i]) {
            char c = s[i];
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f') { i++; continue; }
            if (c == '-' && s[i + 1] == '-') { while (i < n && s[i] && s[i] != '\n') i++; continue; }
            if (c == '/' && s[i + 1] == '*') { i += 2; while (i < n && s[i] && !(s[i] == '*' && s[i + 1] == '/')) i++; if (s[i]) i += 2; continue; }
            size_t b = i;
            if (c == ';') { i++; bool trig = t.size() > 2 && ieq(t[0].s, "create") && (ieq(t[1].s, "trigger") || ieq(t[2].s, "trigger")) && !ieq(t.back().s, "end"); if (trig) { t.push_back({'o', ";", b, i}); continue; } t.push_back({0, "", b, i}); return i; }
            if (c == '\'' || c == '"' || ((c == 'x' || c == 'X') && s[i + 1] == '\'')) {
                bool bl = c != '\'' && c != '"'; if (bl) { i++; c = '\''; } i++; string v;
                for (;;) { if (i >= n || !s[i]) { err = "unrecognized token"; return i; } if (s[i] == c) { if (s[i + 1] == c) { v += c; i += 2; continue; } i++; break; } v += s[i++]; }
                if (bl) { string h; for (size_t k = 0; k + 1 < v.size(); k += 2) { auto d = [](char x) { return x <= '9' ? x - '0' : (x | 32) - 'a' + 10; }; h += (char)(d(v[k]) * 16 + d(v[k + 1])); } v = h; }
                t.push_back({c == '"' ? 'i' : bl ? 'x' : 's', v, b, i}); continue; }
            if (c == '`') { i++; string v; while (i < n && s[i] && s[i] != '`') v += s[i++]; i++; t.push_back({'i', v, b, i}); continue; }
            if ((c >= '0' && c <= '9') || (c == '.' && s[i + 1] >= '0' && s[i + 1] <= '9')) { while (i < n && (idc(s[i]) || s[i] == '.')) i++; t.push_back({'n', string(s + b, i - b), b, i}); continue; }
            if (c == ':' || c == '@' || c == '$' || c == '?') { i++; while (i < n && idc(s[i])) i++; t.push_back({'p', string(s + b, i - b), b, i}); continue; }
            if (idc(c)) { while (i < n && idc(s[i])) i++; t.push_back({'i', string(s + b, i - b), b, i}); continue; }
            static const char* two[] = {"||", "<=", ">=", "<>", "!=", "==", "->"}; bool f = false;
            for (auto w : two) if (c == w[0] && s[i + 1] == w[1]) { i += 2; if (s[i - 1] == '>' && c == '-' && s[i] == '>') i++; t.push_back({'o', string(s + b, i - b), b, i}); f = true; break; }
            if (f) continue;
            if (!strchr("+-*/%<>=(),.&|~", c)) { err = "unrecognized token"; return i; }
            i++; t.push_back({'o', string(1, c), b, i});
        }
        t.push_back({0, "", i, i}); return i;
    }
    const Tok& cur() { return t[p]; }
    bool kw(const char* w) { const Tok& k = t[p]; if (k.k != 'i' || k.s.size() != strlen(w)) return false; for (size_t i = 0; i < k.s.size(); i++) if ((k.s[i] & ~32) != w[i]) return false; return true; }
    bool eat(const char* w) { if (kw(w)) { p++; return true; } return false; }
    bool op(const char* o) { return t[p].k == 'o' && t[p].s == o; }
    bool eato(const char* o) { if (op(o)) { p++; return true; } return false; }
    void fail() { if (err.empty()) err = "near \"" + t[p].s + "\": syntax error"; }
    void need(const char* o) { if (!eato(o)) fail(); }
    void needk(const char* w) { if (!eat(w)) fail(); }
    string ident() { if (t[p].k != 'i' && t[p].k != 's') { fail(); return ""; } string s = t[p++].s; if (eato(".")) { s = t[p].s; p++; } return s; }
    E* mk(char o) { E* e = new E; e->op = o; arena->push_back(e); return e; }
    E* bin(const char* o, E* a, E* b) { E* e = mk('b'); e->n = o; e->a = {a, b}; return e; }
    Sel* mksel() { Sel* s = new Sel; sels->push_back(s); return s; }
    bool reserved() { static const char* r[] = {"FROM", "WHERE", "ORDER", "LIMIT", "UNION", "GROUP", "HAVING", "ON", "JOIN", "INNER", "LEFT", "AS", "AND", "OR", "SET", "VALUES", "INDEXED", "NOT", "RETURNING", "CROSS", "OFFSET", "USING", "THEN", "ELSE", "END", "WHEN"}; for (auto x : r) if (kw(x)) return true; return false; }
    E* prim() {
        const Tok k = t[p]; E* e;
        if (!err.empty()) return mk('l');
        if (k.k == 'n') { p++; e = mk('l'); bool real = false; for (char c : k.s) if (c == '.' || c == 'e' || c == 'E') real = true; e->v = real ? vreal(strtod(k.s.c_str(), 0)) : vint(strtoll(k.s.c_str(), 0, 10)); return e; }
        if (k.k == 's') { p++; e = mk('l'); e->v = vtext(k.s); return e; }
        if (k.k == 'x') { p++; e = mk('l'); e->v = vtext(k.s); e->v.t = SQLITE_BLOB; return e; }
        if (k.k == 'p') { p++; e = mk('p'); if (k.s == "?") { e->col = params->size(); params->push_back(""); } else { size_t i = 0; for (; i < params->size(); i++) if ((*params)[i] == k.s) break; if (i == params->size()) params->push_back(k.s); e->col = i; } return e; }
        if (eato("(")) { if (kw("SELECT")) { e = mk('q'); e->sub = select(); } else { e = expr(); if (op(",")) { E* r = mk('r'); r->a.push_back(e); while (eato(",")) r->a.push_back(expr()); e = r; } } need(")"); return e; }
        if (eato("-")) { e = mk('-'); e->a = {prim()}; return e; }
        if (eato("+")) return prim();
        if (eato("*")) { e = mk('*'); return e; }
        if (k.k != 'i') { fail(); return mk('l'); }
        if (eat("NULL")) return mk('l');
        if (eat("CASE")) { e = mk('w'); E* base = kw("WHEN") ? nullptr : expr(); while (eat("WHEN")) { E* c = expr(); if (base) c = bin("=", base, c); needk("THEN"); e->a.push_back(c); e->a.push_back(expr()); } if (eat("ELSE")) e->a.push_back(expr()); needk("END"); return e; }
        if (eat("EXISTS")) { need("("); e = mk('e'); e->sub = select(); need(")"); return e; }
        if (eat("CAST")) { need("("); e = mk('f'); e->n = "cast"; e->a = {expr()}; needk("AS"); e->tab = low(ident()); while (t[p].k == 'i') p++; need(")"); return e; }
        if (kw("CURRENT_TIMESTAMP") || kw("CURRENT_DATE") || kw("CURRENT_TIME")) { e = mk('f'); e->n = low(t[p++].s); return e; }
        p++;
        if (eato("(")) { e = mk('f'); e->n = low(k.s); if (!op(")")) { if (eat("DISTINCT")) e->neg = true; do { e->a.push_back(expr()); } while (eato(",")); } need(")"); return e; }
        e = mk('c'); e->n = k.s;
        if (eato(".")) { e->tab = e->n; if (eato("*")) { e->op = '*'; return e; } e->n = t[p].s; if (t[p].k != 'i') fail(); p++; }
        return e;
    }
    E* mul() { E* l = concat(); while (op("*") || op("/") || op("%")) { string o = t[p++].s; l = bin(o.c_str(), l, concat()); } return l; }
    E* concat() { E* l = prim(); while (op("||") || op("->") || op("->>")) { string o = t[p++].s; l = bin(o.c_str(), l, prim()); } return l; }
    E* add() { E* l = mul(); while (op("+") || op("-")) { string o = t[p++].s; l = bin(o.c_str(), l, mul()); } return l; }
    E* rel() { E* l = add(); while (op("<") || op(">") || op("<=") || op(">=")) { string o = t[p++].s; l = bin(o.c_str(), l, add()); } return l; }
    E* eq() {
        E* l = rel();
        for (;;) {
            if (op("=") || op("==") || op("!=") || op("<>")) { string o = t[p++].s; l = bin(o == "=" || o == "==" ? "=" : "!=", l, rel()); continue; }
            if (eat("IS")) { bool n = eat("NOT"); l = bin(n ? "isnot" : "is", l, rel()); continue; }
            size_t sv = p; bool n = eat("NOT");
            if (n && eat("NULL")) { l = bin("isnot", l, mk('l')); continue; }
            if (eat("NOTNULL")) { l = bin("isnot", l, mk('l')); continue; }
            if (eat("ISNULL")) { l = bin("is", l, mk('l')); continue; }
            if (eat("IN")) { E* e = mk('i'); e->neg = n; e->a = {l}; need("("); if (kw("SELECT")) e->sub = select(); else if (!op(")")) do { e->a.push_back(expr()); } while (eato(",")); need(")"); l = e; continue; }
            if (eat("BETWEEN")) { E* e = mk('t'); e->neg = n; E* a = rel(); needk("AND"); e->a = {l, a, rel()}; l = e; continue; }
            if (eat("LIKE") || eat("GLOB")) { bool g = low(t[p - 1].s) == "glob"; E* e = mk('k'); e->neg = n; e->n = g ? "glob" : "like"; e->a = {l, rel()}; if (eat("ESCAPE")) prim(); l = e; continue; }
            p = sv; return l;
        }
    }
    E* no() { if (eat("NOT")) { E* e = mk('!'); e->a = {no()}; return e; } return eq(); }
    E* andx() { E* l = no(); while (err.empty() && eat("AND")) l = bin("and", l, no()); return l; }
    E* expr() { E* l = andx(); while (err.empty() && eat("OR")) l = bin("or", l, andx()); return l; }
    void source(Sel* s, bool left, E* on) {
        Src x; x.left = left; if (eato("(")) { x.sub = select(); need(")"); } else x.name = ident();
        if (eat("AS")) x.alias = ident(); else if (t[p].k == 'i' && !reserved()) x.alias = ident(); else x.alias = x.name;
        if (eat("INDEXED")) { needk("BY"); ident(); } if (kw("NOT")) { p++; needk("INDEXED"); }
        if (eat("ON")) x.on = expr(); s->from.push_back(x);
    }
    Sel* select() {
        Sel* s = mksel();
        if (eat("VALUES")) { need("("); do { s->out.push_back(expr()); s->as.push_back("column" + std::to_string(s->out.size())); } while (eato(",")); need(")"); return s; }
        needk("SELECT"); if (eat("DISTINCT")) s->distinct = true; else eat("ALL");
        do { size_t b = t[p].b; E* e = expr(); s->out.push_back(e); size_t en = p ? t[p - 1].e : b; if (eat("AS")) s->as.push_back(ident()); else if (t[p].k == 'i' && !reserved()) s->as.push_back(ident()); else s->as.push_back(e->op == 'c' ? e->n : string(z + b, en - b)); if (!err.empty()) return s; } while (eato(","));
        if (eat("FROM")) { source(s, false, 0); for (;;) { if (!err.empty()) return s; if (eato(",")) { source(s, false, 0); continue; } bool l = false, j = false; if (eat("LEFT")) { eat("OUTER"); l = j = true; } else if (eat("INNER") || eat("CROSS")) j = true; if (eat("JOIN")) { source(s, l, 0); continue; } if (j) fail(); break; } }
        if (eat("WHERE")) s->where = expr();
        if (eat("GROUP")) { needk("BY"); do { s->group.push_back(expr()); } while (eato(",")); if (eat("HAVING")) s->having = expr(); }
        if (eat("UNION")) { s->all = eat("ALL"); s->next = select(); Sel* l = s->next; s->ord = l->ord; s->desc = l->desc; s->lim = l->lim; s->off = l->off; l->ord.clear(); l->desc.clear(); l->lim = l->off = nullptr; return s; }
        if (eat("ORDER")) { needk("BY"); do { s->ord.push_back(expr()); bool d = eat("DESC"); if (!d) eat("ASC"); s->desc.push_back(d); } while (eato(",")); }
        if (eat("LIMIT")) { s->lim = expr(); if (eat("OFFSET")) s->off = expr(); }
        return s;
    }
    void parse(Stmt& st) {
        if (kw("SELECT") || kw("VALUES")) { st.k = SELECT; st.sel = select(); }
        else if (kw("INSERT") || kw("REPLACE")) { st.k = INSERT; if (eat("REPLACE")) st.conflict = 'r'; else { p++; if (eat("OR")) { if (eat("REPLACE")) st.conflict = 'r'; else if (eat("IGNORE")) st.conflict = 'i'; else p++; } }
            needk("INTO"); st.table = ident(); if (eato("(")) { do { st.cols.push_back(ident()); } while (eato(",")); need(")"); }
            if (kw("SELECT")) st.sel = select(); else { needk("VALUES"); do { need("("); vector<E*> r; do { r.push_back(expr()); } while (eato(",")); need(")"); st.rows.push_back(r); } while (eato(",")); }
            if (eat("ON")) { needk("CONFLICT"); if (eato("(")) { while (!eato(")")) p++; } needk("DO"); if (eat("NOTHING")) st.conflict = 'i'; else { needk("UPDATE"); needk("SET"); st.conflict = 'u'; sets(st); } }
            returning(st); }
        else if (eat("UPDATE")) { st.k = UPDATE; if (eat("OR")) { if (eat("IGNORE")) st.conflict = 'i'; else p++; } st.table = ident(); needk("SET"); sets(st); if (eat("WHERE")) st.where = expr(); returning(st); if (eat("LIMIT")) st.lim = expr(); }
        else if (eat("DELETE")) { st.k = DELETE; needk("FROM"); st.table = ident(); if (eat("WHERE")) st.where = expr(); returning(st); if (eat("LIMIT")) st.lim = expr(); }
        else if (eat("CREATE")) { st.k = CREATE; st.unique = eat("UNIQUE"); eat("TEMP"); st.type = low(ident()); if (eat("IF")) { needk("NOT"); needk("EXISTS"); st.ifne = true; } st.name = ident();
            if (st.type == "table") { need("("); do { size_t b = p; int d = 0; while (t[p].k && !(d == 0 && (op(",") || op(")")))) { if (op("(")) d++; if (op(")")) d--; p++; } string def; for (size_t i = b; i < p; i++) { if (i > b) def += ' '; def += t[i].k == 's' ? "'" + t[i].s + "'" : t[i].s; } st.defs.push_back(def); } while (eato(",")); need(")"); }
            else if (st.type == "index") { needk("ON"); st.table = ident(); need("("); int d = 0; while (t[p].k && !(d == 0 && op(")"))) { if (op("(")) d++; if (op(")")) d--; if (t[p].k == 'i' && d == 0) st.cols.push_back(t[p].s); p++; } need(")"); if (eat("WHERE")) { st.unique = false; expr(); } }
            else if (st.type == "view") { needk("AS"); st.sel = select(); }
            else if (st.type == "trigger") { needk("AFTER"); st.arg = low(ident()); needk("ON"); st.table = ident(); if (eat("FOR")) { needk("EACH"); needk("ROW"); } size_t b = t[p].e; needk("BEGIN"); while (t[p].k && t[p + 1].k) p++; size_t e = t[p].b; needk("END"); if (err.empty()) st.defs.push_back(string(z + b, e - b)); }
            else fail(); }
        else if (eat("DROP")) { st.k = DROP; st.type = low(ident()); if (eat("IF")) { needk("EXISTS"); st.ifne = true; } st.table = ident(); }
        else if (eat("ALTER")) { st.k = ALTER; needk("TABLE"); st.table = ident(); needk("ADD"); eat("COLUMN"); size_t b = p; while (t[p].k) p++; string def; for (size_t i = b; i < p; i++) { if (i > b) def += ' '; def += t[i].s; } st.defs.push_back(def); }
        else if (eat("PRAGMA")) { st.k = PRAGMA; st.name = low(ident()); if (eato("=")) { st.hasArg = true; if (eato("-")) st.arg = "-"; st.arg += t[p++].s; } else if (eato("(")) { st.hasArg = true; st.arg = t[p++].s; need(")"); } }
        else if (eat("BEGIN")) { st.k = BEGIN; st.arg = t[p].k ? low(t[p].s) : ""; while (t[p].k) p++; }
        else if (eat("COMMIT") || eat("END")) { st.k = COMMIT; eat("TRANSACTION"); }
        else if (eat("ROLLBACK")) { st.k = ROLLBACK; eat("TRANSACTION"); }
        else if (eat("ANALYZE") || eat("REINDEX") || eat("VACUUM") || eat("SAVEPOINT") || eat("RELEASE") || eat("ATTACH") || eat("DETACH")) { st.k = OTHER; st.name = low(t[p - 1].s); while (t[p].k) p++; }
        else fail();
        if (err.empty() && t[p].k) fail();
    }
    void sets(Stmt& st) { do { string c = ident(); need("="); st.sets.push_back({c, expr()}); } while (eato(",")); }
    void returning(Stmt& st) { if (eat("RETURNING")) { Sel* s = st.ret = mksel(); do { E* e = expr(); s->out.push_back(e); s->as.push_back(eat("AS") ? ident() : e->op == 'c' ? e->n : "expr"); } while (eato(",")); } }
};
}
using namespace ms;
struct sqlite3_value { Val v; };
struct sqlite3_context { Val r; string err; bool bad = false; void* arg = nullptr; };
struct sqlite3 {
    Db* db; bool tx = false, snap = false, wrote = false, noop = false, queryOnly = false, recTrig = false; State st; std::set<string> rd, wr; int64_t total = 0, lastRow = 0; int changes = 0, err = 0, ext = 0; string msg;
    int (*auth)(void*, int, const char*, const char*, const char*, const char*) = nullptr; void* authArg = nullptr; int (*prog)(void*) = nullptr; void* progArg = nullptr; int (*wal)(void*, sqlite3*, const char*, int) = nullptr; void* walArg = nullptr;
    int (*trace)(unsigned, void*, void*, void*) = nullptr; void* traceArg = nullptr; vector<Fn> fns; int open = 0; string mode = "delete";
};
struct sqlite3_stmt { sqlite3* c; Stmt s; vector<E*> arena; vector<Sel*> sels; vector<string> params; vector<Val> bound; vector<std::pair<size_t, size_t>> ppos; vector<int> pidx; vector<vector<Val>> rows; vector<string> heads; size_t at = 0; bool done = false, ran = false; vector<string> holdS; };
namespace ms {
static map<string, Db*>* dbs; static vector<sqlite3*>* conns;
struct Err { int code; string msg; };
static int seterr(sqlite3* c, int ext, const string& m) { c->ext = ext; c->err = ext & 0xff; c->msg = m; return c->err; }
static State& state(sqlite3* c) { if (c->tx && !c->snap) { c->st = c->db->cur; c->snap = true; } return c->tx ? c->st : c->db->cur; }
static TP find(State& s, const string& n, bool tab = true) { for (auto& t : s.t) if (ieq(t->name, n)) { if (tab && (t->type == "index" || t->type == "trigger")) continue; return t; } return nullptr; }
static TP writable(sqlite3* c, const string& n) { State& s = state(c); for (auto& t : s.t) if (t->type == "table" && ieq(t->name, n)) { if (!c->wr.count(low(n))) { t = std::make_shared<Table>(*t); } c->wr.insert(low(n)); return t; } return nullptr; }
static string numstr(const Val& v) { if (v.t == SQLITE_INTEGER) return std::to_string(v.i); char b[64]; snprintf(b, sizeof b, "%.15g", v.d); string s = b; bool pt = false; for (char ch : s) if (ch == '.' || ch == 'e' || ch == 'n') pt = true; if (!pt) s += ".0"; return s; }
static string text(const Val& v) { return v.t == SQLITE_TEXT || v.t == SQLITE_BLOB ? v.s : v.null() ? "" : numstr(v); }
static bool isnum(const string& s, bool& real) { real = false; size_t i = 0; while (i < s.size() && s[i] == ' ') i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t d = 0; bool dot = false; for (; i < s.size(); i++) { if (s[i] >= '0' && s[i] <= '9') d++; else if (s[i] == '.' && !dot) dot = real = true; else return false; } return d > 0 && d < 19; }
static Val num(const Val& v) { if (v.t == SQLITE_INTEGER || v.t == SQLITE_FLOAT || v.null()) return v; bool r; size_t n = 0; while (n < v.s.size() && ((v.s[n] >= '0' && v.s[n] <= '9') || (n == 0 && v.s[n] == '-') || v.s[n] == '.')) n++; string s = v.s.substr(0, n); if (!isnum(s, r)) return vint(0); return r ? vreal(strtod(s.c_str(), 0)) : vint(strtoll(s.c_str(), 0, 10)); }
static double dbl(const Val& v) { Val n = num(v); return n.t == SQLITE_FLOAT ? n.d : (double)n.i; }
static int64_t i64(const Val& v) { Val n = num(v); return n.t == SQLITE_FLOAT ? (int64_t)n.d : n.i; }
static Val affine(const Val& v, int a) { bool r; if ((a == A_INT || a == A_NUM) && v.t == SQLITE_TEXT && isnum(v.s, r)) return r ? vreal(strtod(v.s.c_str(), 0)) : vint(strtoll(v.s.c_str(), 0, 10)); if (a == A_INT && v.t == SQLITE_FLOAT && v.d == (double)(int64_t)v.d) return vint((int64_t)v.d); if (a == A_TEXT && (v.t == SQLITE_INTEGER || v.t == SQLITE_FLOAT)) return vtext(numstr(v)); return v; }
static int cmp(const Val& a, const Val& b) {
    auto rank = [](const Val& v) { return v.null() ? 0 : v.t == SQLITE_INTEGER || v.t == SQLITE_FLOAT ? 1 : v.t == SQLITE_TEXT ? 2 : 3; };
    int x = rank(a), y = rank(b); if (x != y) return x < y ? -1 : 1; if (x == 0) return 0;
    if (x == 1) { if (a.t == SQLITE_INTEGER && b.t == SQLITE_INTEGER) return a.i < b.i ? -1 : a.i > b.i; double p = dbl(a), q = dbl(b); return p < q ? -1 : p > q; }
    int r = a.s.compare(b.s); return r < 0 ? -1 : r > 0;
}
static bool truth(const Val& v) { return !v.null() && (v.t == SQLITE_FLOAT ? v.d != 0 : num(v).t == SQLITE_FLOAT ? num(v).d != 0 : num(v).i != 0); }
struct Cx { sqlite3* c; sqlite3_stmt* st; vector<Src>* from = nullptr; vector<const vector<Val>*> row; vector<int64_t> id; vector<vector<const vector<Val>*>>* grp = nullptr; Cx* up = nullptr; };
static bool agg(const string& n, size_t k) { return n == "count" || n == "sum" || n == "total" || n == "group_concat" || n == "json_group_array" || ((n == "max" || n == "min") && k == 1); }
static bool hasAgg(E* e) { if (e->op == 'f' && agg(e->n, e->a.size())) return true; for (E* x : e->a) if (hasAgg(x)) return true; return false; }
static vector<vector<Val>> run(Cx* up, sqlite3* c, sqlite3_stmt* st, Sel* s, vector<string>* heads);
static Val eval(Cx& x, E* e);
static int affOf(Cx& x, E* e) { if (e->op != 'c') return A_NONE; for (Cx* k = &x; k; k = k->up) if (k->from) for (auto& s : *k->from) { if (!e->tab.empty() && !ieq(e->tab, s.alias)) continue; for (size_t j = 0; j < s.t->cols.size(); j++) if (ieq(s.t->cols[j], e->n)) return s.t->aff.size() > j ? s.t->aff[j] : A_NONE; } return A_NONE; }
static bool like(const char* p, const char* s, bool glob) { char any = glob ? '*' : '%', one = glob ? '?' : '_'; if (!*p) return !*s; if (*p == any) { while (*p == any) p++; for (;; s++) { if (like(p, s, glob)) return true; if (!*s) return false; } } if (!*s) return false; if (glob && *p == '[') { bool inv = p[1] == '^', hit = false; const char* q = p + 1 + inv; if (*q == ']') { hit = *s == ']'; q++; } for (; *q && *q != ']'; q++) { if (q[1] == '-' && q[2] && q[2] != ']') { if ((unsigned char)*s >= (unsigned char)*q && (unsigned char)*s <= (unsigned char)q[2]) hit = true; q += 2; } else if (*q == *s) hit = true; } if (!*q) return false; return hit != inv && like(q + 1, s + 1, glob); } char a = *p, b = *s; if (!glob) { if (a >= 'A' && a <= 'Z') a += 32; if (b >= 'A' && b <= 'Z') b += 32; } return (a == b || *p == one) && like(p + 1, s + 1, glob); }
static void cmpaff(Cx& x, E* l, E* r, Val& a, Val& b) { int p = affOf(x, l), q = affOf(x, r); if ((p == A_INT || p == A_NUM) && q != A_INT && q != A_NUM) b = affine(b, A_NUM); else if ((q == A_INT || q == A_NUM) && p != A_INT && p != A_NUM) a = affine(a, A_NUM); else if (p == A_TEXT && q == A_NONE) b = affine(b, A_TEXT); else if (q == A_TEXT && p == A_NONE) a = affine(a, A_TEXT); }
__attribute__((weak)) bool userFn(const string& n, vector<Val>& a, Val& r) { return false; }
static int64_t nonce = 0;
static int64_t civil(int64_t y, int64_t m, int64_t d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static void uncivil(int64_t z, int64_t& y, int64_t& m, int64_t& d) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp + (mp < 10 ? 3 : -9); y += m <= 2; }
static bool isDate(const string& n) { return n == "datetime" || n == "date" || n == "time" || n == "strftime" || n == "julianday" || n == "unixepoch" || n == "current_timestamp" || n == "current_date" || n == "current_time"; }
static bool digs(const string& s, size_t& i, size_t n, int64_t& v) { v = 0; for (size_t k = 0; k < n; k++, i++) { if (i >= s.size() || s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); } return true; }
static string pad(int64_t v, int w) { string r = std::to_string(v); while ((int)r.size() < w) r = "0" + r; return r; }
// Milliseconds since 1970, or false for a value that is not a date.
static bool parseDate(const string& s0, int64_t& ms) {
    string s = low(s0); if (s == "now") { ms = STimeNow() / 1000; return true; }
    int64_t y = 2000, mo = 1, d = 1, h = 0, mi = 0, se = 0, fr = 0; size_t i = 0; bool tm = false;
    if (s.size() > 4 && s[4] == '-') { if (!digs(s, i, 4, y) || s[i++] != '-' || !digs(s, i, 2, mo) || i >= s.size() || s[i++] != '-' || !digs(s, i, 2, d)) return false; while (i < s.size() && (s[i] == ' ' || s[i] == 't')) i++; tm = i < s.size(); }
    else if (s.size() > 2 && s[2] == ':') tm = true; else { if (s.empty()) return false; char* e; double j = strtod(s.c_str(), &e); if (*e) return false; ms = (int64_t)((j - 2440587.5) * 86400000.0 + 0.5); return true; }
    if (tm) { if (!digs(s, i, 2, h) || i >= s.size() || s[i++] != ':' || !digs(s, i, 2, mi)) return false; if (i < s.size() && s[i] == ':') { i++; if (!digs(s, i, 2, se)) return false; if (i < s.size() && s[i] == '.') { i++; int64_t w = 100; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { fr += w * (s[i++] - '0'); w /= 10; } } } while (i < s.size() && s[i] == ' ') i++; if (i < s.size() && s[i] == 'z') i++; if (i != s.size()) return false; }
    if (mo < 1 || mo > 12 || d < 1 || d > 31 || h > 24 || mi > 59 || se > 59) return false;
    ms = ((civil(y, mo, d) * 24 + h) * 60 + mi) * 60000 + se * 1000 + fr; return true;
}
static bool modify(string m, int64_t& ms, const Val& first) {
    m = low(m); while (!m.empty() && m.back() == ' ') m.pop_back(); int64_t y, mo, d, day = ms >= 0 ? ms / 86400000 : -((-ms + 86399999) / 86400000); int64_t tod = ms - day * 86400000; uncivil(day, y, mo, d);
    if (m == "unixepoch") { ms = i64(first) * 1000; return true; } if (m == "utc" || m == "localtime" || m == "auto") return true;
    if (m == "start of day") { ms = day * 86400000; return true; } if (m == "start of month") { ms = civil(y, mo, 1) * 86400000; return true; } if (m == "start of year") { ms = civil(y, 1, 1) * 86400000; return true; }
    if (m.substr(0, 8) == "weekday ") { int64_t w = atoi(m.c_str() + 8), c = ((day + 4) % 7 + 7) % 7; ms += (w - c + 7) % 7 * 86400000; return true; }
    char* e; double v = strtod(m.c_str(), &e); if (e == m.c_str()) return false; while (*e == ' ') e++; string u = e; if (!u.empty() && u.back() == 's') u.pop_back();
    if (u == "second") ms += (int64_t)(v * 1000); else if (u == "minute") ms += (int64_t)(v * 60000); else if (u == "hour") ms += (int64_t)(v * 3600000); else if (u == "day") ms += (int64_t)(v * 86400000);
    else if (u == "month" || u == "year") { int64_t k = (int64_t)v * (u == "year" ? 12 : 1) + mo - 1; y += k >= 0 ? k / 12 : -((-k + 11) / 12); k = ((k % 12) + 12) % 12; ms = civil(y, k + 1, d) * 86400000 + tod; } else return false;
    return true;
}
static Val dateFn(const string& n, vector<Val>& a) {
    string f = n == "current_timestamp" ? "datetime" : n == "current_date" ? "date" : n == "current_time" ? "time" : n; size_t k = 0; string fmt = f == "date" ? "%Y-%m-%d" : f == "time" ? "%H:%M:%S" : f == "unixepoch" ? "%s" : f == "julianday" ? "%J" : "%Y-%m-%d %H:%M:%S";
    if (f == "strftime") { if (a.empty() || a[0].null()) return Val(); fmt = text(a[0]); k = 1; }
    int64_t ms; if (k >= a.size()) ms = STimeNow() / 1000; else { if (a[k].null()) return Val(); bool ue = k + 1 < a.size() && low(text(a[k + 1])) == "unixepoch"; if (ue) ms = 0; else if (!parseDate(text(a[k]), ms)) return Val(); for (size_t q = k + 1; q < a.size(); q++) if (a[q].null() || !modify(text(a[q]), ms, a[k])) return Val(); }
    int64_t y, mo, d, day = ms >= 0 ? ms / 86400000 : -((-ms + 86399999) / 86400000), tod = ms - day * 86400000; uncivil(day, y, mo, d); string r;
    for (size_t i = 0; i < fmt.size(); i++) { if (fmt[i] != '%' || i + 1 >= fmt.size()) { r += fmt[i]; continue; } switch (fmt[++i]) { case 'Y': r += pad(y, 4); break; case 'm': r += pad(mo, 2); break; case 'd': r += pad(d, 2); break; case 'H': r += pad(tod / 3600000, 2); break; case 'M': r += pad(tod / 60000 % 60, 2); break; case 'S': r += pad(tod / 1000 % 60, 2); break; case 'f': r += pad(tod / 1000 % 60, 2) + "." + pad(tod % 1000, 3); break; case 's': r += std::to_string(day * 86400 + tod / 1000); break; case 'w': r += std::to_string(((day + 4) % 7 + 7) % 7); break; case 'j': r += pad(day - civil(y, 1, 1) + 1, 3); break; case 'J': return vreal(ms / 86400000.0 + 2440587.5); default: r += fmt[i]; } }
    return f == "unixepoch" ? vint(strtoll(r.c_str(), 0, 10)) : vtext(r);
}
// JSON1, as far as top-level keys of objects go: a text is split into its members, every value is kept as it was written.
static void jws(const string& s, size_t& i) { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
static bool jstr(const string& s, size_t& i, string* out) { if (i >= s.size() || s[i] != '"') return false; for (i++; i < s.size(); i++) { unsigned char ch = s[i]; if (ch == '"') { i++; return true; } if (ch < 32) return false; if (ch != '\\') { if (out) *out += ch; continue; } if (++i >= s.size()) return false; switch (s[i]) { case '"': case '\\': case '/': if (out) *out += s[i]; break; case 'b': if (out) *out += '\b'; break; case 'f': if (out) *out += '\f'; break; case 'n': if (out) *out += '\n'; break; case 'r': if (out) *out += '\r'; break; case 't': if (out) *out += '\t'; break; case 'u': { int64_t v = 0; for (int k = 0; k < 4; k++) { if (++i >= s.size()) return false; char h = s[i]; v = v * 16 + (h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1000000); } if (v < 0) return false; if (out) { if (v < 128) *out += (char)v; else if (v < 2048) { *out += (char)(192 | v >> 6); *out += (char)(128 | (v & 63)); } else { *out += (char)(224 | v >> 12); *out += (char)(128 | (v >> 6 & 63)); *out += (char)(128 | (v & 63)); } } break; } default: return false; } } return false; }
static bool jval(const string& s, size_t& i, vector<std::pair<string, string>>* mem, int depth = 0) {
    jws(s, i); if (i >= s.size() || depth > 50) return false; char c = s[i];
    if (c == '"') return jstr(s, i, nullptr);
    if (c == '{') { i++; jws(s, i); if (i < s.size() && s[i] == '}') { i++; return true; } for (;;) { jws(s, i); string k; if (!jstr(s, i, &k)) return false; jws(s, i); if (i >= s.size() || s[i++] != ':') return false; jws(s, i); size_t b = i; if (!jval(s, i, nullptr, depth + 1)) return false; if (mem) mem->push_back({k, s.substr(b, i - b)}); jws(s, i); if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } return s[i++] == '}'; } }
    if (c == '[') { i++; jws(s, i); if (i < s.size() && s[i] == ']') { i++; return true; } for (;;) { if (!jval(s, i, nullptr, depth + 1)) return false; jws(s, i); if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } return s[i++] == ']'; } }
    for (const char* w : {"true", "false", "null"}) if (s.compare(i, strlen(w), w) == 0) { i += strlen(w); return true; }
    size_t b = i; if (s[i] == '-') i++; size_t d = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; if (i == d || (s[d] == '0' && i > d + 1)) return false; if (i < s.size() && s[i] == '.') { size_t f = ++i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; if (i == f) return false; } if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t f = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; if (i == f) return false; } return i > b;
}
typedef vector<std::pair<string, string>> Mem;
static bool jparse(const string& s, Mem* m) { size_t i = 0; if (!jval(s, i, m)) return false; jws(s, i); return i == s.size(); }
static string jquote(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else if (c == '\b') r += "\\b"; else if (c == '\f') r += "\\f"; else if (c < 32) { static const char* h = "0123456789abcdef"; r += "\\u00"; r += h[c >> 4]; r += h[c & 15]; } else r += c; } return r + "\""; }
static string jput(const Mem& m) { string r = "{"; for (size_t i = 0; i < m.size(); i++) { if (i) r += ","; r += jquote(m[i].first) + ":" + m[i].second; } return r + "}"; }
static string jpatch(const string& a, const string& b) { Mem p, q; size_t i = 0; jws(b, i); if (i >= b.size() || b[i] != '{') return b; jparse(b, &p); i = 0; jws(a, i); if (i < a.size() && a[i] == '{') jparse(a, &q); for (auto& e : p) { size_t k = 0; while (k < q.size() && q[k].first != e.first) k++; if (e.second == "null") { if (k < q.size()) q.erase(q.begin() + k); } else if (k < q.size()) q[k].second = jpatch(q[k].second, e.second); else q.push_back({e.first, jpatch("null", e.second)}); } return jput(q); }
static string jkey(const Val& v) { string p = text(v); if (p.substr(0, 2) != "$." || p.find_first_of(".[", 2) != string::npos) throw Err{SQLITE_ERROR, "JSON path outside the model: " + p}; return p.substr(2); }
static Val jsonFn(const string& n, vector<Val>& a, E* e) {
    if (a.empty() || a[0].null()) return Val(); string s = text(a[0]); Mem m; bool ok = jparse(s, &m);
    if (n == "json_valid") return vint(ok);
    if (!ok) throw Err{SQLITE_ERROR, "malformed JSON"};
    if (n == "json") return vtext(s);
    if (n == "json_patch") { if (a[1].null()) return Val(); if (!jparse(text(a[1]), nullptr)) throw Err{SQLITE_ERROR, "malformed JSON"}; return vtext(jpatch(s, text(a[1]))); }
    if (n == "json_extract") { string k = jkey(a[1]); for (auto& q : m) if (q.first == k) { const string& v = q.second; if (v == "null") return Val(); if (v == "true" || v == "false") return vint(v == "true"); if (v[0] == '"') { string r; size_t i = 0; jstr(v, i, &r); return vtext(r); } if (v[0] == '{' || v[0] == '[') return vtext(v); return num(vtext(v)); } return Val(); }
    size_t i = 0; jws(s, i); bool obj = s[i] == '{'; if (!obj) return vtext(s);
    if (n == "json_remove") { for (size_t q = 1; q < a.size(); q++) { string k = jkey(a[q]); for (size_t j = 0; j < m.size(); j++) if (m[j].first == k) { m.erase(m.begin() + j); break; } } return vtext(jput(m)); }
    for (size_t q = 1; q + 1 < a.size(); q += 2) { string k = jkey(a[q]); const Val& v = a[q + 1]; bool sub = e->a[q + 1]->op == 'f' && e->a[q + 1]->n.substr(0, 4) == "json"; string r = v.null() ? "null" : v.t == SQLITE_TEXT && !sub ? jquote(v.s) : text(v); size_t j = 0; while (j < m.size() && m[j].first != k) j++; if (j < m.size()) m[j].second = r; else m.push_back({k, r}); }
    return vtext(jput(m));
}
static Val call(Cx& x, E* e) {
    const string& n = e->n;
    if (agg(n, e->a.size())) {
        if (!x.grp) throw Err{SQLITE_ERROR, "misuse of aggregate"};
        Val r; int64_t cnt = 0; bool first = true; Cx y = x; y.grp = nullptr; vector<Val> seen;
        for (auto& g : *x.grp) { y.row = g; if (e->a.empty() || e->a[0]->op == '*') { cnt++; continue; } Val v = eval(y, e->a[0]); if (v.null()) continue; if (e->neg) { bool dup = false; for (auto& q : seen) if (!cmp(q, v)) dup = true; if (dup) continue; seen.push_back(v); } cnt++; if (n == "max") { if (first || cmp(v, r) > 0) r = v; } else if (n == "min") { if (first || cmp(v, r) < 0) r = v; } else if (n == "sum" || n == "total") { Val k = num(v); if (first) r = k; else if (r.t == SQLITE_INTEGER && k.t == SQLITE_INTEGER) r = vint(r.i + k.i); else r = vreal(dbl(r) + dbl(k)); } else if (n == "group_concat") { r = vtext(first ? text(v) : r.s + (e->a.size() > 1 ? text(eval(y, e->a[1])) : ",") + text(v)); } first = false; }
        return n == "count" ? vint(cnt) : n == "total" && r.null() ? vreal(0) : r;
    }
    vector<Val> a; if (n == "coalesce" || n == "ifnull") { for (E* k : e->a) { Val v = eval(x, k); if (!v.null()) return v; } return Val(); }
    if (n == "iif") return truth(eval(x, e->a[0])) ? eval(x, e->a[1]) : eval(x, e->a[2]);
    for (E* k : e->a) a.push_back(eval(x, k));
    for (auto& f : x.c->fns) if (f.name == n && (f.n < 0 || f.n == (int)a.size())) { vector<sqlite3_value> vs(a.size()); vector<sqlite3_value*> ps; for (size_t i = 0; i < a.size(); i++) { vs[i].v = a[i]; ps.push_back(&vs[i]); } sqlite3_context cx; cx.arg = f.arg; f.f(&cx, a.size(), ps.data()); if (cx.bad) throw Err{SQLITE_ERROR, cx.err}; return cx.r; }
    Val ur; if (userFn(n, a, ur)) return ur;
    if (n == "cast") { if (a[0].null()) return a[0]; if (e->tab == "text") return vtext(text(a[0])); if (e->tab == "integer" || e->tab == "int") return vint(i64(a[0])); return vreal(dbl(a[0])); }
    if (n == "max" || n == "min") { Val r = a[0]; for (auto& v : a) { if (v.null()) return v; if (n == "max" ? cmp(v, r) > 0 : cmp(v, r) < 0) r = v; } return r; }
    if (n == "length") return a[0].null() ? a[0] : vint(text(a[0]).size());
    if (n == "lower" || n == "upper") { if (a[0].null()) return a[0]; string s = text(a[0]); for (auto& ch : s) if (n == "lower" ? (ch >= 'A' && ch <= 'Z') : (ch >= 'a' && ch <= 'z')) ch ^= 32; return vtext(s); }
    if (n == "abs") { Val v = num(a[0]); if (v.t == SQLITE_INTEGER) v.i = v.i < 0 ? -v.i : v.i; else v.d = v.d < 0 ? -v.d : v.d; return v; }
    if (n == "typeof") { static const char* nm[] = {"", "integer", "real", "text", "blob", "null"}; return vtext(nm[a[0].t]); }
    if (n == "nullif") return !a[0].null() && !a[1].null() && !cmp(a[0], a[1]) ? Val() : a[0];
    if (n == "changes") return vint(x.c->changes);
    if (n == "last_insert_rowid") return vint(x.c->lastRow);
    if (n == "random") return vint(0x5851f42d4c957f2dll * ++nonce); if (n == "randomblob") { Val v = vtext(std::to_string(++nonce)); v.t = SQLITE_BLOB; return v; } if (n == "total_changes") return vint(x.c->total); if (n == "sqlite_version") return vtext("3.54.0");
    if (isDate(n)) return dateFn(n, a);
    if (n == "json" || n == "json_valid" || n == "json_extract" || n == "json_set" || n == "json_remove" || n == "json_patch") return jsonFn(n, a, e);
    throw Err{SQLITE_ERROR, "no such function: " + n};
}
static Val eval(Cx& x, E* e) {
    switch (e->op) {
        case 'l': return e->v;
        case 'p': return e->col < (int)x.st->bound.size() ? x.st->bound[e->col] : Val();
        case 'c': {
            if (e->ign) return Val();
            for (Cx* k = &x; k; k = k->up) if (k->from) for (size_t i = 0; i < k->from->size() && i < k->row.size(); i++) { Src& s = (*k->from)[i]; if (!e->tab.empty() && !ieq(e->tab, s.alias)) continue;
                for (size_t j = 0; j < s.t->cols.size(); j++) if (ieq(s.t->cols[j], e->n)) return k->row[i] ? (*k->row[i])[j] : Val();
                if ((ieq(e->n, "rowid") || ieq(e->n, "_rowid_")) && k->row[i]) { for (size_t r = 0; r < s.t->rows.size(); r++) if (&s.t->rows[r] == k->row[i]) return vint(s.t->ids[r]); } }
            throw Err{SQLITE_ERROR, "no such column: " + e->n}; }
        case '-': { Val v = num(eval(x, e->a[0])); if (v.t == SQLITE_INTEGER) v.i = -(uint64_t)v.i; else v.d = -v.d; return v; }
        case '!': { Val v = eval(x, e->a[0]); return v.null() ? v : vint(!truth(v)); }
        case 'w': { size_t i = 0; for (; i + 1 < e->a.size(); i += 2) if (truth(eval(x, e->a[i]))) return eval(x, e->a[i + 1]); return i < e->a.size() ? eval(x, e->a[i]) : Val(); }
        case 'q': { auto r = run(&x, x.c, x.st, e->sub, nullptr); return r.empty() || r[0].empty() ? Val() : r[0][0]; }
        case 'e': return vint(!run(&x, x.c, x.st, e->sub, nullptr).empty());
        case 'f': return call(x, e);
        case 't': { Val v = eval(x, e->a[0]), l = eval(x, e->a[1]), h = eval(x, e->a[2]); cmpaff(x, e->a[0], e->a[1], v, l); cmpaff(x, e->a[0], e->a[2], v, h); if (v.null() || l.null() || h.null()) return Val(); bool r = cmp(v, l) >= 0 && cmp(v, h) <= 0; return vint(r != e->neg); }
        case 'k': { Val a = eval(x, e->a[0]), b = eval(x, e->a[1]); if (a.null() || b.null()) return Val(); return vint(like(text(b).c_str(), text(a).c_str(), e->n == "glob") != e->neg); }
        case 'i': { Val v = eval(x, e->a[0]); if (v.null()) return v; bool f = false, nul = false; int p = affOf(x, e->a[0]); auto t1 = [&](Val w) { if (w.null()) nul = true; else if (p != A_NONE) w = affine(w, p); if (!w.null() && !cmp(v, w)) f = true; }; if (e->sub) { for (auto& r : run(&x, x.c, x.st, e->sub, nullptr)) t1(r[0]); } else for (size_t i = 1; i < e->a.size(); i++) t1(eval(x, e->a[i])); if (!f && nul) return Val(); return vint(f != e->neg); }
        case 'b': {
            const string& o = e->n;
            if (o == "and") { Val a = eval(x, e->a[0]); if (!a.null() && !truth(a)) return vint(0); Val b = eval(x, e->a[1]); if (!b.null() && !truth(b)) return vint(0); return a.null() || b.null() ? Val() : vint(1); }
            if (o == "or") { Val a = eval(x, e->a[0]); if (truth(a)) return vint(1); Val b = eval(x, e->a[1]); if (truth(b)) return vint(1); return a.null() || b.null() ? Val() : vint(0); }
            Val a = eval(x, e->a[0]), b = eval(x, e->a[1]);
            if (o == "is" || o == "isnot") { cmpaff(x, e->a[0], e->a[1], a, b); return vint((cmp(a, b) == 0) == (o == "is")); }
            if (a.null() || b.null()) return Val();
            if (o == "||") return vtext(text(a) + text(b));
            if (o[0] == '+' || (o[0] == '-' && o.size() == 1) || o[0] == '*' || o[0] == '/' || o[0] == '%') { Val p = num(a), q = num(b); if (p.t == SQLITE_INTEGER && q.t == SQLITE_INTEGER) { if ((o[0] == '/' || o[0] == '%') && !q.i) return Val(); switch (o[0]) { case '+': return vint((uint64_t)p.i + q.i); case '-': return vint((uint64_t)p.i - q.i); case '*': return vint((uint64_t)p.i * q.i); case '/': return vint(p.i / q.i); default: return vint(p.i % q.i); } } double f = dbl(p), g = dbl(q); switch (o[0]) { case '+': return vreal(f + g); case '-': return vreal(f - g); case '*': return vreal(f * g); case '/': return g == 0 ? Val() : vreal(f / g); default: return Val(); } }
            cmpaff(x, e->a[0], e->a[1], a, b); int r = cmp(a, b);
            return vint(o == "=" ? r == 0 : o == "!=" ? r != 0 : o == "<" ? r < 0 : o == "<=" ? r <= 0 : o == ">" ? r > 0 : r >= 0); }
    }
    throw Err{SQLITE_ERROR, "unsupported expression"};
}
static TP master(sqlite3* c) { auto m = std::make_shared<Table>(); m->name = "sqlite_master"; m->cols = {"type", "name", "tbl_name", "rootpage", "sql"}; m->aff = {A_TEXT, A_TEXT, A_TEXT, A_INT, A_TEXT}; for (auto& t : state(c).t) { m->rows.push_back({vtext(t->type), vtext(t->name), vtext(t->tbl.empty() ? t->name : t->tbl), vint((int64_t)m->rows.size() + 2), vtext(t->sql)}); m->ids.push_back(m->rows.size()); } return m; }
static void bindSrc(Cx* up, sqlite3* c, sqlite3_stmt* st, Src& s) {
    if (s.sub) { auto t = std::make_shared<Table>(); vector<string> h; t->rows = run(up, c, st, s.sub, &h); t->cols = h; for (size_t i = 0; i < t->rows.size(); i++) t->ids.push_back(i + 1); s.t = t; return; }
    if (ieq(s.name, "sqlite_master") || ieq(s.name, "sqlite_schema")) { s.t = master(c); return; }
    TP t = find(state(c), s.name); if (!t) throw Err{SQLITE_ERROR, "no such table: " + s.name};
    if (t->type == "view") { string sql = t->sql; size_t a = low(sql).find(" as "); Parser p; vector<string> ps; p.arena = &st->arena; p.sels = &st->sels; p.params = &ps; static vector<string*> keep; string* ks = new string(sql.substr(a + 4)); keep.push_back(ks); p.lex(ks->c_str(), ks->size()); Sel* v = p.select(); s.sub = v; auto vt = std::make_shared<Table>(); vector<string> h; vt->rows = run(up, c, st, v, &h); vt->cols = h; for (size_t i = 0; i < vt->rows.size(); i++) vt->ids.push_back(i + 1); s.sub = nullptr; s.t = vt; return; }
    if (c->tx) c->rd.insert(low(s.name)); s.t = t;
}
static bool rowEq(const vector<Val>& a, const vector<Val>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (cmp(a[i], b[i])) return false; return true; }
static int rowCmp(const vector<Val>& a, const vector<Val>& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { int r = cmp(a[i], b[i]); if (r) return r; } return 0; }
static vector<vector<Val>> run1(Cx* up, sqlite3* c, sqlite3_stmt* st, Sel* s, vector<string>* heads, vector<vector<Val>>* keys) {
    Cx x; x.c = c; x.st = st; x.up = up; x.from = &s->from; for (auto& f : s->from) bindSrc(up, c, st, f);
    vector<vector<const vector<Val>*>> rows(1);
    for (size_t i = 0; i < s->from.size(); i++) { vector<vector<const vector<Val>*>> nx; Src& f = s->from[i]; for (auto& r : rows) { bool any = false; for (auto& tr : f.t->rows) { auto q = r; q.push_back(&tr); if (f.on) { x.row = q; if (!truth(eval(x, f.on))) continue; } any = true; nx.push_back(std::move(q)); } if (!any && f.left) { auto q = r; q.push_back(nullptr); nx.push_back(std::move(q)); } } rows = std::move(nx); }
    if (s->where) { vector<vector<const vector<Val>*>> k; for (auto& r : rows) { x.row = r; if (truth(eval(x, s->where))) k.push_back(std::move(r)); } rows = std::move(k); }
    vector<E*> outs; vector<string> hs;
    for (size_t i = 0; i < s->out.size(); i++) if (s->out[i]->op == '*') { for (auto& f : s->from) { if (!s->out[i]->tab.empty() && !ieq(s->out[i]->tab, f.alias)) continue; for (auto& n : f.t->cols) { E* e = new E; st->arena.push_back(e); e->op = 'c'; e->n = n; e->tab = f.alias; e->ign = false; outs.push_back(e); hs.push_back(n); } } } else { outs.push_back(s->out[i]); hs.push_back(s->as[i]); }
    if (heads) *heads = hs;
    bool isAgg = !s->group.empty(); for (E* e : outs) if (hasAgg(e)) isAgg = true;
    vector<vector<Val>> res;
    auto emit = [&]() { vector<Val> r; for (E* e : outs) r.push_back(eval(x, e)); if (s->distinct) for (auto& q : res) if (rowEq(q, r)) return; if (keys) { vector<Val> k; for (E* o : s->ord) { if (o->op == 'l' && o->v.t == SQLITE_INTEGER) { k.push_back(r[o->v.i - 1]); continue; } bool al = false; if (o->op == 'c' && o->tab.empty()) for (size_t i = 0; i < hs.size(); i++) if (ieq(hs[i], o->n)) { k.push_back(r[i]); al = true; break; } if (!al) k.push_back(eval(x, o)); } keys->push_back(k); } res.push_back(r); };
    if (isAgg) {
        vector<vector<vector<const vector<Val>*>>> groups; vector<vector<Val>> gk;
        if (s->group.empty()) groups.push_back(rows); else for (auto& r : rows) { x.row = r; vector<Val> k; for (E* g : s->group) { Val gv; bool al = false; if (g->op == 'c' && g->tab.empty()) for (size_t i = 0; i < hs.size() && !al; i++) if (ieq(hs[i], g->n) && outs[i]->op != 'c') { gv = eval(x, outs[i]); al = true; } k.push_back(al ? gv : eval(x, g)); } size_t i = 0; for (; i < gk.size(); i++) if (rowEq(gk[i], k)) break; if (i == gk.size()) { gk.push_back(k); groups.emplace_back(); } groups[i].push_back(r); }
        for (auto& g : groups) { x.grp = &g; x.row = g.empty() ? vector<const vector<Val>*>(s->from.size(), nullptr) : g[0]; if (s->having && !truth(eval(x, s->having))) continue; emit(); }
        x.grp = nullptr;
    } else for (auto& r : rows) { x.row = r; emit(); }
    return res;
}
static vector<vector<Val>> run(Cx* up, sqlite3* c, sqlite3_stmt* st, Sel* s, vector<string>* heads) {
    vector<vector<Val>> keys; bool simple = !s->next; vector<string> hd; vector<vector<Val>> r = run1(up, c, st, s, &hd, simple && !s->ord.empty() ? &keys : nullptr);
    if (heads) *heads = hd;
    bool dedup = false; for (Sel* n = s; n->next; n = n->next) { auto q = run1(up, c, st, n->next, nullptr, nullptr); if (!n->all) dedup = true; for (auto& w : q) r.push_back(std::move(w)); }
    if (dedup) { vector<vector<Val>> u; for (auto& w : r) { size_t i = 0; bool dup = false; for (; i < u.size(); i++) { int k = rowCmp(w, u[i]); if (!k) { dup = true; break; } if (k < 0) break; } if (!dup) u.insert(u.begin() + i, w); } r = u; }
    if (!simple && !s->ord.empty()) for (auto& w : r) { vector<Val> k; for (E* o : s->ord) { Val v; if (o->op == 'l') v = w[o->v.i - 1]; else for (size_t i = 0; i < hd.size(); i++) if (ieq(hd[i], o->n)) { v = w[i]; break; } k.push_back(v); } keys.push_back(k); }
    if (!s->ord.empty()) { vector<size_t> ix; for (size_t i = 0; i < r.size(); i++) { size_t j = 0; for (; j < ix.size(); j++) { bool before = false; for (size_t k = 0; k < s->ord.size(); k++) { int q = cmp(keys[i][k], keys[ix[j]][k]); if (s->desc[k]) q = -q; if (q) { before = q < 0; break; } } if (before) break; } ix.insert(ix.begin() + j, i); } vector<vector<Val>> o; for (size_t i : ix) o.push_back(r[i]); r = o; }
    Cx x; x.c = c; x.st = st; if (s->off) { int64_t n = i64(eval(x, s->off)); r.erase(r.begin(), r.begin() + (n < (int64_t)r.size() ? n : (int64_t)r.size())); }
    if (s->lim) { int64_t n = i64(eval(x, s->lim)); if (n >= 0 && n < (int64_t)r.size()) r.resize(n); }
    return r;
}
static void columnDef(Table& t, const string& def) {
    Parser p; vector<E*> ar; vector<Sel*> se; vector<string> pa; p.arena = &ar; p.sels = &se; p.params = &pa; p.lex(def.c_str(), def.size());
    if (p.kw("PRIMARY") || p.kw("UNIQUE")) { p.eat("PRIMARY"); p.eat("UNIQUE"); p.eat("KEY"); p.need("("); vector<int> u; do { string n = p.ident(); for (size_t i = 0; i < t.cols.size(); i++) if (ieq(t.cols[i], n)) u.push_back(i); } while (p.eato(",")); t.uniq.push_back(u); return; }
    string n = p.ident(), ty; while (p.cur().k == 'i' && !p.kw("PRIMARY") && !p.kw("NOT") && !p.kw("DEFAULT") && !p.kw("UNIQUE") && !p.kw("COLLATE")) ty += low(p.t[p.p++].s) + " ";
    int a = ty.find("int") != string::npos ? A_INT : ty.find("text") != string::npos || ty.find("char") != string::npos || ty.find("clob") != string::npos ? A_TEXT : ty.empty() || ty.find("blob") != string::npos ? A_NONE : A_NUM;
    t.cols.push_back(n); t.aff.push_back(a); string d; bool pk = false, uq = false, nn = false;
    while (p.cur().k) { if (p.eat("PRIMARY")) { pk = true; } else if (p.eat("NOT")) nn = p.eat("NULL") || nn; else if (p.eat("UNIQUE")) uq = true; else if (p.eat("DEFAULT")) { size_t b = p.cur().b; E* e = p.prim(); (void)e; d = def.substr(b, p.t[p.p - 1].e - b); } else p.p++; }
    t.dflt.push_back(d); t.nn.push_back(nn); if (pk && a == A_INT) t.pk = t.cols.size() - 1; else if (pk || uq) t.uniq.push_back({(int)t.cols.size() - 1});
}
static void ddl(sqlite3* c) { state(c).schema++; c->wr.insert("sqlite_master"); c->wrote = true; }
static string trimSql(const string& s) { size_t b = 0, e = s.size(); while (b < e && (s[b] == ' ' || s[b] == '\n')) b++; while (e > b && (s[e - 1] == ' ' || s[e - 1] == ';' || s[e - 1] == '\n')) e--; return s.substr(b, e - b); }
static void notNull(Table& t, const vector<Val>& r) { for (size_t i = 0; i < r.size() && i < t.nn.size(); i++) if (t.nn[i] && (int)i != t.pk && r[i].null()) throw Err{SQLITE_CONSTRAINT | 5 << 8, "NOT NULL constraint failed: " + t.name + "." + t.cols[i]}; }
static bool clash(Table& t, const vector<Val>& r, int64_t id, size_t self, size_t& which) { for (size_t i = 0; i < t.rows.size(); i++) { if (i == self) continue; if (t.pk >= 0 && t.ids[i] == id) { which = i; return true; } for (auto& u : t.uniq) { bool eq = true; for (int k : u) if (r[k].null() || cmp(r[k], t.rows[i][k])) { eq = false; break; } if (eq) { which = i; return true; } } } return false; }
static void exec(sqlite3_stmt* st);
// Runs the table's triggers for one changed row: NEW.x and OLD.x in the trigger's statements stand for that row's values.
static void fire(sqlite3* c, const Table& t, const char* op, const vector<Val>* was, const vector<Val>* now) {
    vector<string> bodies; for (auto& g : state(c).t) if (g->type == "trigger" && g->op == op && ieq(g->tbl, t.name)) bodies.push_back(g->dflt.empty() ? string() : g->dflt[0]); if (bodies.empty()) return;
    vector<string> cols = t.cols; vector<Val> o, n; if (was) o = *was; if (now) n = *now; int ch = c->changes; int64_t last = c->lastRow; static int deep; if (++deep > 20) { deep--; throw Err{SQLITE_ERROR, "too many levels of trigger recursion"}; }
    for (auto& body : bodies) for (size_t at = 0; at < body.size();) {
        auto st = std::make_shared<sqlite3_stmt>(); st->c = c; Parser p; p.arena = &st->arena; p.sels = &st->sels; p.params = &st->params; at += p.lex(body.c_str() + at, body.size() - at); if (p.t.size() == 1) break; p.parse(st->s); if (!p.err.empty()) { deep--; throw Err{SQLITE_ERROR, p.err}; }
        for (E* e : st->arena) if (e->op == 'c' && (ieq(e->tab, "new") || ieq(e->tab, "old"))) { auto& r = ieq(e->tab, "new") ? n : o; for (size_t j = 0; j < cols.size() && j < r.size(); j++) if (ieq(cols[j], e->n)) { e->op = 'l'; e->v = r[j]; break; } }
        try { exec(st.get()); } catch (...) { deep--; throw; }
    }
    deep--; c->changes = ch; c->lastRow = last;
}
static void insertRow(sqlite3* c, Cx& x, Stmt& s, Table& t, vector<Val> r, vector<vector<Val>>& ret) {
    for (size_t i = 0; i < r.size(); i++) r[i] = affine(r[i], t.aff[i]);
    int64_t id = 0; if (t.pk >= 0 && !r[t.pk].null()) { if (r[t.pk].t != SQLITE_INTEGER) throw Err{SQLITE_MISMATCH, "datatype mismatch"}; id = r[t.pk].i; } else { for (int64_t k : t.ids) if (k >= id) id = k; id++; if (t.pk >= 0) r[t.pk] = vint(id); }
    notNull(t, r); size_t w;
    while (clash(t, r, id, (size_t)-1, w)) {
        if (s.conflict == 'i') return;
        if (s.conflict == 'r') { vector<Val> gone = t.rows[w]; t.rows.erase(t.rows.begin() + w); t.ids.erase(t.ids.begin() + w); if (c->recTrig) fire(c, t, "delete", &gone, nullptr); continue; }
        if (s.conflict == 'u') { Src ex, me; me.alias = me.name = s.table; me.t = std::make_shared<Table>(t); ex.alias = "excluded"; ex.t = me.t; vector<Src> f{me, ex}; Cx y = x; y.from = &f; vector<Val> old = t.rows[w]; y.row = {&old, &r}; for (auto& [cn, e] : s.sets) for (size_t j = 0; j < t.cols.size(); j++) if (ieq(t.cols[j], cn)) t.rows[w][j] = affine(eval(y, e), t.aff[j]); c->changes++; c->total++; vector<Val> nw = t.rows[w]; fire(c, t, "update", &old, &nw); return; }
        throw Err{SQLITE_CONSTRAINT | (t.pk >= 0 ? 6 << 8 : 8 << 8), "UNIQUE constraint failed: " + t.name};
    }
    size_t at = t.rows.size(); while (at > 0 && t.ids[at - 1] > id) at--;
    t.rows.insert(t.rows.begin() + at, r); t.ids.insert(t.ids.begin() + at, id); c->changes++; c->total++; c->lastRow = id; fire(c, t, "insert", nullptr, &r);
    if (s.ret) { Src me; me.alias = me.name = s.table; me.t = std::make_shared<Table>(t); vector<Src> f{me}; Cx y = x; y.from = &f; y.row = {&r}; vector<Val> o; for (E* e : s.ret->out) { if (e->op == '*') { for (auto& v : r) o.push_back(v); } else o.push_back(eval(y, e)); } ret.push_back(o); }
}
static void dropTx(sqlite3* c) { c->tx = c->snap = c->wrote = false; c->rd.clear(); c->wr.clear(); c->st = State(); c->total += 0; }
static int commitTx(sqlite3* c) {
    if (!c->tx) throw Err{SQLITE_ERROR, "cannot commit - no transaction is active"};
    if (c->wrote) {
        auto clashWith = [&](const string& n) { if (n == "sqlite_master") return c->db->cur.schemaVer != c->st.schemaVer; TP a = find(c->db->cur, n), b = find(c->st, n); return a && b ? a->ver != b->ver : (bool)a; };
        bool bad = c->db->cur.schemaVer != c->st.schemaVer; for (auto& n : c->rd) if (clashWith(n)) bad = true; for (auto& n : c->wr) if (clashWith(n)) bad = true;
        if (bad) throw Err{SQLITE_BUSY_SNAPSHOT, "database is locked"};
        c->db->seq++; State& cur = c->db->cur;
        if (c->wr.count("sqlite_master")) { State n = c->st; n.schemaVer = c->db->seq; for (auto& t : n.t) if (!c->wr.count(low(t->name))) { TP o = find(cur, t->name, false); if (o) t = o; } cur = n; }
        for (auto& w : c->wr) for (auto& t : cur.t) if (t->type == "table" && ieq(t->name, w)) { TP b = find(c->st, w); if (b) { t = b; t->ver = c->db->seq; } }
    }
    bool w = c->wrote; dropTx(c); if (w && c->wal) c->wal(c->walArg, c, "main", 1);
    return SQLITE_OK;
}
static void exec(sqlite3_stmt* st) {
    sqlite3* c = st->c; Stmt& s = st->s; Cx x; x.c = c; x.st = st;
    bool autoTx = false; if (!c->tx && (s.k == INSERT || s.k == UPDATE || s.k == DELETE || s.k == CREATE || s.k == DROP || s.k == ALTER)) { autoTx = true; c->tx = true; c->snap = false; }
    if (c->queryOnly && (s.k == INSERT || s.k == UPDATE || s.k == DELETE || s.k == CREATE || s.k == DROP || s.k == ALTER)) throw Err{SQLITE_READONLY, "attempt to write a readonly database"};
    try {
    switch (s.k) {
        case SELECT: st->rows = run(nullptr, c, st, s.sel, &st->heads); break;
        case INSERT: {
            c->changes = 0; vector<vector<Val>> in; if (s.sel) in = run(nullptr, c, st, s.sel, nullptr); else for (auto& r : s.rows) { vector<Val> v; for (E* e : r) v.push_back(eval(x, e)); in.push_back(v); }
            TP t = writable(c, s.table); if (!t) throw Err{SQLITE_ERROR, "no such table: " + s.table}; c->rd.insert(low(s.table)); c->wrote = true; TP backup = std::make_shared<Table>(*t); int64_t tot = c->total;
            try { for (auto& v : in) { vector<Val> r(t->cols.size()); if (s.cols.empty()) { if (v.size() != r.size()) throw Err{SQLITE_ERROR, "table " + s.table + " has a different number of columns"}; r = v; } else { for (size_t j = 0; j < r.size(); j++) if (!t->dflt[j].empty()) { Parser p; vector<string> pa; p.arena = &st->arena; p.sels = &st->sels; p.params = &pa; p.lex(t->dflt[j].c_str(), t->dflt[j].size()); r[j] = eval(x, p.expr()); } for (size_t k = 0; k < s.cols.size(); k++) { bool f = false; for (size_t j = 0; j < t->cols.size(); j++) if (ieq(t->cols[j], s.cols[k])) { r[j] = v[k]; f = true; } if (!f) throw Err{SQLITE_ERROR, "no such column " + s.cols[k]}; } } insertRow(c, x, s, *t, r, st->rows); } }
            catch (Err&) { *t = *backup; c->total = tot; throw; }
            break; }
        case UPDATE: case DELETE: {
            c->changes = 0; TP r0 = find(state(c), s.table); if (!r0) throw Err{SQLITE_ERROR, "no such table: " + s.table}; if (c->tx) c->rd.insert(low(s.table));
            vector<Src> f(1); f[0].alias = f[0].name = s.table; f[0].t = std::make_shared<Table>(*r0); x.from = &f; int64_t lim = s.lim ? i64(eval(x, s.lim)) : -1; vector<size_t> hit;
            for (size_t i = 0; i < f[0].t->rows.size() && (lim < 0 || (int64_t)hit.size() < lim); i++) { x.row = {&f[0].t->rows[i]}; if (!s.where || truth(eval(x, s.where))) hit.push_back(i); }
            if (hit.empty() || (c->noop && s.k == UPDATE)) { break; }
            TP t = writable(c, s.table); c->wrote = true;
            if (s.k == DELETE) { for (size_t k = hit.size(); k-- > 0;) { if (s.ret) { x.row = {&f[0].t->rows[hit[k]]}; vector<Val> o; for (E* e : s.ret->out) o.push_back(eval(x, e)); st->rows.insert(st->rows.begin(), o); } t->rows.erase(t->rows.begin() + hit[k]); t->ids.erase(t->ids.begin() + hit[k]); c->changes++; c->total++; fire(c, *t, "delete", &f[0].t->rows[hit[k]], nullptr); } break; }
            for (size_t i : hit) { x.row = {&f[0].t->rows[i]}; vector<Val> nr = f[0].t->rows[i]; for (auto& [cn, e] : s.sets) { bool ok = false; for (size_t j = 0; j < t->cols.size(); j++) if (ieq(t->cols[j], cn)) { nr[j] = affine(eval(x, e), t->aff[j]); ok = true; } if (!ok) throw Err{SQLITE_ERROR, "no such column: " + cn}; } notNull(*t, nr); size_t w; if (clash(*t, nr, t->pk >= 0 ? nr[t->pk].i : t->ids[i], i, w)) { if (s.conflict == 'i') continue; throw Err{SQLITE_CONSTRAINT | 8 << 8, "UNIQUE constraint failed"}; } vector<Val> was = t->rows[i]; t->rows[i] = nr; if (t->pk >= 0) t->ids[i] = nr[t->pk].i; c->changes++; c->total++; fire(c, *t, "update", &was, &nr);
                if (s.ret) { f[0].t->rows[i] = nr; x.row = {&f[0].t->rows[i]}; vector<Val> o; for (E* e : s.ret->out) { if (e->op == '*') { for (auto& v : nr) o.push_back(v); } else o.push_back(eval(x, e)); } st->rows.push_back(o); } }
            break; }
        case CREATE: {
            if (find(state(c), s.name, false)) { if (s.ifne) break; throw Err{SQLITE_ERROR, s.type + " " + s.name + " already exists"}; }
            auto t = std::make_shared<Table>(); t->name = s.name; t->type = s.type; t->sql = trimSql(s.sql); if (s.type == "table") for (auto& d : s.defs) columnDef(*t, d); if (s.type == "trigger") { t->tbl = s.table; t->op = s.arg; t->dflt = s.defs; if (!find(state(c), s.table)) throw Err{SQLITE_ERROR, "no such table: " + s.table}; } if (s.type == "index") { t->tbl = s.table; TP b = find(state(c), s.table); if (!b) throw Err{SQLITE_ERROR, "no such table: " + s.table}; if (s.unique) { b = writable(c, s.table); vector<int> u; for (auto& n : s.cols) for (size_t i = 0; i < b->cols.size(); i++) if (ieq(b->cols[i], n)) u.push_back(i); b->uniq.push_back(u); } }
            state(c).t.push_back(t); ddl(c); c->wr.insert(low(s.name)); break; }
        case DROP: { State& q = state(c); bool f = false; for (size_t i = 0; i < q.t.size(); i++) if (ieq(q.t[i]->name, s.table)) { q.t.erase(q.t.begin() + i); f = true; break; } if (!f) { if (s.ifne) break; throw Err{SQLITE_ERROR, "no such table: " + s.table}; } ddl(c); break; }
        case ALTER: { TP t = writable(c, s.table); if (!t) throw Err{SQLITE_ERROR, "no such table: " + s.table}; columnDef(*t, s.defs[0]); for (auto& r : t->rows) r.push_back(Val()); t->sql = t->sql.substr(0, t->sql.size() - 1) + ", " + s.defs[0] + " )"; ddl(c); break; }
        case PRAGMA:
            if (s.name == "schema_version") { st->heads = {"schema_version"}; st->rows = {{vint(state(c).schema)}}; }
            else if (s.name == "journal_mode") { if (s.hasArg) c->mode = low(s.arg); st->heads = {"journal_mode"}; st->rows = {{vtext(c->mode)}}; }
            else if (s.name == "page_count") { st->heads = {"page_count"}; st->rows = {{vint(1)}}; }
            else if (s.name == "noop_update") c->noop = low(s.arg) == "on";
            else if (s.name == "recursive_triggers") c->recTrig = s.arg == "1" || low(s.arg) == "on" || low(s.arg) == "true";
            else if (s.name == "query_only") c->queryOnly = low(s.arg) == "true";
            break;
        case BEGIN: if (c->tx) throw Err{SQLITE_ERROR, "cannot start a transaction within a transaction"}; c->tx = true; c->snap = false; c->wrote = false; c->rd.clear(); c->wr.clear(); if (s.arg == "immediate") state(c); break;
        case COMMIT: commitTx(c); break;
        case ROLLBACK: if (!c->tx) throw Err{SQLITE_ERROR, "cannot rollback - no transaction is active"}; dropTx(c); break;
        default: break;
    }
    } catch (...) { if (autoTx) dropTx(c); throw; }
    if (autoTx) commitTx(c);
}
// ---- authorization ----
static bool selCol(sqlite3* c, Sel* s, const string& n) { for (size_t i = 0; i < s->out.size(); i++) { if (s->out[i]->op != '*') { if (ieq(s->as[i], n)) return true; continue; } for (auto& f : s->from) { if (f.sub) { if (selCol(c, f.sub, n)) return true; continue; } if (TP t = find(state(c), f.name)) for (auto& k : t->cols) if (ieq(k, n)) return true; } } return false; }
static bool isCol(sqlite3* c, Sel* s, vector<Sel*>& stack, E* e, string& tab) {
    for (size_t k = stack.size(); k-- > 0;) for (auto& f : stack[k]->from) { if (!e->tab.empty() && !ieq(e->tab, f.alias)) continue; if (f.sub) { if (selCol(c, f.sub, e->n)) { tab = ""; return true; } continue; } if (ieq(f.name, "sqlite_master") || ieq(f.name, "sqlite_schema")) { if (ieq(e->n, "type") || ieq(e->n, "name") || ieq(e->n, "tbl_name") || ieq(e->n, "sql")) { tab = "sqlite_master"; return true; } continue; } TP t = find(state(c), f.name); if (!t) continue; if (t->type == "view") { tab = f.name; return true; } for (auto& n : t->cols) if (ieq(n, e->n)) { tab = t->name; return true; } if (ieq(e->n, "rowid") || ieq(e->n, "_rowid_")) { tab = t->name; return true; } }
    return false;
}
struct AuthCx { sqlite3* c; int rc = 0; string msg; vector<Sel*> stack; };
static int ask(AuthCx& a, int code, const char* x, const char* y, const char* z = nullptr) { if (!a.c->auth) return 0; int r = a.c->auth(a.c->authArg, code, x, y, z, nullptr); if (r == SQLITE_DENY) { a.rc = SQLITE_AUTH; a.msg = "not authorized"; } return r; }
static void authSel(AuthCx& a, Sel* s);
static void authE(AuthCx& a, E* e) {
    if (!e || a.rc) return;
    if (e->op == 'c') { string tab; bool f = isCol(a.c, nullptr, a.stack, e, tab); if (!f) { a.rc = SQLITE_ERROR; a.msg = "no such column: " + e->n; return; } if (!tab.empty() && ask(a, SQLITE_READ, tab.c_str(), e->n.c_str(), "main") == SQLITE_IGNORE) e->ign = true; }
    if (e->op == 'f' && e->n != "cast" && ask(a, SQLITE_FUNCTION, nullptr, e->n.c_str()) == SQLITE_IGNORE) e->ign = true;
    if (a.rc) return;
    for (E* k : e->a) authE(a, k); if (e->sub) authSel(a, e->sub);
}
static void authSel(AuthCx& a, Sel* s) {
    for (; s && !a.rc; s = s->next) {
        ask(a, SQLITE_SELECT, nullptr, nullptr); if (a.rc) return; a.stack.push_back(s);
        for (auto& f : s->from) { if (f.sub) { authSel(a, f.sub); continue; } if (!ieq(f.name, "sqlite_master") && !ieq(f.name, "sqlite_schema") && !find(state(a.c), f.name)) { a.rc = SQLITE_ERROR; a.msg = "no such table: " + f.name; a.stack.pop_back(); return; } }
        bool plain = true; for (auto& f : s->from) if (f.sub || !find(state(a.c), f.name)) plain = false;
        vector<E*> out; vector<string> as;
        for (size_t i = 0; i < s->out.size(); i++) { E* e = s->out[i]; if (e->op != '*' || !plain) { if (e->op != '*') authE(a, e); out.push_back(e); as.push_back(s->as[i]); continue; } for (auto& f : s->from) { if (!e->tab.empty() && !ieq(e->tab, f.alias)) continue; TP t = find(state(a.c), f.name); for (auto& n : t->cols) { E* k = new E; k->op = 'c'; k->n = n; k->tab = f.alias; authE(a, k); out.push_back(k); as.push_back(n); } } }
        s->out = out; s->as = as;
        for (auto& f : s->from) authE(a, f.on); authE(a, s->where); for (E* e : s->group) authE(a, e); authE(a, s->having);
        for (E* e : s->ord) { bool al = e->op == 'l'; if (e->op == 'c') for (auto& n : s->as) if (ieq(n, e->n)) al = true; if (!al) authE(a, e); }
        a.stack.pop_back();
    }
}
static void authorize(AuthCx& a, Stmt& s) {
    switch (s.k) {
        case SELECT: authSel(a, s.sel); break;
        case INSERT: { TP t = find(state(a.c), s.table); if (!t) { a.rc = SQLITE_ERROR; a.msg = "no such table: " + s.table; return; } ask(a, SQLITE_INSERT, t->name.c_str(), nullptr, "main"); if (a.rc) return; Sel d; Src f; f.name = f.alias = s.table; d.from.push_back(f); if (s.sel) authSel(a, s.sel); for (auto& r : s.rows) for (E* e : r) authE(a, e); a.stack.push_back(&d); if (s.ret) for (E* e : s.ret->out) if (e->op != '*') authE(a, e); a.stack.pop_back(); break; }
        case UPDATE: case DELETE: { TP t = find(state(a.c), s.table); if (!t) { a.rc = SQLITE_ERROR; a.msg = "no such table: " + s.table; return; } if (s.k == DELETE) ask(a, SQLITE_DELETE, t->name.c_str(), nullptr, "main"); else for (auto& x : s.sets) ask(a, SQLITE_UPDATE, t->name.c_str(), x.first.c_str(), "main"); if (a.rc) return; Sel d; Src f; f.name = f.alias = s.table; d.from.push_back(f); a.stack.push_back(&d); for (auto& x : s.sets) authE(a, x.second); authE(a, s.where); if (s.ret) for (E* e : s.ret->out) if (e->op != '*') authE(a, e); a.stack.pop_back(); break; }
        case CREATE: ask(a, s.type == "table" ? SQLITE_CREATE_TABLE : s.type == "index" ? SQLITE_CREATE_INDEX : s.type == "trigger" ? SQLITE_CREATE_TRIGGER : SQLITE_CREATE_VIEW, s.name.c_str(), s.type == "index" || s.type == "trigger" ? s.table.c_str() : nullptr, "main"); break;
        case DROP: ask(a, s.type == "table" ? SQLITE_DROP_TABLE : s.type == "index" ? SQLITE_DROP_INDEX : s.type == "trigger" ? SQLITE_DROP_TRIGGER : SQLITE_DROP_VIEW, s.table.c_str(), nullptr, "main"); break;
        case ALTER: ask(a, SQLITE_ALTER_TABLE, "main", s.table.c_str()); break;
        case PRAGMA: ask(a, SQLITE_PRAGMA, s.name.c_str(), s.hasArg ? s.arg.c_str() : nullptr); break;
        case BEGIN: ask(a, SQLITE_TRANSACTION, "BEGIN", nullptr); break;
        case COMMIT: ask(a, SQLITE_TRANSACTION, "COMMIT", nullptr); break;
        case ROLLBACK: ask(a, SQLITE_TRANSACTION, "ROLLBACK", nullptr); break;
        case OTHER: ask(a, s.name == "analyze" ? SQLITE_ANALYZE : s.name == "reindex" ? SQLITE_REINDEX : s.name == "attach" ? SQLITE_ATTACH : s.name == "detach" ? SQLITE_DETACH : SQLITE_SAVEPOINT, nullptr, nullptr); break;
    }
}
static string literal(const Val& v) { if (v.null()) return "NULL"; if (v.t == SQLITE_TEXT) { string r = "'"; for (char ch : v.s) { if (ch == '\'') r += '\''; r += ch; } return r + "'"; } if (v.t == SQLITE_BLOB) { string r = "x'"; for (unsigned char ch : v.s) { r += "0123456789abcdef"[ch >> 4]; r += "0123456789abcdef"[ch & 15]; } return r + "'"; } return numstr(v); }
}
extern "C" {
int sqlite3_initialize() { return 0; } int sqlite3_config(int, ...) { return 0; } int sqlite3_threadsafe() { return 2; }
int sqlite3_open_v2(const char* f0, sqlite3** out, int, const char*) { Atomic at; if (!dbs) { dbs = new map<string, Db*>; conns = new vector<sqlite3*>; } string f = f0; f = f.substr(0, f.find('#')); Db*& d = (*dbs)[f]; if (!d) { d = new Db; d->file = f; } *out = new sqlite3; (*out)->db = d; conns->push_back(*out); return SQLITE_OK; }
int sqlite3_close(sqlite3* c) { Atomic at; if (!c) return 0; if (c->open) return SQLITE_BUSY; delete c; return 0; }
int sqlite3_close_v2(sqlite3* c) { Atomic at; return sqlite3_close(c); }
int sqlite3_prepare_v3(sqlite3* c, const char* z, int n, unsigned, sqlite3_stmt** out, const char** tail) { Atomic at;
    *out = nullptr; size_t len = n < 0 ? strlen(z) : n; c->err = c->ext = 0; c->msg.clear();
    auto st = new sqlite3_stmt; st->c = c; Parser p; p.arena = &st->arena; p.sels = &st->sels; p.params = &st->params; size_t used = p.lex(z, len); if (tail) *tail = z + used;
    auto drop = [&]() { for (auto e : st->arena) delete e; for (auto s : st->sels) delete s; delete st; };
    if (p.err.empty() && p.t.size() == 1) { drop(); return SQLITE_OK; }
    if (p.err.empty()) { st->s.sql = string(z, used); p.parse(st->s); }
    if (!p.err.empty()) { drop(); return seterr(c, SQLITE_ERROR, p.err); }
    for (auto& t : p.t) if (t.k == 'p') { st->ppos.push_back({t.b, t.e}); int ix = -1; for (size_t i = 0; i < st->params.size(); i++) if (st->params[i] == t.s) ix = i; st->pidx.push_back(ix); }
    { int q = 0; for (size_t i = 0; i < st->ppos.size(); i++) if (st->ppos[i].second - st->ppos[i].first == 1) { while (q < (int)st->params.size() && !st->params[q].empty()) q++; st->pidx[i] = q++; } }
    st->bound.resize(st->params.size());
    int f = vp_sqlite_fault(c, 0, st->s.sql.c_str()); if (f) { drop(); if (f & VP_AUTOROLLBACK) { dropTx(c); f &= ~VP_AUTOROLLBACK; } return seterr(c, f, "injected fault"); }
    AuthCx a; a.c = c; authorize(a, st->s); if (a.rc) { string m = a.msg; int rc = a.rc; drop(); return seterr(c, rc, m); }
    if (st->s.k == SELECT) { for (size_t i = 0; i < st->s.sel->out.size(); i++) { E* e = st->s.sel->out[i]; if (e->op != '*') { st->heads.push_back(st->s.sel->as[i]); continue; } for (auto& s : st->s.sel->from) { if (s.sub) { for (auto& h : s.sub->as) st->heads.push_back(h); continue; } if (ieq(s.name, "sqlite_master") || ieq(s.name, "sqlite_schema")) { for (auto h : {"type", "name", "tbl_name", "rootpage", "sql"}) st->heads.push_back(h); continue; } TP t = find(state(c), s.name); if (t) for (auto& h : t->cols) st->heads.push_back(h); } } }
    else if (st->s.k == PRAGMA && (st->s.name == "schema_version" || st->s.name == "journal_mode" || st->s.name == "page_count")) st->heads = {st->s.name};
    else if (st->s.ret) st->heads = st->s.ret->as;
    c->open++; *out = st; return SQLITE_OK;
}
int sqlite3_prepare_v2(sqlite3* c, const char* z, int n, sqlite3_stmt** out, const char** tail) { return sqlite3_prepare_v3(c, z, n, 0, out, tail); }
int sqlite3_finalize(sqlite3_stmt* st) { if (!st) return 0; Atomic at; for (auto e : st->arena) delete e; for (auto s : st->sels) delete s; st->c->open--; delete st; return 0; }
int sqlite3_reset(sqlite3_stmt* st) { st->ran = st->done = false; st->rows.clear(); st->at = 0; return 0; }
int sqlite3_step(sqlite3_stmt* st) {
    sqlite3* c = st->c; if (st->done) return SQLITE_MISUSE;
    if (!st->ran) {
        vp_sched(); Atomic at; c->err = c->ext = 0; c->msg.clear();
        bool mod = st->s.k == INSERT || st->s.k == UPDATE || st->s.k == DELETE;
        int f = vp_sqlite_fault(c, 1, st->s.sql.c_str()); if (f) { st->done = true; if (f & VP_AUTOROLLBACK) { dropTx(c); f &= ~VP_AUTOROLLBACK; } return seterr(c, f, "injected fault"); }
        if (c->trace) c->trace(SQLITE_TRACE_STMT, c->traceArg, st, nullptr);
        if ((mod || st->s.k == SELECT) && c->prog && vp_sqlite_progress() && c->prog(c->progArg)) { st->done = true; if (mod && c->tx) dropTx(c); return seterr(c, SQLITE_INTERRUPT, "interrupted"); }
        try { exec(st); } catch (Err& e) { st->done = true; return seterr(c, e.code, e.msg); }
        st->ran = true; st->at = 0;
    } else st->at++;
    if (st->at < st->rows.size()) return SQLITE_ROW;
    st->done = true; return SQLITE_DONE;
}
static int bindv(sqlite3_stmt* st, int i, Val v) { if (i < 1 || i > (int)st->bound.size()) return seterr(st->c, SQLITE_RANGE, "column index out of range"); st->bound[i - 1] = std::move(v); return 0; }
int sqlite3_bind_parameter_index(sqlite3_stmt* st, const char* n) { for (size_t i = 0; i < st->params.size(); i++) if (st->params[i] == n) return i + 1; return 0; }
int sqlite3_bind_null(sqlite3_stmt* st, int i) { return bindv(st, i, Val()); }
int sqlite3_bind_int64(sqlite3_stmt* st, int i, sqlite3_int64 v) { return bindv(st, i, vint(v)); }
int sqlite3_bind_double(sqlite3_stmt* st, int i, double v) { return bindv(st, i, vreal(v)); }
int sqlite3_bind_text(sqlite3_stmt* st, int i, const char* z, int n, void (*)(void*)) { return bindv(st, i, z ? vtext(n < 0 ? string(z) : string(z, n)) : Val()); }
int sqlite3_bind_blob(sqlite3_stmt* st, int i, const void* z, int n, void (*)(void*)) { if (!z) return bindv(st, i, Val()); Val v = vtext(string((const char*)z, n)); v.t = SQLITE_BLOB; return bindv(st, i, v); }
int sqlite3_column_count(sqlite3_stmt* st) { return st->heads.size(); }
const char* sqlite3_column_name(sqlite3_stmt* st, int i) { return i < (int)st->heads.size() ? st->heads[i].c_str() : nullptr; }
static Val* colv(sqlite3_stmt* st, int i) { return st->at < st->rows.size() && i < (int)st->rows[st->at].size() ? &st->rows[st->at][i] : nullptr; }
int sqlite3_column_type(sqlite3_stmt* st, int i) { Val* v = colv(st, i); return v ? v->t : SQLITE_NULL; }
sqlite3_int64 sqlite3_column_int64(sqlite3_stmt* st, int i) { Val* v = colv(st, i); return v ? i64(*v) : 0; }
double sqlite3_column_double(sqlite3_stmt* st, int i) { Val* v = colv(st, i); return v ? dbl(*v) : 0; }
const unsigned char* sqlite3_column_text(sqlite3_stmt* st, int i) { Val* v = colv(st, i); if (!v || v->null()) return nullptr; if (v->t == SQLITE_INTEGER || v->t == SQLITE_FLOAT) v->s = numstr(*v); return (const unsigned char*)v->s.c_str(); }
const void* sqlite3_column_blob(sqlite3_stmt* st, int i) { Val* v = colv(st, i); return !v || v->null() || v->s.empty() ? nullptr : v->s.data(); }
int sqlite3_column_bytes(sqlite3_stmt* st, int i) { Val* v = colv(st, i); return v ? (int)text(*v).size() : 0; }
char* sqlite3_expanded_sql(sqlite3_stmt* st) {
    string r; size_t at = 0; for (size_t i = 0; i < st->ppos.size(); i++) { r.append(st->s.sql, at, st->ppos[i].first - at); r += st->pidx[i] >= 0 ? literal(st->bound[st->pidx[i]]) : "NULL"; at = st->ppos[i].second; } r.append(st->s.sql, at, string::npos);
    char* o = (char*)malloc(r.size() + 1); memcpy(o, r.c_str(), r.size() + 1); return o;
}
const char* sqlite3_normalized_sql(sqlite3_stmt* st) { return st->s.sql.c_str(); }
const char* sqlite3_sql(sqlite3_stmt* st) { return st->s.sql.c_str(); }
void sqlite3_free(void* p) { free(p); } void* sqlite3_malloc64(sqlite3_uint64 n) { return malloc(n); } void* sqlite3_malloc(int n) { return malloc(n); }
const char* sqlite3_errmsg(sqlite3* c) { return c->msg.empty() ? "not an error" : c->msg.c_str(); } const char* sqlite3_errstr(int) { return "error"; }
int sqlite3_extended_errcode(sqlite3* c) { return c->ext; } int sqlite3_errcode(sqlite3* c) { return c->err; } int sqlite3_error_offset(sqlite3*) { return -1; }
int sqlite3_total_changes(sqlite3* c) { return c->total; } int sqlite3_changes(sqlite3* c) { return c->changes; } sqlite3_int64 sqlite3_last_insert_rowid(sqlite3* c) { return c->lastRow; }
int sqlite3_get_autocommit(sqlite3* c) { return !c->tx; }
int sqlite3_db_status(sqlite3*, int, int* a, int* b, int) { *a = *b = 0; return 0; } int sqlite3_file_control(sqlite3*, const char*, int, void*) { return 0; }
void* sqlite3_wal_hook(sqlite3* c, int (*f)(void*, sqlite3*, const char*, int), void* a) { c->wal = f; c->walArg = a; return nullptr; }
int sqlite3_wal_checkpoint_v2(sqlite3*, const char*, int, int* a, int* b) { vp_sched(); if (a) *a = 0; if (b) *b = 0; return 0; }
int sqlite3_set_authorizer(sqlite3* c, int (*f)(void*, int, const char*, const char*, const char*, const char*), void* a) { c->auth = f; c->authArg = a; return 0; }
void sqlite3_progress_handler(sqlite3* c, int, int (*f)(void*), void* a) { c->prog = f; c->progArg = a; }
int sqlite3_trace_v2(sqlite3* c, unsigned, int (*f)(unsigned, void*, void*, void*), void* a) { c->trace = f; c->traceArg = a; return 0; }
int sqlite3_busy_timeout(sqlite3*, int) { return 0; }
int sqlite3_create_function_v2(sqlite3* c, const char* n, int k, int, void* a, void (*f)(sqlite3_context*, int, sqlite3_value**), void (*)(sqlite3_context*, int, sqlite3_value**), void (*)(sqlite3_context*), void (*)(void*)) { c->fns.push_back({low(n), k, f, a}); return 0; }
int sqlite3_stmt_readonly(sqlite3_stmt* st) { Kind k = st->s.k; return k == SELECT || k == BEGIN || k == COMMIT || k == ROLLBACK || (k == PRAGMA && !(st->s.hasArg && st->s.name == "schema_version")); }
const char* sqlite3_db_filename(sqlite3* c, const char*) { return c->db->file.c_str(); }
int sqlite3_value_type(sqlite3_value* v) { return v->v.t; } sqlite3_int64 sqlite3_value_int64(sqlite3_value* v) { return i64(v->v); }
const void* sqlite3_value_blob(sqlite3_value* v) { if (v->v.t == SQLITE_INTEGER || v->v.t == SQLITE_FLOAT) v->v.s = numstr(v->v); return v->v.null() ? nullptr : v->v.s.data(); } const unsigned char* sqlite3_value_text(sqlite3_value* v) { return (const unsigned char*)sqlite3_value_blob(v); } int sqlite3_value_bytes(sqlite3_value* v) { return (int)text(v->v).size(); }
void sqlite3_result_error(sqlite3_context* x, const char* m, int) { x->bad = true; x->err = m; } void sqlite3_result_error_nomem(sqlite3_context* x) { x->bad = true; x->err = "out of memory"; }
void sqlite3_result_null(sqlite3_context* x) { x->r = Val(); } void sqlite3_result_value(sqlite3_context* x, sqlite3_value* v) { x->r = v->v; }
static void fin(void* p, void (*d)(void*)) { if (d && d != SQLITE_TRANSIENT) d(p); }
void sqlite3_result_text(sqlite3_context* x, const char* z, int n, void (*d)(void*)) { x->r = vtext(n < 0 ? string(z) : string(z, n)); fin((void*)z, d); }
void sqlite3_result_blob(sqlite3_context* x, const void* z, int n, void (*d)(void*)) { x->r = vtext(string((const char*)z, n)); x->r.t = SQLITE_BLOB; fin((void*)z, d); }
int sqlite3_format_query_result(sqlite3_stmt* st, const sqlite3_qrf_spec*, char** e) { while (true) { int r = sqlite3_step(st); if (r == SQLITE_ROW) continue; if (r == SQLITE_DONE) return 0; if (e) { *e = (char*)malloc(8); memcpy(*e, "error", 6); } return r; } }
int sqlite3_qrf_wcwidth(int) { return 1; } size_t sqlite3_qrf_wcswidth(const char* s) { return strlen(s); }
}
// Asks the registered authorizer, as SQLite does while it prepares a statement.
extern "C" int vp_sqlite_auth(sqlite3* c, int code, const char* a, const char* b, const char* d, const char* e) { return c->auth ? c->auth(c->authArg, code, a, b, d, e) : SQLITE_OK; }
