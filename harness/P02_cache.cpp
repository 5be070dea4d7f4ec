//VP property: P02
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteUtils.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp plugins/Cache.cpp BedrockCommand.cpp BedrockCore.cpp BedrockServer.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp BedrockConflictManager.cpp ConflictLockGuard.cpp BedrockPlugin.cpp VMTouch.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp shared_lock.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case use: quick MODE=0 OPS=3 | thorough MODE=0 OPS=4 | reach end evicted found missing replaced invalidated refused
//VP case text: quick MODE=1 N=2 | thorough MODE=1 N=3 | reach end
//VP case size: quick MODE=2 | thorough MODE=2 | reach end
//VP bound: use: OPS reads and writes of up to three names (values of 1 to 3 bytes, with and without invalidation, in header or body) in a cache of 4 bytes, on either of two database handles of the server, with a restart anywhere; text: a name of one and a value of up to N characters, each plain, upper case, a quote of either kind, a backslash, a wildcard, a separator, a newline or not ASCII; size: any limit of one or two digits with every suffix
//VP assume: SQLite behaves as env/sqlite_model.cpp; values are single-byte characters
#include "server.h"
#include <plugins/Cache.h>
SQLiteClusterMessenger::SQLiteClusterMessenger(const shared_ptr<const SQLiteNode>& n) : _node(n) {}
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, bool) { return false; }
vector<SData> SQLiteClusterMessenger::runOnAll(const SData&) { return {}; }
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, const string&) { return true; }
struct R { string err, name, content; };
static R call(BedrockPlugin_Cache& p, SQLite& db, SData q) { R r; auto c = p.getCommand(SQLiteCommand(move(q))); db.beginTransaction(); try { if (!c->peek(db)) c->process(db); db.prepare(); db.commit(); } catch (const SException& e) { r.err = e.what(); db.rollback(); } r.name = c->response["name"]; r.content = c->response.content; return r; }
static map<string, string> all(SQLite& db) { SQResult r; SQuery(db.getDBHandle(), "SELECT name, value FROM cache;", r); map<string, string> m; for (auto& x : r) m[x[0]] = x[1]; return m; }
static size_t total(const map<string, string>& m) { size_t n = 0; for (auto& x : m) n += x.second.size(); return n; }
void vp_main() {
    quiet(); vp_nosched(1); size_t mode = vp_param("MODE"); SData args; args["-cache.max"] = "4";
    if (mode == 2) { const char d1 = vp_range("digit", '1', '9'), d2 = vp_range("digit", '0', '9'); bool two = vp_choice("two", 2); static const char* suffix[] = {"", "KB", "kb", "MB", "mB", "GB", "Gb"}; static const int64_t unit[] = {1, 1024, 1024, 1 << 20, 1 << 20, 1 << 30, 1 << 30}; int k = vp_choice("suffix", 7); string t(1, d1); if (two) t += d2; int64_t n = d1 - '0'; if (two) n = n * 10 + (d2 - '0'); vp_check(BedrockPlugin_Cache::initCacheSize(t + suffix[k]) == n * unit[k], "the-limit-is-as-configured"); vp_reach("end"); return; }
    if (mode == 1) args["-cache.max"] = "1KB";
    Sv v = mkServer("/nonexistent/a.db", 1, St::LEADING, args); BedrockServer& s = *v.s; SQLite& base = v.pool->getBase(); auto p = make_unique<BedrockPlugin_Cache>(s); base.beginTransaction(); p->upgradeDatabase(base); base.prepare(); base.commit(); SQLiteScopedHandle other(*v.pool, v.pool->getIndex());
    if (mode == 1) { string name, val; static const char set[] = "a'\"\\%A;\n\xc3-"; auto word = [&](size_t max, const char* what) { string r; size_t n = 1 + vp_choice("length", max); for (size_t i = 0; i < n; i++) r += set[vp_choice(what, 10)]; return r; }; name = word(1, "name"); val = word(vp_param("N"), "value"); SData w("WriteCache"); w["name"] = name; if (vp_choice("body", 2)) w.content = val; else w["value"] = val; vp_check(call(*p, other.db(), w).err.empty(), "a-value-is-stored"); SData q("ReadCache"); q["name"] = name; R r = call(*p, base, q); vp_check(r.err.empty() && r.name == name && r.content == val, "the-value-stored-is-read-back"); vp_reach("end"); return; }
    map<string, string> was; vector<string> used; bool known = true; for (size_t op = 0; op < vp_param("OPS"); op++) {
        enum { WRITE, INVALIDATE, BIG, READ, GLOB, RESTART, KINDS }; int kind = vp_choice("op", KINDS); SQLite& db = vp_choice("handle", 2) ? other.db() : base; 
        if (kind == RESTART) { vp_assume(known && op); p = make_unique<BedrockPlugin_Cache>(s); known = false; continue; }
        size_t pick = vp_choice("name", op < 2 ? op + 1 : 3); string name(1, "abc"[pick]); SData q(kind >= READ ? "ReadCache" : "WriteCache"); q["name"] = kind == GLOB ? "[" + name + "c]" : name; if (kind == GLOB) vp_assume(pick == 0);
        if (kind >= READ) { R r = call(*p, db, q); auto has = [&](const string& n) { return was.count(n) > 0; }; bool any = has(name) || (kind == GLOB && has("c")); if (!any) { vp_check(SStartsWith(r.err, "404"), "what-is-not-there-is-not-found"); vp_reach("missing"); } else { vp_check(r.err.empty() && (r.name == name || (kind == GLOB && r.name == "c")) && has(r.name) && r.content == was[r.name], "a-read-gives-the-last-value-written"); vp_reach("found"); used.erase(remove(used.begin(), used.end(), r.name), used.end()); used.push_back(r.name); } vp_check(all(db) == was, "a-read-changes-nothing"); continue; }
        string val(kind == BIG ? 5 : kind == INVALIDATE ? 1 : 1 + vp_choice("bytes", 3), 'p' + op); string gone = "b"; if (kind == INVALIDATE) { q["invalidateName"] = vp_choice("pattern", 2) ? "*" : gone; if (q["invalidateName"] == "*") gone = "abc"; } if (kind == WRITE && op & 1) q.content = val; else q["value"] = val;
        R r = call(*p, db, q); auto now = all(db); if (kind == BIG) { vp_check(SStartsWith(r.err, "402") && now == was, "what-cannot-fit-is-refused"); vp_reach("refused"); continue; }
        vp_check(r.err.empty() && now.count(name) && now[name] == val, "a-write-stores-its-value"); SQResult z; SQuery(db.getDBHandle(), "SELECT size FROM cacheSize;", z); vp_check(z.size() == 1 && SToInt64(z[0][0]) == (int64_t)total(now), "the-recorded-size-is-the-real-one"); vp_check(total(now) <= 4, "the-cache-stays-within-its-limit"); auto left = was; if (kind == INVALIDATE) { for (char c : gone) left.erase(string(1, c)); vp_reach("invalidated"); } if (left.count(name)) vp_reach("replaced");
        vector<string> out; for (auto& x : left) if (x.first != name) { if (!now.count(x.first)) out.push_back(x.first); else vp_check(now[x.first] == x.second, "other-values-are-untouched"); } for (auto& x : now) vp_check(x.first == name || left.count(x.first), "nothing-else-appears");
        if (out.size()) { vp_reach("evicted"); vp_check(total(left) + val.size() > 4, "nothing-is-evicted-while-there-is-room"); if (known) for (auto& o : out) for (auto& x : now) if (x.first != name) vp_check(find(used.begin(), used.end(), o) < find(used.begin(), used.end(), x.first), "the-least-recently-used-goes-first"); }
        used.erase(remove(used.begin(), used.end(), name), used.end()); used.push_back(name); was = now; }
    vp_reach("end");
}
