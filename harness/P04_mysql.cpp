//VP property: P04
//VP tus: libstuff/*.cpp sqlitecluster/SQLite.cpp sqlitecluster/SQLiteCore.cpp sqlitecluster/SQLitePool.cpp sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp sqlitecluster/SQLiteCommand.cpp plugins/Compression.cpp plugins/MySQL.cpp BedrockCommand.cpp BedrockCore.cpp BedrockServer.cpp BedrockCommandQueue.cpp BedrockBlockingCommandQueue.cpp BedrockConflictManager.cpp ConflictLockGuard.cpp BedrockPlugin.cpp VMTouch.cpp
//VP env: os_model.cpp sqlite_model.cpp zstd_model.cpp shared_lock.cpp pipe_model.cpp
//VP override: peer_net.cpp quiet_timing.cpp no_signals.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP threads: yes
//VP case packets: quick MODE=0 N=4 | thorough MODE=0 N=6 | reach end whole part
//VP case numbers: quick MODE=1 | thorough MODE=1 | reach end short long
//VP case rows: quick MODE=2 COLS=2 ROWS=2 N=2 | thorough MODE=2 COLS=2 ROWS=2 N=3 | reach end rows
//VP case dialogue: quick MODE=3 REQ=2 | thorough MODE=3 REQ=3 | reach end passed answered
//VP case reply: quick MODE=4 | thorough MODE=4 | reach end ok table error
//VP bound: packets: any bytes up to N, whole or cut; numbers: every 64-bit number; rows: any table up to COLS by ROWS with cells up to N bytes; dialogue: REQ client packets of every kind, arriving in one piece or cut anywhere; reply: any table or error answered by the server
//VP assume: client packets are under 16 MB
#include "server.h"
#include <plugins/MySQL.h>
#include <libstuff/SQResult.h>
SQLiteClusterMessenger::SQLiteClusterMessenger(const shared_ptr<const SQLiteNode>& n) : _node(n) {}
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, bool) { return false; }
vector<SData> SQLiteClusterMessenger::runOnAll(const SData&) { return {}; }
bool SQLiteClusterMessenger::runOnPeer(BedrockCommand&, const string&) { return true; }
struct P { int seq; string body; };
static vector<P> split(const string& w) { vector<P> v; size_t i = 0; while (i < w.size()) { vp_check(i + 4 <= w.size(), "whole-packets"); if (i + 4 > w.size()) break; size_t n = (unsigned char)w[i] | (unsigned char)w[i + 1] << 8 | (unsigned char)w[i + 2] << 16; vp_check(i + 4 + n <= w.size(), "whole-packets"); if (i + 4 + n > w.size()) break; v.push_back({(unsigned char)w[i + 3], w.substr(i + 4, n)}); i += 4 + n; } return v; }
static uint64_t num(const string& s, size_t& i) { unsigned char c = s[i++]; if (c < 251) return c; int n = c == 0xfc ? 2 : c == 0xfd ? 3 : c == 0xfe ? 8 : 0; vp_check(n > 0 && i + n <= s.size(), "well-formed-number"); uint64_t r = 0; for (int k = 0; k < n; k++) r |= (uint64_t)(unsigned char)s[i++] << (8 * k); return r; }
static string lstr(const string& s, size_t& i) { uint64_t n = num(s, i); vp_check(n <= s.size() - i, "well-formed-string"); string r = s.substr(i, n); i += n; return r; }
// What a MySQL client makes of a result: column count, columns, end, rows, end. Rows carry one trailing byte, which clients skip.
static bool table(const vector<P>& v, size_t& k, int seq, vector<string>& heads, vector<vector<string>>& rows) { auto next = [&](const char*) -> const string& { static string none; if (k >= v.size()) { vp_check(false, "complete-answer"); return none; } seq = (seq + 1) & 255; vp_check(v[k].seq == seq, "packets-are-numbered-in-order"); return v[k++].body; }; size_t i = 0; const string& c = next("count"); if (c.empty()) return false; uint64_t n = num(c, i); vp_check(i == c.size(), "column-count"); for (uint64_t q = 0; q < n; q++) { const string& d = next("column"); i = 0; for (int f = 0; f < 4; f++) lstr(d, i); heads.push_back(lstr(d, i)); lstr(d, i); vp_check(i < d.size() && d[i] == 12 && d.size() == i + 13, "column-description"); } const string& e = next("end"); vp_check(e.size() == 5 && (unsigned char)e[0] == 0xfe, "end-of-columns"); for (;;) { if (k >= v.size()) { vp_check(false, "complete-answer"); return false; } const string& r = next("row"); if (r.size() == 5 && (unsigned char)r[0] == 0xfe && k == v.size()) return true; i = 0; vector<string> row; for (uint64_t q = 0; q < n; q++) row.push_back(lstr(r, i)); vp_check(i == r.size() || i + 1 == r.size(), "row-has-every-column"); rows.push_back(row); } }
void vp_main() {
    quiet(); vp_nosched(1); size_t mode = vp_param("MODE"); Sv v = mkServer("/nonexistent/a.db", 1); BedrockServer& s = *v.s; BedrockPlugin_MySQL plug(s);
    if (mode == 0) { MySQLPacket p, q; p.sequenceID = vp_range("seq", 0, 255); p.payload = vp_str("payload", 0, vp_param("N")); string w = p.serialize(), tail = vp_str("tail", 0, 2); auto parts = split(w); vp_check(parts.size() == 1 && parts[0].seq == p.sequenceID && parts[0].body == p.payload, "a-packet-carries-its-payload"); string all = w + tail; size_t cut = vp_choice("cut", w.size() + 1); if (cut < w.size()) { char* mem = new char[cut + 1]; memcpy(mem, w.data(), cut); vp_check(q.deserialize(mem, cut) == 0, "part-of-a-packet-waits-for-the-rest"); delete[] mem; vp_reach("part"); } else { vp_check(q.deserialize(all.data(), all.size()) == (int)w.size() && q.payload == p.payload && q.sequenceID == p.sequenceID, "a-packet-is-read-back"); vp_reach("whole"); } }
    if (mode == 1) { uint64_t n = vp_u64("number"); string e = MySQLPacket::lenEncInt(n); size_t i = 0; unsigned char f = e[0]; vp_check(num(e, i) == n && i == e.size(), "numbers-are-read-back"); vp_check(f != 0xff && f != 0xfb, "a-number-is-not-taken-for-an-error"); vp_reach(e.size() == 1 ? "short" : "long"); }
    if (mode == 2) { size_t cols = vp_choice("columns", vp_param("COLS") + 1), rows = cols ? vp_choice("rows", vp_param("ROWS") + 1) : 0; vector<string> h; for (size_t c = 0; c < cols; c++) h.push_back(vp_str("header", 1, 1)); vector<SQResultRow> rs; vector<vector<string>> want; for (size_t r = 0; r < rows; r++) { SQResultRow row; vector<string> w; for (size_t c = 0; c < cols; c++) { string x = vp_str("cell", 0, r ? 1 : vp_param("N")); row.push_back(x); w.push_back(x); } rs.push_back(row); want.push_back(w); } auto heads = h; SQResult res(move(rs), move(heads)); int seq = vp_range("seq", 0, 255); auto parts = split(MySQLPacket::serializeQueryResponse(seq, res)); vector<string> gh; vector<vector<string>> gr; size_t k = 0; vp_check(table(parts, k, seq, gh, gr), "a-complete-answer"); vp_check(gh == h && gr == want, "the-client-reads-the-same-table"); if (rows) vp_reach("rows"); }
    if (mode == 3) { size_t N = vp_param("REQ"); enum { PING, INIT, SETQ, VERSIONQ, VARIABLE, SELECT, WRITEQ, SHOWT, KEYS_, EMPTYQ, KINDS }; vector<int> kind; string in; for (size_t i = 0; i < N; i++) { int k = vp_choice("kind", KINDS); kind.push_back(k); static const char* text[] = {"\x0e", "\x02main", "\x03SET NAMES utf8", "\x03SELECT VERSION()", "\x03SELECT @@version", "\x03SELECT 1", "\x03 INSERT INTO t VALUES (1); ", "\x03SHOW FULL TABLES", "\x03SHOW KEYS FROM `t`", ""}; MySQLPacket p; p.sequenceID = i * 7; p.payload = text[k]; in += p.serialize(); }
        size_t cut = vp_choice("cut", 3); size_t at = cut == 0 ? in.size() : cut == 1 ? in.size() - 1 : 4; if (at > in.size()) at = in.size(); vector<string> chunks = {in.substr(0, at)}; if (at < in.size()) chunks.push_back(in.substr(at)); Sock sock; sock.data = &plug; vector<string> passed; size_t asked = 0; string wire; 
        // As the server does it: hand over what arrived, run the request it makes (if any), then look at the rest of the buffer.
        auto serve = [&] { for (int guard = 0; guard < 8; guard++) { SData r; size_t had = sock.recvBuffer.size(); plug.onPortRecv(&sock, r); for (auto& o : sock.out) wire += o; sock.out.clear(); if (r.empty()) break; asked++; passed.push_back(r["query"]); BedrockCommand c(SQLiteCommand(move(r)), nullptr); c.response.methodLine = "200 OK"; plug.onPortRequestComplete(c, &sock); for (auto& o : sock.out) wire += o; sock.out.clear(); vp_check(sock.recvBuffer.size() < had, "makes-progress"); } };
        for (auto& c : chunks) { sock.recvBuffer.append(c.data(), c.size()); serve(); } vp_check(sock.recvBuffer.empty(), "every-packet-is-consumed"); auto parts = split(wire); size_t k = 0, pq = 0; for (size_t i = 0; i < N; i++) { int seq = i * 7, q = kind[i]; if (q == VERSIONQ || q == VARIABLE) { vp_check(k < parts.size() && parts[k].seq == seq + 1 && parts[k].body == string(1, 1), "answers-in-order"); if (k >= parts.size()) return; int sq = seq; vector<P> mine; size_t e = k, ends = 0; while (e < parts.size() && ends < 2) { if (parts[e].body.size() == 5 && (unsigned char)parts[e].body[0] == 0xfe) ends++; mine.push_back(parts[e++]); } vector<string> gh; vector<vector<string>> gr; size_t z = 0; table(mine, z, sq, gh, gr); vp_check(gr.size() <= 1 && (q == VARIABLE || (gr.size() == 1 && gr[0].size() == 1 && gr[0][0] == BedrockPlugin_MySQL::mysqlVersion)), "the-version-is-answered"); k = e; } else { vp_check(k < parts.size() && parts[k].seq == seq + 1 && parts[k].body.size() && !parts[k].body[0], "every-packet-is-answered-in-order"); k++; } if (q == SELECT || q == WRITEQ || q == SHOWT || q == KEYS_) { vp_check(pq < passed.size() && (q == SELECT ? passed[pq] == "SELECT 1;" : q == WRITEQ ? passed[pq] == "INSERT INTO t VALUES (1);" : q == SHOWT ? SContains(passed[pq], "sqlite_master") : SContains(passed[pq], "pragma_table_info('t')")), "queries-are-passed-on-in-order"); pq++; vp_reach("passed"); } else vp_reach("answered"); }
        vp_check(k == parts.size() && pq == passed.size(), "exactly-one-answer-each"); }
    if (mode == 4) { int kind = vp_choice("kind", 4); SData r("Query"); int seq = vp_range("seq", 0, 254); seq = vp_conc(seq & 3) + (seq >= 128 ? 250 : 0); r["sequenceID"] = to_string(seq); BedrockCommand c(SQLiteCommand(move(r)), nullptr); Sock sock; string cell = vp_str("cell", 0, 2); for (char& ch : cell) vp_assume(ch >= 'a' && ch <= 'f'); 
        if (kind == 0) c.response.methodLine = "200 OK"; else if (kind == 1) { c.response.methodLine = "200 OK"; c.response.content = "[{\"k\":\"" + cell + "\",\"n\":12},{\"k\":\"z\",\"n\":null}]"; } else if (kind == 2) { c.response.methodLine = "200 OK"; c.response.content = "[]"; } else { c.response.methodLine = "502 Query failed"; c.response["error"] = cell; } plug.onPortRequestComplete(c, &sock); string wire; for (auto& o : sock.out) wire += o; auto parts = split(wire); vp_check(parts.size() > 0 && parts[0].seq == ((seq + 1) & 255), "answered-with-the-next-number"); if (parts.empty()) return;
        if (kind == 0) { vp_check(parts.size() == 1 && parts[0].body[0] == 0, "success-is-ok"); vp_reach("ok"); } else if (kind == 3) { const string& b = parts[0].body; vp_check(parts.size() == 1 && (unsigned char)b[0] == 0xff && (unsigned char)b[1] == (502 & 255) && b[2] == 502 >> 8 && b.substr(3) == "Query failed " + cell, "failure-is-reported-with-its-code"); vp_reach("error"); } else { vector<string> gh; vector<vector<string>> gr; size_t k = 0; vp_check(table(parts, k, seq, gh, gr), "a-complete-answer"); if (kind == 1) vp_check(gh == vector<string>({"k", "n"}) && gr.size() == 2 && gr[0] == vector<string>({cell, "12"}) && gr[1] == vector<string>({"z", ""}), "the-client-reads-the-same-table"); else vp_check(gh.empty() && gr.empty(), "an-empty-table-is-empty"); vp_reach("table"); } }
    vp_reach("end");
}
