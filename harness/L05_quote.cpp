//VP property: L05
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp
//VP case text: quick KIND=0 N=6 | thorough KIND=0 N=9
//VP case list: quick KIND=1 N=4 | thorough KIND=1 N=5
//VP case ints: quick KIND=2 N=4 | thorough KIND=2 N=5
//VP case composed: quick KIND=3 N=2 | thorough KIND=3 N=3
//VP reach: quoted
//VP bound: every NUL-free byte string up to N bytes
#include "../rt/vp.h"
#include "common.h"
// SQLite's own literal rule: a quote opens, two quotes are one quote, the next single quote closes. Returns the position after the literal, or npos.
static size_t literal(const string& s, size_t p, string& out) { if (p >= s.size() || s[p] != '\'') return string::npos; p++; while (p < s.size()) { if (s[p] == '\'') { if (p + 1 < s.size() && s[p + 1] == '\'') { out += '\''; p += 2; continue; } return p + 1; } out += s[p++]; } return string::npos; }
static string text(const char* n, size_t lo, size_t hi) { string s = vp_str(n, lo, hi); for (char c : s) vp_assume(c != 0); return s; }
extern "C" void vp_main() {
    quiet(); int kind = vp_param("KIND"), N = vp_param("N");
    if (kind == 0) {
        string v = text("v", 0, N), q = SQ(v), back; size_t e = literal(q, 0, back);
        vp_reach("quoted");
        vp_check(e == q.size(), "a quoted value ends before or after its closing quote");
        vp_check(back == v, "a quoted value does not denote the original text");
        vp_check(SQ(v.c_str()) == q, "quoting depends on how the text is passed");
    } else if (kind == 1) {
        string v = text("v", 0, N), q = SQList(v, false); list<string> want = SParseList(v); size_t p = 0; bool ok = true; size_t i = 0;
        for (auto& w : want) { string back; if (i++) { if (q.substr(p, 2) != ", ") { ok = false; break; } p += 2; } size_t e = literal(q, p, back); if (e == string::npos || back != w) { ok = false; break; } p = e; }
        vp_reach("quoted");
        vp_check(ok && p == q.size(), "a quoted list is not exactly its items as literals");
    } else if (kind == 2) {
        string v = text("v", 0, N), q = SQList(v, true);
        vp_reach("quoted");
        bool ok = true; for (size_t i = 0; i < q.size(); i++) { char c = q[i]; bool dig = c >= '0' && c <= '9'; if (!(dig || (c == '-' && (i == 0 || q[i - 1] == ' ')) || (c == ',' && i && q[i - 1] >= '0' && q[i - 1] <= '9' && i + 1 < q.size() && q[i + 1] == ' ') || (c == ' ' && i && q[i - 1] == ','))) ok = false; }
        vp_check(ok, "an integer list contains something that is not an integer");
        list<string> items = SParseList(v); size_t ints = 0; for (auto& s : items) { if (SToStr(SToInt64(s)) == s) ints++; } size_t got = q.empty() ? 0 : SParseList(q).size();
        vp_check(got == ints, "an integer list drops integers or keeps non-integers");
    } else {
        list<string> l = {text("a", 0, N), text("b", 0, N)}; string q = SQList(l), back; size_t p = literal(q, 0, back), e = string::npos; string b2;
        vp_reach("quoted");
        if (p != string::npos && q.substr(p, 2) == ", ") e = literal(q, p + 2, b2);
        vp_check(e == q.size() && back == l.front() && b2 == l.back(), "a composed list is not exactly its items as literals");
    }
}
