//VP property: L01
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp
//VP case value: quick KIND=0 N=3 | thorough KIND=0 N=4
//VP case body: quick KIND=1 N=6 | thorough KIND=1 N=12
//VP case method: quick KIND=2 N=3 | thorough KIND=2 N=5
//VP case names: quick KIND=3 N=2 | thorough KIND=3 N=2
//VP case cookies: quick KIND=4 N=2 | thorough KIND=4 N=3
//VP case flags: quick KIND=5 N=1 | thorough KIND=5 N=1
//VP case spelling: quick KIND=6 N=1 | thorough KIND=6 N=2
//VP reach: roundtrip
//VP bound: one message with a method line, up to two headers and a body; N free bytes in the part named by the case
//VP assume: header names are non-empty, without ':', control characters or leading/trailing space; values NUL-free without leading/trailing space; gzip bodies excluded
#include "../rt/vp.h"
#include "common.h"
#define S_COOKIE_SEPARATOR ((char)0xFF)
#include <libstuff/SData.h>
static void edges(const string& s) { if (s.size()) { vp_assume(s[0] != ' '); vp_assume(s[s.size() - 1] != ' '); } }
extern "C" void vp_main() {
    quiet(); int kind = vp_param("KIND"), N = vp_param("N");
    SData m("GET"); m.methodLine = "Query"; m["b"] = "x"; string v;
    if (kind == 6) { // a message written by another implementation: header names in any letter case mean the same
        auto spell = [&](string n) { unsigned k = 0; for (char& c : n) if (k < 3 && (c == 'S' || c == 'C' || c == 'L' || c == 'T' || c == 'e')) { k++; if (vp_bool("case")) c ^= 32; } return n; };
        string a = vp_str("cookie", 1, N), body = vp_str("body", 0, N); for (char c : a) vp_assume((unsigned char)c > 32 && c != 127 && (unsigned char)c != 0xFF && c != '\\');
        string sc = spell("Set-Cookie"), cl = spell("Content-Length"), te = spell("Transfer-Encoding"); bool chunked = vp_bool("chunked");
        string w = "GET / HTTP/1.1\r\n" + sc + ": " + a + "\r\n" + sc + ": q=1\r\n" + (chunked ? te + ": Chunked" : cl + ": " + to_string(body.size())) + "\r\n\r\n" + (chunked ? (body.empty() ? string() : "1\r\n" + body.substr(0, 1) + "\r\n" + (body.size() > 1 ? "1\r\n" + body.substr(1) + "\r\n" : "")) + "0\r\n\r\n" : body);
        string tail = "NEXT\r\n\r\n"; SData r; int n = r.deserialize(w + tail);
        vp_check(n == (int)w.size(), "decoding does not consume exactly the encoded message"); vp_check(r.content == body, "the body changes when header names are spelled in another letter case");
        vp_check(r["Set-Cookie"] == a + S_COOKIE_SEPARATOR + "q=1", "repeated cookies are lost when their header is spelled in another letter case"); vp_check(r.calc("Content-Length") == (int)body.size(), "the decoded length header is wrong"); vp_reach("roundtrip"); return;
    }
    if (kind == 0) { v = vp_str("value", 0, N); for (char c : v) vp_assume(c != 0); edges(v); m["Aa"] = v; }
    if (kind == 1) { m.content = vp_str("body", 0, N); }
    if (kind == 2) { m.methodLine = vp_str("method", 1, N); for (char c : m.methodLine) vp_assume((unsigned char)c >= 32 && c != 127); edges(m.methodLine); }
    if (kind == 3) { string n = vp_str("name", 1, N); for (char c : n) vp_assume((unsigned char)c > 32 && c != 58 && c != 127); if (N > 1) for (char& c : n) c = (char)vp_conc((unsigned char)c); m[n] = "val"; m.content = "z"; }
    if (kind == 4) { string a = vp_str("cookie", 1, N); for (char c : a) vp_assume((unsigned char)c >= 32 && c != 127 && (unsigned char)c != 0xFF && c != '\\'); edges(a); m["Set-Cookie"] = a + S_COOKIE_SEPARATOR + "q=1"; }
    if (kind == 5) { string s = vp_str("ws", 1, 1); vp_assume(s[0] == '\r' || s[0] == '\n' || s[0] == '\t' || s[0] == '\\'); v = "a" + s + s + "b" + s; m["Aa"] = v; m["Bb"] = "tail"; }
    string wire = m.serialize(); string tail = vp_bool("more") ? "NEXT\r\n\r\n" : "";
    SData r; int n = r.deserialize(wire + tail);
    vp_reach("roundtrip");
    vp_check(n == (int)wire.size(), "decoding does not consume exactly the encoded message");
    vp_check(r.methodLine == m.methodLine, "the method line changes in an encode/decode round trip");
    vp_check(r.content == m.content, "the body changes in an encode/decode round trip");
    vp_check(r.calc("Content-Length") == (int)m.content.size(), "the decoded length header is wrong");
    for (auto& p : m.nameValueMap) vp_check(r.isSet(p.first) && r[p.first] == p.second, "a header changes in an encode/decode round trip");
    vp_check(r.nameValueMap.size() == m.nameValueMap.size() + 1, "headers appear or vanish in an encode/decode round trip");
}
