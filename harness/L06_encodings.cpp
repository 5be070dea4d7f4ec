//VP property: L06
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp mbedtls_model.cpp
//VP case uri: quick KIND=0 N=4 | thorough KIND=0 N=6
//VP case hex: quick KIND=1 N=5 | thorough KIND=1 N=8
//VP case hexnum: quick KIND=2 N=0 | thorough KIND=2 N=0
//VP case escape: quick KIND=3 N=4 | thorough KIND=3 N=5
//VP case escapectl: quick KIND=8 N=2 | thorough KIND=8 N=3
//VP case base64: quick KIND=4 N=2 | thorough KIND=4 N=3
//VP case query: quick KIND=5 N=2 | thorough KIND=5 N=3
//VP case base32: quick KIND=6 N=3 | thorough KIND=6 N=4
//VP case base32hex: quick KIND=7 N=8 | thorough KIND=7 N=8
//VP reach: encoded
//VP bound: every byte string up to N bytes (escape: NUL-free); hexnum: every 64-bit value with 16 free bits in one aligned quarter and the rest all zero or all one; base32hex: 8-character blocks with 3 free neighbouring characters
#include "../rt/vp.h"
#include "common.h"
extern "C" void vp_main() {
    quiet(); int kind = vp_param("KIND"), N = vp_param("N");
    if (kind == 0) {
        string v = vp_str("v", 0, N), e = SEncodeURIComponent(v);
        vp_reach("encoded");
        for (char c : e) vp_check((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || strchr("%+-_.!~*()", c), "an unsafe character survives URI encoding");
        vp_check(SDecodeURIComponent(e) == v, "URI encoding does not decode to the original");
        for (size_t i = 0; i < v.size(); i++) {} string d = SDecodeURIComponent(v); vp_check(d.size() <= v.size(), "URI decoding grows its input");
    } else if (kind == 1) {
        string v = vp_str("v", 0, N), h = SToHex(v);
        vp_reach("encoded");
        vp_check(h.size() == 2 * v.size(), "hex encoding has the wrong length");
        for (char c : h) vp_check((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'), "hex encoding emits a non-hex character");
        vp_check(SStrFromHex(h) == v, "hex encoding does not decode to the original");
    } else if (kind == 2) {
        uint64_t x = vp_range("x", 0, 65535) << (16 * vp_choice("quarter", 4)); if (vp_bool("invert")) x = ~x; string h = SToHex(x, 16);
        vp_reach("encoded");
        vp_check(h.size() == 16 && SFromHex(h) == x, "a number does not survive hex encoding");
        uint32_t y = (uint32_t)x; vp_check(SFromHex(SToHex(y)) == y, "a 32-bit number does not survive hex encoding");
    } else if (kind == 3 || kind == 8) {
        string v = vp_str("v", 0, N); for (char c : v) vp_assume(c != 0 && ((kind == 8) == ((unsigned char)c < 32 || c == 127)));
        string unsafe = kind == 3 ? "\"\\/'" : "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f\"\\/";
        string e = SEscape(v, unsafe, '\\');
        vp_reach("encoded");
        vp_check(SUnescape(e, '\\') == v, "escaped text does not unescape to the original");
        for (size_t i = 0; i < e.size(); i++) { if (e[i] == '\\') { i++; continue; } vp_check(unsafe.find(e[i]) == string::npos, "an unsafe character is left unescaped"); }
    } else if (kind == 4) {
        string v = vp_str("v", 0, N), e = SEncodeBase64(v);
        vp_reach("encoded");
        vp_check(e.size() == (v.size() + 2) / 3 * 4, "base64 encoding has the wrong length");
        vp_check(SDecodeBase64(e) == v, "base64 does not decode to the original");
    } else if (kind == 5) {
        STable t; string n = vp_str("n", 1, N), v = vp_str("v", 0, N); for (char c : v) vp_assume(c != 0 && (unsigned char)c != 0xFF); if (v.size()) vp_assume(v[0] != ' '); t[n] = v; t["zz~z"] = "1";
        vp_assume(t.size() == 2);
        string path; STable r; bool ok = SParseURIPath("/p?" + SComposePOST(t), path, r);
        vp_reach("encoded");
        vp_check(ok && path == "/p", "the path changes in a query-string round trip");
        vp_check(r.size() == 2 && r.contains(n) && r[n] == v && r["zz~z"] == "1", "a query-string round trip changes a parameter");
        STable none; vp_check(SComposePOST(none).empty(), "an empty parameter set encodes to something");
    } else if (kind == 6) {
        string v = vp_str("v", 0, N), e; bool threw = false; bool valid = true;
        for (char c : v) if (!((c >= 'A' && c <= 'Z') || (c >= '2' && c <= '7'))) valid = false;
        try { e = SBase32HexStringFromBase32(v); } catch (const exception&) { threw = true; }
        vp_reach("encoded");
        vp_check(threw == !valid, "base32 accepts an invalid character or rejects a valid one");
        if (!threw) for (size_t i = 0; i < v.size(); i++) { int x = v[i] >= 'A' ? v[i] - 'A' : v[i] - '2' + 26; char w = x < 10 ? '0' + x : 'A' + x - 10; vp_check(e[i] == w, "base32 translates a character to the wrong base32hex digit"); }
    } else {
        string f = vp_str("v", 3, 3); for (char c : f) vp_assume((c >= '0' && c <= '9') || (c >= 'A' && c <= 'V'));
        string v = vp_bool("high") ? "KVKVKVKV" : "0A0A0A0A"; size_t at = vp_choice("at", 6); for (int i = 0; i < 3; i++) v[at + i] = f[i];
        uint64_t x = 0; for (char c : v) x = x * 32 + (c <= '9' ? c - '0' : c - 'A' + 10);
        string h = SHexStringFromBase32(v);
        vp_reach("encoded");
        vp_check(h.size() == 10 && SFromHex(h) == x, "a base32hex block converts to the wrong hex");
        bool threw = false; try { SHexStringFromBase32(v.substr(1)); } catch (const exception&) { threw = true; } vp_check(threw, "an incomplete base32hex block is accepted");
    }
}
