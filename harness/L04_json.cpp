//VP property: L04
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp
//VP case object: quick KIND=0 N=2 | thorough KIND=0 N=3
//VP case array: quick KIND=1 N=2 | thorough KIND=1 N=3
//VP case names: quick KIND=2 N=2 | thorough KIND=2 N=3
//VP case nested: quick KIND=3 N=2 | thorough KIND=3 N=3
//VP case control: quick KIND=6 N=1 | thorough KIND=6 N=1
//VP reach: roundtrip
//VP bound: values and names are every NUL-free byte string up to N bytes
#include "../rt/vp.h"
#include "common.h"
static bool same(const string& v, const string& back) {
    if (SIEquals(v, "true") || SIEquals(v, "false") || SIEquals(v, "null")) return SIEquals(v, back); // literals are case-normalised
    return v == back;
}
static string val(const char* n, size_t lo, size_t hi) { string s = vp_str(n, lo, hi); for (char c : s) vp_assume(c != 0); return s; }
extern "C" void vp_main() {
    quiet(); int kind = vp_param("KIND"), N = vp_param("N");
    if (kind == 0 || kind == 6) {
        STable t; string v = kind == 6 ? string(1, 'x') + val("v", 1, 1) + "y" : val("v", 0, N); t["a"] = v; t["b"] = "7";
        STable r = SParseJSONObject(SComposeJSONObject(t));
        vp_reach("roundtrip");
        vp_check(r.size() == 2 && r.contains("a") && r.contains("b"), "an object loses a member in a compose/parse round trip");
        vp_check(same(v, r["a"]), "a member's value changes in a compose/parse round trip");
        vp_check(r["b"] == "7", "a neighbouring member changes in a compose/parse round trip");
    } else if (kind == 1) {
        string v = val("v", 0, N), w = val("w", 0, 1); list<string> l = {v, "x", w};
        list<string> r = SParseJSONArray(SComposeJSONArray(l));
        vp_reach("roundtrip");
        vp_check(r.size() == 3, "an array changes length in a compose/parse round trip");
        if (r.size() == 3) { vp_check(same(v, r.front()), "an array element changes in a compose/parse round trip"); vp_check(same(w, r.back()), "the last array element changes in a compose/parse round trip"); }
    } else if (kind == 2) {
        string n = val("n", 1, N); STable t; t[n] = "v1"; t["zz~"] = "v2"; vp_assume(t.size() == 2);
        STable r = SParseJSONObject(SComposeJSONObject(t));
        vp_reach("roundtrip");
        vp_check(r.size() == 2 && r.contains(n) && r[n] == "v1" && r["zz~"] == "v2", "a member's name changes in a compose/parse round trip");
    } else if (kind == 3) {
        string v = val("v", 0, N); STable in; in["k"] = v; list<string> l = {v}; STable t; t["o"] = SComposeJSONObject(in); t["l"] = SComposeJSONArray(l);
        STable r = SParseJSONObject(SComposeJSONObject(t));
        vp_reach("roundtrip");
        vp_check(r.size() == 2, "nesting loses a member");
        STable o = SParseJSONObject(r["o"]); list<string> a = SParseJSONArray(r["l"]);
        vp_check(o.size() == 1 && same(v, o["k"]), "a nested object's value changes in a round trip");
        vp_check(a.size() == 1 && same(v, a.front()), "a nested array's value changes in a round trip");
    }
}
