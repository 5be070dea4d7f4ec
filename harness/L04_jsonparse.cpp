//VP property: L04
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp
//VP case object: quick KIND=0 N=4 | thorough KIND=0 N=5
//VP case array: quick KIND=1 N=4 | thorough KIND=1 N=5
//VP case member: quick KIND=2 N=4 | thorough KIND=2 N=5
//VP case escape: quick KIND=3 N=3 | thorough KIND=3 N=5
//VP reach: parsed
//VP bound: every byte string (NUL included) of up to N bytes, bare or after a fixed prefix
#include "../rt/vp.h"
#include "common.h"
extern "C" void vp_main() {
    quiet(); int kind = vp_param("KIND"), N = vp_param("N");
    string s = vp_str("in", 0, N); if (kind == 2) s = "{\"a\":" + s; if (kind == 3) s = "[\"\\" + s;
    vp_steps(3000000);
    if (kind == 1 || kind == 3) { list<string> l = SParseJSONArray(s); vp_reach("parsed"); vp_check(l.size() <= s.size(), "more elements than input bytes"); }
    else { STable t = SParseJSONObject(s); vp_reach("parsed"); vp_check(t.size() <= s.size(), "more members than input bytes"); }
    vp_steps(0);
}
