//VP property: L02
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp
//VP case raw: quick KIND=0 N=5 | thorough KIND=0 N=7
//VP case mid: quick KIND=1 N=3 | thorough KIND=1 N=8
//VP case length: quick KIND=2 N=2 | thorough KIND=2 N=4
//VP case chunk: quick KIND=3 N=3 | thorough KIND=3 N=7
//VP case chunkhdr: quick KIND=4 N=9 | thorough KIND=4 N=9
//VP reach: parsed
//VP bound: raw = every byte string of length 0..N; the other cases fix a prefix (header, Content-Length, chunked body) and leave N free bytes
#include <libstuff/libstuff.h>
#include <libstuff/SData.h>
#include <libstuff/SFastBuffer.h>
#include "../rt/vp.h"
#include "common.h"
static int parse(const string& in, SData& d) {
    // exactly sized, NUL terminated, as every receive buffer is
    char* p = (char*)malloc(in.size() + 1); if (in.size()) memcpy(p, in.data(), in.size()); p[in.size()] = 0;
    int n = SParseHTTP(p, in.size(), d.methodLine, d.nameValueMap, d.content); free(p); return n;
}
extern "C" void vp_main() {
    quiet();
    int kind = vp_param("KIND"), N = vp_param("N"); string in;
    if (kind == 0) in = vp_str("in", 0, N);
    if (kind == 1) in = "A\r\nB:" + vp_str("in", N, N);
    if (kind == 2) in = "A\r\nContent-Length: " + vp_str("in", 1, N) + "\r\n\r\n" + "abcd";
    if (kind == 3) in = "A\r\nTransfer-Encoding: chunked\r\n\r\n" + vp_str("in", 0, N);
    if (kind == 4) { string hx = vp_str("hex", 1, N); for (char c : hx) vp_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f')); in = "A\r\nTransfer-Encoding: chunked\r\n\r\n" + hx + "\r\nabc\r\n0\r\n\r\n"; }
    SData d; int n = 0; bool threw = false;
    vp_steps(3000000);
    try { n = parse(in, d); } catch (const exception&) { threw = true; }
    vp_steps(0);
    vp_reach("parsed");
    vp_check(!threw, "parsing malformed input throws out of the parser");
    vp_check(n >= 0 && n <= (int)in.size(), "consumed length outside the input");
    if (n == 0) vp_check(d.methodLine.empty() && d.nameValueMap.empty() && d.content.empty(), "incomplete parse leaves partial output");
    vp_check(d.content.size() <= in.size(), "body longer than the input");
}
