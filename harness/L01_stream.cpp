//VP property: L01
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp
//VP case split: quick KIND=0 N=2 | thorough KIND=0 N=4
//VP case chunked: quick KIND=1 N=2 | thorough KIND=1 N=4
//VP reach: streamed
//VP bound: two pipelined messages, cut at one arbitrary byte position
#include "../rt/vp.h"
#include "common.h"
#include <libstuff/SData.h>
#include <libstuff/SFastBuffer.h>
static vector<SData> drain(SFastBuffer& b) { vector<SData> v; for (int i = 0; i < 4; i++) { SData d; int n = d.deserialize(b); vp_check(n >= 0 && n <= (int)b.size(), "consumed more than was received"); if (!n) break; b.consumeFront(n); v.push_back(d); } return v; }
extern "C" void vp_main() {
    quiet(); int N = vp_param("N"), kind = vp_param("KIND");
    SData a, b; a.methodLine = "ONE"; a["k"] = "v"; a.content = vp_str("body1", 0, N); b.methodLine = "TWO"; b.content = vp_str("body2", 0, N);
    string wire;
    if (kind == 0) wire = a.serialize() + b.serialize();
    else { wire = "ONE\r\nTransfer-Encoding: chunked\r\n\r\n"; a.content = vp_str("chunk", 1, N); wire += SToHex((uint64_t)a.content.size(), 1) + "\r\n" + a.content + "\r\n2\r\nxy\r\n0\r\n\r\n"; a.content += "xy"; wire += b.serialize(); }
    size_t cut = vp_choice("cut", wire.size() + 1);
    SFastBuffer buf; vector<SData> got;
    buf.append(wire.c_str(), cut); for (auto& d : drain(buf)) got.push_back(d);
    buf.append(wire.c_str() + cut, wire.size() - cut); for (auto& d : drain(buf)) got.push_back(d);
    vp_reach("streamed");
    vp_check(got.size() == 2, "fragmentation changes the number of messages received");
    if (got.size() == 2) {
        vp_check(got[0].methodLine == "ONE" && got[0].content == a.content && (kind || got[0]["k"] == "v"), "fragmentation corrupts the first message");
        vp_check(got[1].methodLine == "TWO" && got[1].content == b.content, "fragmentation corrupts the second message");
    }
    for (size_t i = 0; i < buf.size(); i++) vp_check(buf.c_str()[i] == '\r' || buf.c_str()[i] == '\n', "message bytes left behind after all messages were read");
}
