//VP property: L03
//VP tus: libstuff/*.cpp
//VP model: pcre2_model.cpp
//VP case ops: quick KIND=0 OPS=4 MAX=24 | thorough KIND=0 OPS=6 MAX=24
//VP case http: quick KIND=1 OPS=3 MAX=2 | thorough KIND=1 OPS=4 MAX=2
//VP reach: done
//VP assume: http: what is consumed never ends in the middle of a CR LF pair (messages are consumed whole)
//VP bound: OPS append/consume/clear/assign operations with symbolic sizes; http: OPS appended fragments of symbolic bytes from {CR, LF, x}
#include "../rt/vp.h"
#include "common.h"
#include <libstuff/SFastBuffer.h>
extern "C" void vp_main() {
    quiet(); int ops = vp_param("OPS"), mx = vp_param("MAX");
    SFastBuffer b; string model; unsigned char next = 1;
    if (vp_param("KIND") == 0) {
        static const size_t sizes[] = {1, 7, 24};
        for (int i = 0; i < ops; i++) {
            switch (vp_choice("op", 4)) {
                case 0: { string s; size_t n = sizes[vp_choice("size", 3)]; for (size_t k = 0; k < n; k++) s += (char)next++; b.append(s.data(), s.size()); model += s; break; }
                case 1: { size_t n = vp_choice("consume", model.size() < (size_t)mx ? model.size() + 1 : mx + 1); b.consumeFront(n); model.erase(0, n); break; }
                case 2: { string s = "fresh"; b = s; model = s; break; }
                case 3: { string s = "+="; s += (char)next++; b += s; model += s; break; }
            }
            vp_check(b.size() == model.size(), "the buffer's size differs from what was appended and not yet consumed");
            vp_check(b.empty() == model.empty(), "emptiness disagrees with the contents");
            vp_check(b.size() != model.size() || !memcmp(b.c_str(), model.data(), model.size()), "the buffer's bytes differ from what was appended and not yet consumed");
            vp_check(b.c_str()[b.size()] == 0, "the buffer is not terminated");
        }
    } else {
        // The header-complete test must give the same answer however the bytes arrive.
        if (vp_bool("prelude")) { string s(9, 'x'); b.append(s.data(), s.size()); b.consumeFront(8); model = "x"; } // a consumed prefix inside the allocated space
        for (int i = 0; i < ops; i++) {
            string s = vp_str("frag", 1, mx); for (char c : s) vp_assume(c == '\r' || c == '\n' || c == 'x');
            bool tail = vp_bool("tail"); if (tail) s += string(20, 'z'); // more than the allocated space: forces compaction or growth
            b.append(s.data(), s.size()); model += s;
            bool r = b.startsWithHTTPRequest();
            SFastBuffer whole(model); bool w = whole.startsWithHTTPRequest();
            bool ref = false; for (size_t k = 0; k + 1 < model.size(); k++) { if (k > 0 && model[k] == '\n' && model[k + 1] == '\n') ref = true; if (k > 0 && k + 3 < model.size() && model.substr(k, 4) == "\r\n\r\n") ref = true; } if (model.size() < 4) ref = false;
            vp_check(r == w, "whether a header is complete depends on how its bytes arrived");
            vp_check(w == ref, "header completeness differs from the presence of a blank line");
            if (tail) break;
            if (vp_bool("eat") && model.size()) { size_t n = vp_choice("n", model.size()) + 1; vp_assume(model[n - 1] != '\r'); b.consumeFront(n); model.erase(0, n); }
        }
    }
    vp_reach("done");
}
