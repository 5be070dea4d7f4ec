// Model of the libmbedcrypto functions libstuff uses (base64, SHA-1, SHA-256). Bitcode only; replays use the real library.
#include <cstddef>
#include <cstdint>
#include <cstring>
#define INV (-0x002C)
#define SMALL (-0x002A)
static int dv(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static unsigned char ev(unsigned v) { static const char m[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; return m[v & 63]; }
extern "C" int mbedtls_base64_encode(unsigned char* d, size_t dlen, size_t* olen, const unsigned char* s, size_t n) {
    if (!n) { *olen = 0; return 0; }
    size_t need = (n / 3 + (n % 3 != 0)) * 4; if (dlen < need + 1 || !d) { *olen = need + 1; return SMALL; }
    unsigned char* p = d; size_t i = 0;
    for (; i + 2 < n; i += 3) { unsigned a = s[i], b = s[i + 1], c = s[i + 2]; *p++ = ev(a >> 2); *p++ = ev((a << 4) | (b >> 4)); *p++ = ev((b << 2) | (c >> 6)); *p++ = ev(c); }
    if (i < n) { unsigned a = s[i], b = i + 1 < n ? s[i + 1] : 0; *p++ = ev(a >> 2); *p++ = ev((a << 4) | (b >> 4)); *p++ = i + 1 < n ? ev(b << 2) : '='; *p++ = '='; }
    *p = 0; *olen = p - d; return 0;
}
extern "C" int mbedtls_base64_decode(unsigned char* d, size_t dlen, size_t* olen, const unsigned char* s, size_t slen) {
    size_t i, n = 0; unsigned j = 0;
    for (i = 0; i < slen; i++) {
        unsigned x = 0; while (i < slen && s[i] == ' ') { i++; x++; } if (i == slen) break;
        if (slen - i >= 2 && s[i] == '\r' && s[i + 1] == '\n') continue; if (s[i] == '\n') continue; if (x) return INV;
        if (s[i] == '=') { if (++j > 2) return INV; } else { if (dv(s[i]) < 0) return INV; if (j) return INV; } n++;
    }
    if (!n) { *olen = 0; return 0; }
    n = 6 * (n >> 3) + ((6 * (n & 7) + 7) >> 3); n -= j; if (!d || dlen < n) { *olen = n; return SMALL; }
    unsigned x = 0, acc = 0, eq = 0; unsigned char* p = d;
    for (; i > 0; i--, s++) { if (*s == '\r' || *s == '\n' || *s == ' ') continue; x <<= 6; if (*s == '=') eq++; else x |= dv(*s); if (++acc == 4) { acc = 0; *p++ = x >> 16; if (eq <= 1) *p++ = x >> 8; if (eq <= 0) *p++ = x; } }
    *olen = p - d; return 0;
}
static inline uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
template<class F> static void blocks(const unsigned char* s, size_t n, F f) {
    unsigned char b[64]; size_t i = 0; for (; i + 64 <= n; i += 64) f(s + i);
    size_t r = n - i; memset(b, 0, 64); for (size_t k = 0; k < r; k++) b[k] = s[i + k]; b[r] = 0x80; if (r >= 56) { f(b); memset(b, 0, 64); }
    uint64_t bits = (uint64_t)n * 8; for (int k = 0; k < 8; k++) b[63 - k] = bits >> (8 * k); f(b);
}
extern "C" int mbedtls_sha1_ret(const unsigned char* s, size_t n, unsigned char* out) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    blocks(s, n, [&](const unsigned char* b) {
        uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) { f = (bb & c) | (~bb & d); k = 0x5A827999; } else if (i < 40) { f = bb ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (bb & c) | (bb & d) | (c & d); k = 0x8F1BBCDC; } else { f = bb ^ c ^ d; k = 0xCA62C1D6; } uint32_t t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(bb, 30); bb = a; a = t; }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e; });
    for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4)); return 0;
}
extern "C" void mbedtls_sha1(const unsigned char* s, size_t n, unsigned char* out) { mbedtls_sha1_ret(s, n, out); }
static const uint32_t K[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
extern "C" int mbedtls_sha256_ret(const unsigned char* s, size_t n, unsigned char* out, int) {
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    blocks(s, n, [&](const unsigned char* b) {
        uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
        for (int i = 16; i < 64; i++) { uint32_t s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3), s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10); w[i] = w[i - 16] + s0 + w[i - 7] + s1; }
        uint32_t v[8]; memcpy(v, h, 32);
        for (int i = 0; i < 64; i++) { uint32_t S1 = rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]), t1 = v[7] + S1 + ch + K[i] + w[i], S0 = rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]), t2 = S0 + mj; v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2; }
        for (int i = 0; i < 8; i++) h[i] += v[i]; });
    for (int i = 0; i < 32; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4)); return 0;
}
extern "C" void mbedtls_sha256(const unsigned char* s, size_t n, unsigned char* out, int is224) { mbedtls_sha256_ret(s, n, out, is224); }
