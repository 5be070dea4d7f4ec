// Invertible stand-in for zstd with dictionaries: a frame carries the real magic number, the dictionary id, the content size and the content (bytes rotated by the id).
#include <zstd.h>
#include <cstring>
#include <cstdlib>
#include <cstdint>
extern "C" {
struct ZSTD_CDict_s { unsigned id; }; struct ZSTD_DDict_s { unsigned id; }; struct ZSTD_CCtx_s { int x; }; struct ZSTD_DCtx_s { int x; };
static const unsigned char magic[4] = {0x28, 0xB5, 0x2F, 0xFD};
static unsigned did(const void* p, size_t n) { return n ? 1 + ((const unsigned char*)p)[0] % 7 : 0; }
ZSTD_CDict* ZSTD_createCDict(const void* p, size_t n, int) { auto d = (ZSTD_CDict*)malloc(sizeof(ZSTD_CDict_s)); ((ZSTD_CDict_s*)d)->id = did(p, n); return d; }
ZSTD_DDict* ZSTD_createDDict(const void* p, size_t n) { auto d = (ZSTD_DDict*)malloc(sizeof(ZSTD_DDict_s)); ((ZSTD_DDict_s*)d)->id = did(p, n); return d; }
size_t ZSTD_freeCDict(ZSTD_CDict* d) { free(d); return 0; } size_t ZSTD_freeDDict(ZSTD_DDict* d) { free(d); return 0; }
ZSTD_CCtx* ZSTD_createCCtx() { return (ZSTD_CCtx*)malloc(8); } size_t ZSTD_freeCCtx(ZSTD_CCtx* c) { free(c); return 0; }
ZSTD_DCtx* ZSTD_createDCtx() { return (ZSTD_DCtx*)malloc(8); } size_t ZSTD_freeDCtx(ZSTD_DCtx* c) { free(c); return 0; }
size_t ZSTD_CCtx_setParameter(ZSTD_CCtx*, ZSTD_cParameter, int) { return 0; }
size_t ZSTD_compressBound(size_t n) { return n + 16; }
unsigned ZSTD_isError(size_t r) { return r > (size_t)-64; } const char* ZSTD_getErrorName(size_t) { return "zstd error"; }
size_t ZSTD_compress_usingCDict(ZSTD_CCtx*, void* d, size_t cap, const void* s, size_t n, const ZSTD_CDict* dict) { if (cap < n + 8) return (size_t)-1; auto o = (unsigned char*)d; memcpy(o, magic, 4); unsigned id = ((const ZSTD_CDict_s*)dict)->id; o[4] = id; o[5] = n & 255; o[6] = n >> 8; for (size_t i = 0; i < n; i++) o[7 + i] = ((const unsigned char*)s)[i] + id; return n + 7; }
unsigned ZSTD_isFrame(const void* s, size_t n) { auto p = (const unsigned char*)s; return n >= 4 && p[0] == magic[0] && p[1] == magic[1] && p[2] == magic[2] && p[3] == magic[3]; }
unsigned ZSTD_getDictID_fromFrame(const void* s, size_t n) { return n >= 7 ? ((const unsigned char*)s)[4] : 0; }
unsigned long long ZSTD_getFrameContentSize(const void* s, size_t n) { auto p = (const unsigned char*)s; return n >= 7 ? (p[5] | p[6] << 8) : ZSTD_CONTENTSIZE_ERROR; }
size_t ZSTD_decompress_usingDDict(ZSTD_DCtx*, void* d, size_t cap, const void* s, size_t n, const ZSTD_DDict* dict) { auto p = (const unsigned char*)s; size_t k = n < 7 ? 0 : (p[5] | p[6] << 8); if (n < 7 || k + 7 != n || k > cap) return (size_t)-20; unsigned id = p[4]; if (id && (!dict || ((const ZSTD_DDict_s*)dict)->id != id)) return (size_t)-32; for (size_t i = 0; i < k; i++) ((unsigned char*)d)[i] = p[7 + i] - id; return k; }
}
