// LZ4 and ZSTD by contract, used both by the engine and by the native replay: a frame is
//   tag(1) | n(4) | total(4) | n stored bytes | padding up to total
// compress: fails when the destination is too small; in mode "worst" the frame is padded up to the library's bound, so
//   that every capacity computed from compressBound is exercised at its limit; can be made to fail on the k-th call.
// decompress: accepts exactly the frames of its own tag whose stored content fits the destination; anything else is an
//   error.  A forged frame can therefore deliver any content of up to the destination's capacity.
#include <cstdint>
#include <cstring>
#include "lz4.h"
#include "zstd.h"
int vp_comp_worst = 0;      // pad frames to the bound
int vp_comp_fail_call = 0;  // 1-based compress call that fails (0: none)
int vp_comp_calls = 0;
int vp_comp_count = 1;      // 0: do not count (several threads compress at once)
int vp_comp_touch = 0;      // write over the whole destination capacity first (real compressors may)
static const uint32_t H = 9;
static size_t zbound(size_t n) { return n + (n >> 8) + (n < (128u << 10) ? (((128u << 10) - n) >> 11) : 0); }
static size_t lbound(size_t n) { return n + n / 255 + 16; }
static size_t put(uint8_t tag, uint8_t* d, size_t cap, const uint8_t* s, size_t n, size_t bound) {
  if (vp_comp_count) vp_comp_calls++;
  if (vp_comp_fail_call && vp_comp_calls == vp_comp_fail_call) return 0;
  if (vp_comp_touch && cap) memset(d, 0xEE, cap);
  const size_t need = H + n;
  if (cap < need) return 0;
  size_t total = need;
  if (vp_comp_worst) { total = bound; if (total < need) total = need; if (cap < total) return 0; }
  d[0] = tag;
  const uint32_t n32 = (uint32_t)n, t32 = (uint32_t)total;
  memcpy(d + 1, &n32, 4);
  memcpy(d + 5, &t32, 4);
  if (n) memcpy(d + H, s, n);
  if (total > need) memset(d + need, 0xCD, total - need);
  return total;
}
static long get(uint8_t tag, uint8_t* d, size_t cap, const uint8_t* s, size_t len) {
  if (len < H || s[0] != tag) return -1;
  uint32_t n, total;
  memcpy(&n, s + 1, 4);
  memcpy(&total, s + 5, 4);
  if (total != len || n > len - H || n > cap) return -1;
  if (n) memcpy(d, s + H, n);
  return (long)n;
}
extern "C" {
int LZ4_compressBound(int n) { return n < 0 || (unsigned)n > (unsigned)LZ4_MAX_INPUT_SIZE ? 0 : (int)lbound((size_t)n); }
int LZ4_compress_default(const char* s, char* d, int n, int cap) { return n < 0 || cap < 0 ? 0 : (int)put(0xA5, (uint8_t*)d, (size_t)cap, (const uint8_t*)s, (size_t)n, lbound((size_t)n)); }
int LZ4_compress_fast(const char* s, char* d, int n, int cap, int) { return LZ4_compress_default(s, d, n, cap); }
int LZ4_decompress_safe(const char* s, char* d, int n, int cap) { return n < 0 || cap < 0 ? -1 : (int)get(0xA5, (uint8_t*)d, (size_t)cap, (const uint8_t*)s, (size_t)n); }
size_t ZSTD_compressBound(size_t n) { return zbound(n); }
size_t ZSTD_compress(void* d, size_t cap, const void* s, size_t n, int) { size_t r = put(0x5A, (uint8_t*)d, cap, (const uint8_t*)s, n, zbound(n)); return r ? r : (size_t)-70; }
size_t ZSTD_decompress(void* d, size_t cap, const void* s, size_t len) { long r = get(0x5A, (uint8_t*)d, cap, (const uint8_t*)s, len); return r < 0 ? (size_t)-20 : (size_t)r; }
unsigned ZSTD_isError(size_t c) { return c > (size_t)-120; }
const char* ZSTD_getErrorName(size_t) { return "error"; }
unsigned long long ZSTD_getFrameContentSize(const void* s, size_t len) {
  const uint8_t* p = (const uint8_t*)s;
  if (len < H || p[0] != 0x5A) return ZSTD_CONTENTSIZE_ERROR;
  uint32_t n; memcpy(&n, p + 1, 4);
  return n;
}
ZSTD_CCtx* ZSTD_createCCtx(void) { return (ZSTD_CCtx*)&vp_comp_calls; }
size_t ZSTD_freeCCtx(ZSTD_CCtx*) { return 0; }
size_t ZSTD_compressCCtx(ZSTD_CCtx*, void* d, size_t cap, const void* s, size_t n, int l) { return ZSTD_compress(d, cap, s, n, l); }
ZSTD_DCtx* ZSTD_createDCtx(void) { return (ZSTD_DCtx*)&vp_comp_calls; }
size_t ZSTD_freeDCtx(ZSTD_DCtx*) { return 0; }
size_t ZSTD_decompressDCtx(ZSTD_DCtx*, void* d, size_t cap, const void* s, size_t n) { return ZSTD_decompress(d, cap, s, n); }
}
