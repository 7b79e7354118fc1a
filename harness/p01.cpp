// P01: encodeVarint64 / decodeVarint round trip, canonical length, bounds and NaN marker.
#include <cstdlib>
#include <cstring>
#include "vp.h"
#include "cloudini_lib/encoding_utils.hpp"
using namespace Cloudini;
static void roundtrip() {
  int64_t v = vp_sym<int64_t>("value");
  uint8_t buf[16];
  memset(buf, 0xEE, sizeof buf);
  size_t n = encodeVarint64(v, buf + 1);
  vp_check(n >= 1 && n <= 10, "a varint takes 1..10 bytes");
  vp_check(buf[1] != 0, "no value is encoded as the reserved NaN byte");
  vp_check(buf[0] == 0xEE && buf[1 + n] == 0xEE, "nothing is written outside the reported length");
  // exactly n bytes are readable: any read past them is a memory error
  uint8_t* exact = (uint8_t*)malloc(n);
  memcpy(exact, buf + 1, n);
  int64_t out = 0;
  size_t m = 0;
  try { m = decodeVarint(exact, n, out); } catch (const std::exception&) { vp_fail("decodeVarint rejected an encoded value"); }
  vp_check(m == n, "decode consumes exactly what encode produced");
  vp_check(out == v, "decode(encode(v)) == v");
  for (size_t cut = 0; cut < n; cut++) {
    uint8_t* part = (uint8_t*)malloc(cut ? cut : 1);
    memcpy(part, exact, cut);
    bool threw = false;
    try { int64_t o; decodeVarint(part, cut, o); } catch (const std::exception&) { threw = true; }
    vp_check(threw, "a truncated varint is rejected");
    free(part);
  }
  free(exact);
  vp_sink(&out, 8, "value");
  vp_reach("roundtrip");
}
// arbitrary bytes in a buffer of exactly `size` bytes
static void arbitrary() {
  const size_t size = (size_t)vp_choose((int)vp_param("max", 12) + 1, "size");
  uint8_t* buf = (uint8_t*)malloc(size ? size : 1);
  vp_make_symbolic(buf, size, "bytes");
  int64_t v = 0;
  size_t n = 0;
  bool ok = true;
  try { n = decodeVarint(buf, size, v); } catch (const std::exception&) { ok = false; }
  if (ok) {
    vp_check(n >= 1 && n <= size, "decode never reports more bytes than it was given");
    vp_check((buf[n - 1] & 0x80) == 0, "decode stops at the byte without continuation bit");
    for (size_t i = 0; i + 1 < n; i++) vp_check((buf[i] & 0x80) != 0, "decode stops at the first byte without continuation bit");
    // reference value: sum of the 7-bit groups, minus one, un-zigzagged (2^64, the code of INT64_MIN, wraps to 0)
    uint64_t u = 0;
    for (size_t i = 0; i < n && i < 10; i++) u |= (uint64_t)(buf[i] & 0x7f) << (7 * i);
    u--;
    const int64_t ref = (int64_t)((u >> 1) ^ (0 - (u & 1)));
    vp_check(v == ref, "decoded value is the un-zigzagged sum of the groups");
    vp_check(!(size >= 1 && buf[0] == 0), "the NaN marker never decodes to a value");
    vp_sink(&v, 8, "value");
    vp_reach("decoded");
  } else {
    // rejected only if truncated, longer than 64 bits, or zero
    size_t k = 0;
    while (k < size && (buf[k] & 0x80)) k++;
    if (k < size && k < 9) {
      uint64_t u = 0;
      for (size_t i = 0; i <= k; i++) u |= (uint64_t)(buf[i] & 0x7f) << (7 * i);
      vp_check(u == 0, "a complete varint of up to 9 bytes is accepted unless it is the NaN marker");
    }
    vp_reach("rejected");
  }
  free(buf);
}
extern "C" void vp_main() {
  if (vp_param("mode", 0) == 0) roundtrip(); else arbitrary();
}
