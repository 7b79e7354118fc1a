// P07: decoding any payload against any header.  The payload and output buffers have their exact size, so every
// access outside them is a memory error (engine and AddressSanitizer replay alike).
#include <cstdlib>
#include "cloud.h"
extern "C" void vp_main() {
  Cfg c = loadCfg();
  EncodingInfo& info = c.info;
  const long hsym = vp_param("hsym", 0);
  if (hsym & 1)  // field offsets
    for (auto& f : info.fields) {
      uint32_t v;
      vp_make_symbolic(&v, 4, "offset");
      f.offset = v;
    }
  if (hsym & 2)  // field types, including ones no encoder writes
    for (auto& f : info.fields) f.type = (FieldType)vp_choose(13, "type");
  if (hsym & 4) info.point_step = (uint32_t)vp_choose((int)vp_param("maxstep", 6) + 1, "step");
  if (hsym & 8) { info.width = (uint32_t)vp_choose(3, "width"); info.height = (uint32_t)vp_choose(3, "height"); }
  if (hsym & 16) { info.version = (uint8_t)(2 + vp_choose(4, "version")); }
  if (hsym & 32) info.encoding_opt = (EncodingOptions)vp_choose(4, "enc");
  if (hsym & 64) info.compression_opt = (CompressionOption)vp_choose(4, "comp");
  if (hsym & 128)
    for (auto& f : info.fields) {
      float r;
      vp_make_symbolic(&r, 4, "res");
      if (r > 0) f.resolution = r; else f.resolution.reset();
    }
  if (hsym & 256) { vp_make_symbolic(&info.width, 4, "w"); vp_make_symbolic(&info.height, 4, "h"); }
  if (hsym & 512) vp_make_symbolic(&info.point_step, 4, "s");
  // payload: [lead: fixed framing][len symbolic bytes]
  const long lo = vp_param("lo", 0), hi = vp_param("hi", 8), framed = vp_param("framed", 0), nch = vp_param("chunks", 1);
  std::vector<uint8_t> fix;
  uint8_t* pay = nullptr;
  size_t size = 0;
  std::vector<uint8_t> tmp;
  for (long k = 0; k < (framed ? nch : 1); k++) {
    const size_t len = (size_t)(lo + vp_choose((int)(hi - lo + 1), "len"));
    const size_t at = tmp.size();
    if (framed) {
      const uint32_t sz = (uint32_t)(len + (framed == 2 ? 9 : 0));
      tmp.insert(tmp.end(), (const uint8_t*)&sz, (const uint8_t*)&sz + 4);
    }
    if (framed == 2) {
      const uint32_t n = (uint32_t)len, t = n + 9;
      tmp.push_back(info.compression_opt == CompressionOption::LZ4 ? 0xA5 : 0x5A);
      tmp.insert(tmp.end(), (const uint8_t*)&n, (const uint8_t*)&n + 4);
      tmp.insert(tmp.end(), (const uint8_t*)&t, (const uint8_t*)&t + 4);
    }
    const size_t body = tmp.size();
    tmp.resize(body + len);
    // optional prefix of the body, e.g. a V5 mode byte: param pre, hex digits
    char pre[64];
    long np = vp_sparam("pre", pre, sizeof pre) / 2;
    auto hx = [](char d) { return d <= '9' ? d - '0' : d - 'a' + 10; };
    if (np > (long)len) np = (long)len;
    for (long i = 0; i < np; i++) tmp[body + i] = (uint8_t)(hx(pre[2 * i]) * 16 + hx(pre[2 * i + 1]));
    const long pal = vp_param("pal", -1);  // position of a palette section: mode byte and an enumerated palette size
    if (pal >= 0 && (long)len >= pal + 3) {
      static const uint16_t counts[] = {0, 1, 2, 3, 4, 5, 9, 17, 257, 65535};
      const uint16_t cnt = counts[vp_choose(10, "palette")];
      np = pal + 3;
      tmp[body + pal] = 1;
      tmp[body + pal + 1] = (uint8_t)cnt;
      tmp[body + pal + 2] = (uint8_t)(cnt >> 8);
      if (pal) vp_make_symbolic(tmp.data() + body, pal, "payload");
    }
    if ((long)len > np) vp_make_symbolic(tmp.data() + body + np, len - np, "payload");
    (void)at;
    const long nopal = vp_param("nopal", -1);
    if (nopal >= 0 && (long)len > nopal) vp_assume(tmp[body + nopal] != 1);
  }
  size = tmp.size();
  pay = (uint8_t*)malloc(size ? size : 1);
  if (size) memcpy(pay, tmp.data(), size);
  uint64_t want = 0;
  long outsz = vp_param("out", -1);
  if (hsym & (256 | 512)) want = (uint64_t)(outsz < 0 ? 8 : outsz);
  else want = outsz >= 0 ? (uint64_t)outsz : (uint64_t)info.width * info.height * info.point_step;
  if (vp_param("short", 0)) { size_t cut = (size_t)vp_choose((int)want + 1, "cut"); want -= cut; }
  uint8_t* out = (uint8_t*)malloc(want ? want : 1);
  memset(out, 0xA7, want ? want : 1);
  bool ok = true;
  try {
    PointcloudDecoder d;
    d.decode(info, ConstBufferView(pay, size), BufferView(out, want));
  } catch (const std::exception&) {
    ok = false;
  }
  if (ok) {
    vp_reach("decoded");
    vp_sink(out, want, "out");
    if (!(hsym & 768) && info.version >= 3)
      vp_check(want >= (uint64_t)info.width * info.height * info.point_step, "an output buffer smaller than the declared cloud is rejected");
  } else vp_reach("rejected");
  free(out);
  free(pay);
}
