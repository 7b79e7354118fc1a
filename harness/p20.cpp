// P20: a field marked kDecodeButSkipStore is consumed but never stored, and changes nothing else.
#include <cstdlib>
#include "cloud.h"
extern "C" void vp_main() {
  Cfg c = loadCfg();
  EncodingInfo info = c.info;
  const size_t n = (size_t)info.width * info.height, step = info.point_step;
  std::vector<uint8_t> in(n * step), enc;
  genCloud(c, in.data(), n);
  PointcloudEncoder e(info);
  e.encode(ConstBufferView(in.data(), in.size()), enc);
  ConstBufferView v(enc.data(), enc.size());
  EncodingInfo h = DecodeHeader(v);
  uint8_t* plain = (uint8_t*)malloc(n * step);
  uint8_t* skip = (uint8_t*)malloc(n * step);
  memset(plain, 0x3C, n * step);
  memset(skip, 0x3C, n * step);
  PointcloudDecoder d;
  d.decode(h, v, BufferView(plain, n * step));
  // which fields to skip: every non-empty subset
  const int nf = (int)h.fields.size();
  const int mask = 1 + vp_choose((1 << nf) - 1, "skipped");
  EncodingInfo s = h;
  for (int i = 0; i < nf; i++) if (mask >> i & 1) s.fields[i].offset = kDecodeButSkipStore;
  bool ok = true;
  try { PointcloudDecoder d2; d2.decode(s, v, BufferView(skip, n * step)); } catch (const std::exception&) { ok = false; }
  vp_check(ok, "decoding with skipped fields succeeds");
  if (ok)
    for (size_t k = 0; k < n; k++)
      for (int i = 0; i < nf; i++) {
        const size_t at = k * step + h.fields[i].offset, sz = SizeOf(h.fields[i].type);
        if (mask >> i & 1) {
          for (size_t b = 0; b < sz; b++) vp_check(skip[at + b] == 0x3C, "a skipped field is not stored");
        } else vp_check_mem(skip + at, plain + at, sz, "the other fields are as without skipping");
      }
  vp_sink(skip, n * step, "out");
  vp_reach("done");
  free(plain);
  free(skip);
}
