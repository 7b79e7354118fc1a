// P09: MaxCompressedSize bounds every output; encoding stays inside a buffer of exactly that size; smaller ones are rejected.
#include <cstdlib>
#include "cloud.h"
extern int vp_comp_worst, vp_comp_touch;
extern "C" void vp_main() {
  Cfg c = loadCfg();
  const EncodingInfo& info = c.info;
  const size_t n = (size_t)vp_param("n", (long)info.width * info.height), step = info.point_step;
  std::vector<uint8_t> in(n * step);
  genCloud(c, in.data(), n);
  vp_comp_worst = (int)vp_param("worst", 0);
  vp_comp_touch = (int)vp_param("touch", 0);
  const bool header = vp_param("header", 1);
  const size_t cap = MaxCompressedSize(info, n, header);
  PointcloudEncoder e(info);
  const long small = vp_param("small", 0);
  size_t size = cap;
  if (small == 1) size = (size_t)vp_choose((int)cap, "capacity");           // every smaller capacity
  else if (small == 2) { vp_make_symbolic(&size, 8, "capacity"); vp_assume(size < cap); }
  const size_t alloc = small == 2 ? 0 : size;
  uint8_t* buf = (uint8_t*)malloc(alloc ? alloc : 1);
  BufferView out(buf, size);
  bool ok = true;
  size_t got = 0;
  try { got = e.encode(ConstBufferView(in.data(), in.size()), out, header); } catch (const std::exception&) { ok = false; }
  if (small) {
    vp_check(!ok, "a buffer smaller than MaxCompressedSize is rejected");
  } else {
    vp_check(ok, "encoding into a buffer of MaxCompressedSize succeeds");
    vp_check(got <= cap, "the encoded size is within MaxCompressedSize");
    if (ok) {
      std::vector<uint8_t> v;
      size_t got2 = 0;
      try { PointcloudEncoder e2(info); got2 = e2.encode(ConstBufferView(in.data(), in.size()), v); } catch (const std::exception&) { vp_fail("encoding into a vector succeeds"); }
      vp_check(v.size() == got2 && v.size() <= MaxCompressedSize(info, n, true), "the vector output is within MaxCompressedSize");
      if (header) vp_check(got2 == got, "both overloads produce the same number of bytes");
      if (!vp_param("nosink", 0)) vp_sink(buf, got < 64 ? got : 64, "encoded");
    }
  }
  vp_reach(ok ? "encoded" : "rejected");
  free(buf);
}
