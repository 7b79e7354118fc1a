// P02, P03, P05: what the encoder produces decodes, in full, to the same cloud.
#include "cloud.h"
#include <cmath>
#include <cstdlib>
template <class T> static bool withinT(const uint8_t* a, const uint8_t* b, double res) {
  T x, y;
  std::memcpy(&x, a, sizeof x);
  std::memcpy(&y, b, sizeof y);
  if (x != x) return y != y;
  double d = (double)y - (double)x, m = x < 0 ? -(double)x : (double)x;
  if (d < 0) d = -d;
  return d <= 0.5 * res * (1 + 0x1p-20) + m * (sizeof(T) == 4 ? 0x1p-21 : 0x1p-50);
}
static bool within(const uint8_t* a, const uint8_t* b, const PointField& f) {
  return f.type == FieldType::FLOAT32 ? withinT<float>(a, b, *f.resolution) : withinT<double>(a, b, *f.resolution);
}
// field lists that may not fit inside point_step: rejected, without a read outside the cloud
static void misfit(Cfg c) {
  EncodingInfo& info = c.info;
  const uint32_t lim = (uint32_t)vp_param("lim", 12);
  info.point_step = 1 + (uint32_t)vp_choose((int)lim, "point_step");
  const size_t which = (size_t)vp_choose((int)info.fields.size(), "field"), n = (size_t)info.width * info.height;
  PointField& f = info.fields[which];
  if (vp_param("anytype", 0)) {
    f.type = (FieldType)(1 + vp_choose(10, "type"));
    if (f.type != FieldType::FLOAT32 && f.type != FieldType::FLOAT64) f.resolution.reset();
  }
  f.offset = vp_sym<uint32_t>("offset");
  vp_assume(f.offset != kDecodeButSkipStore);
  bool fits = true;
  for (auto& x : info.fields) fits = fits & ((uint64_t)x.offset + SizeOf(x.type) <= info.point_step);
  uint8_t* in = (uint8_t*)malloc(n * info.point_step);
  std::memset(in, 0, n * info.point_step);
  bool ok = true;
  try {
    PointcloudEncoder e(info);
    std::vector<uint8_t> enc;
    e.encode(ConstBufferView(in, n * info.point_step), enc);
  } catch (const std::exception&) { ok = false; }
  free(in);
  vp_check(ok == fits, "a field list is accepted exactly when it fits inside point_step");
  vp_reach(ok ? "fits" : "misfit");
}
extern "C" void vp_main() {
  Cfg c = loadCfg();
  if (vp_param("misfit", 0)) return misfit(c);
  const EncodingInfo& info = c.info;
  const size_t n = (size_t)info.width * info.height, step = info.point_step;
  std::vector<uint8_t> in(n * step), enc;
  genCloud(c, in.data(), n);
  // quantised floats: only values inside the quantizer's range are in scope
  const bool lossy = vp_param("lossy", 1);
  for (size_t i = 0; i < info.fields.size(); i++) {
    const PointField& f = info.fields[i];
    if (lossless(info, f)) continue;
    for (size_t k = 0; k < n; k++) {
      const uint8_t* p = in.data() + k * step + f.offset;
      if (f.type == FieldType::FLOAT32) {
        float v; std::memcpy(&v, p, 4);
        const float lim = *f.resolution * 1073741824.0f;
        vp_assume(v != v || (v <= lim && v >= -lim));
      } else {
        double v; std::memcpy(&v, p, 8);
        const double lim = (double)*f.resolution * 2251799813685248.0;
        vp_assume(v != v || (v <= lim && v >= -lim));
      }
    }
  }
  PointcloudEncoder e(info);
  size_t got = e.encode(ConstBufferView(in.data(), in.size()), enc);
  vp_check(got == enc.size(), "encode returns the number of bytes produced");
  ConstBufferView v(enc.data(), enc.size());
  EncodingInfo h = DecodeHeader(v);
  vp_check(h.width == info.width && h.height == info.height && h.point_step == info.point_step && h.version == info.version, "header dimensions restored");
  vp_check(h.fields.size() == info.fields.size(), "header field count restored");
  uint8_t fill = vp_sym<uint8_t>("fill");
  std::vector<uint8_t> out(n * step, fill);
  PointcloudDecoder d;
  d.decode(h, v, BufferView(out.data(), out.size()));
  for (size_t k = 0; k < n; k++) {
    for (size_t i = 0; i < info.fields.size(); i++) {
      const PointField& f = info.fields[i];
      const uint8_t* a = in.data() + k * step + f.offset;
      const uint8_t* b = out.data() + k * step + f.offset;
      if (lossless(info, f)) vp_check_mem(b, a, SizeOf(f.type), "lossless field restored exactly");
      else if (lossy) vp_check(within(a, b, f), "lossy field within tolerance");
    }
    for (size_t b = 0; b < step; b++)
      if (!covered(c, b)) vp_check(out[k * step + b] == fill, "padding of the output untouched");
  }
  vp_sink(enc.data(), enc.size(), "encoded");
  vp_reach("done");
}
