// P04: a lossy value decodes to the same result whatever surrounds it (other points, NaN in other fields or points), so the
// error bound of a single point (roundtrip.cpp) holds for every point of every cloud.
#include "cloud.h"
static std::vector<uint8_t> through(const EncodingInfo& info, const std::vector<uint8_t>& in) {
  std::vector<uint8_t> enc;
  PointcloudEncoder e(info);
  e.encode(ConstBufferView(in.data(), in.size()), enc);
  ConstBufferView v(enc.data(), enc.size());
  EncodingInfo h = DecodeHeader(v);
  std::vector<uint8_t> out(in.size(), 0x3C);
  PointcloudDecoder d;
  d.decode(h, v, BufferView(out.data(), out.size()));
  return out;
}
static bool isNaN(const uint8_t* p, const PointField& f) {
  if (f.type == FieldType::FLOAT32) { float x; std::memcpy(&x, p, 4); return x != x; }
  double x;
  std::memcpy(&x, p, 8);
  return x != x;
}
extern "C" void vp_main() {
  Cfg c = loadCfg();
  const EncodingInfo& info = c.info;
  const size_t n = (size_t)info.width * info.height, step = info.point_step;
  std::vector<uint8_t> in(n * step);
  genCloud(c, in.data(), n);
  const int target = (int)vp_param("target", -1);  // only one value of the cloud is symbolic
  if (target >= 0) { const PointField& f = info.fields[(size_t)target % info.fields.size()]; vp_make_symbolic(in.data() + ((size_t)target / info.fields.size()) * step + f.offset, SizeOf(f.type), "target"); }
  const int nanpoint = (int)vp_param("nanpoint", -1);  // NaN only in this point
  const int nanmask = nanpoint >= 0 ? vp_choose(1 << (int)info.fields.size(), "NaN placement") << (nanpoint * (int)info.fields.size()) : vp_param("nan", 0) ? vp_choose(1 << (int)((n - (size_t)vp_param("clean", 0)) * info.fields.size()), "NaN placement") : 0;
  for (size_t k = 0; k < n; k++)
    for (size_t i = 0; i < info.fields.size(); i++) {
      const PointField& f = info.fields[i];
      uint8_t* p = in.data() + k * step + f.offset;
      if ((int)(k * info.fields.size() + i) != target && nanmask >> (k * info.fields.size() + i) & 1) {
        if (f.type == FieldType::FLOAT32) { const float q = __builtin_nanf(""); std::memcpy(p, &q, 4); } else if (f.type == FieldType::FLOAT64) { const double q = __builtin_nan(""); std::memcpy(p, &q, 8); }
        continue;
      }
      if (lossless(info, f)) continue;
      if (f.type == FieldType::FLOAT32) {
        float v; std::memcpy(&v, p, 4);
        const float lim = *f.resolution * 1073741824.0f;
        vp_assume((v != v) | ((v <= lim) & (v >= -lim)));
      } else {
        double v; std::memcpy(&v, p, 8);
        const double lim = (double)*f.resolution * 2251799813685248.0;
        vp_assume((v != v) | ((v <= lim) & (v >= -lim)));
      }
    }
  const std::vector<uint8_t> out = through(info, in);
  const size_t k = vp_param("point", -1) >= 0 ? (size_t)vp_param("point", 0) : (size_t)vp_choose((int)n, "point");
  EncodingInfo one = info;
  one.width = 1; one.height = 1;
  const std::vector<uint8_t> alone(in.begin() + (long)(k * step), in.begin() + (long)((k + 1) * step));
  const std::vector<uint8_t> ref = through(one, alone);
  for (auto& f : info.fields) {
    const uint8_t *a = in.data() + k * step + f.offset, *b = out.data() + k * step + f.offset, *r = ref.data() + f.offset;
    if (!lossless(info, f) && isNaN(a, f)) vp_check(isNaN(b, f), "NaN stays NaN");
    else vp_check_mem(b, r, SizeOf(f.type), "a value decodes as it does alone");
  }
  // and each field alone
  if (vp_param("fieldalone", 1))
    for (size_t i = 0; i < info.fields.size(); i++) {
      const PointField& f = info.fields[i];
      if (lossless(info, f) || isNaN(alone.data() + f.offset, f)) continue;
      std::vector<uint8_t> other = alone;  // the other fields of the point replaced
      for (size_t j = 0; j < info.fields.size(); j++) if (j != i) std::memset(other.data() + info.fields[j].offset, j % 2 ? 0xFF : 0, SizeOf(info.fields[j].type));
      const std::vector<uint8_t> r = through(one, other);
      vp_check_mem(r.data() + f.offset, ref.data() + f.offset, SizeOf(f.type), "a value does not depend on the other fields");
    }
  vp_reach(nanmask ? "with NaN" : "done");
}
