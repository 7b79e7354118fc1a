// P17: applyVizLossyPreprocessing keeps the first point of every voxel among the finite points, unchanged and in order.
#include <array>
#include <cmath>
#include "ros.h"
using namespace cloudini_ros;
static float bitsF(uint32_t u) { float f; std::memcpy(&f, &u, 4); return f; }
static bool finite(float f) { uint32_t u; std::memcpy(&u, &f, 4); return (u & 0x7F800000u) != 0x7F800000u; }
static bool sameFields(const std::vector<PointField>& a, const std::vector<PointField>& b, bool viz) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) {
    r &= strEq(a[i].name, b[i].name) && a[i].offset == b[i].offset && a[i].type == b[i].type;
    uint32_t x = 0, y = 0;
    const float want = (viz && b[i].type == FieldType::FLOAT64 && !b[i].resolution) ? 1e-6f : b[i].resolution.value_or(0);
    const bool has = b[i].resolution.has_value() || (viz && b[i].type == FieldType::FLOAT64);
    r &= a[i].resolution.has_value() == has;
    if (a[i].resolution) std::memcpy(&x, &*a[i].resolution, 4);
    if (has) std::memcpy(&y, &want, 4);
    r &= x == y;
  }
  return r;
}
// a coordinate: m 0 any float, 1 concrete table (NaN, infinities, ties), 2 finite in the documented voxel range, 3 low mantissa bits around a voxel boundary
static float coord(long m, float res) {
  static const uint32_t T[] = {0, 0x80000000u, 0x3F800000u, 0x3F000000u, 0x3EFFFFFFu, 0xBF000000u, 0x7FC00000u, 0x7F800000u, 0xFF800000u};
  if (m == 1) return bitsF(T[vp_choose((int)(sizeof T / sizeof *T), "coordinate")]);
  float f = vp_sym<float>("coordinate");
  uint32_t u;
  std::memcpy(&u, &f, 4);
  const float lim = 1000000.0f * res;
  if (m == 2) vp_assume((f > -lim) & (f < lim));
  if (m == 0) vp_assume(!finite(f) | ((f > -lim) & (f < lim)));
  if (m == 0 || m == 2) {  // the documented voxel range
    const long q = std::lround(f * (1.0f / res));
    vp_assume(!finite(f) | ((q >= -(1 << 20)) & (q < (1 << 20))));
  }
  if (m == 3) { uint8_t low = vp_sym<uint8_t>("low"); const uint32_t base = vp_choose(2, "sign") ? 0xBEFFFF80u : 0x3EFFFF80u; f = bitsF(base + low); }
  return f;
}
extern "C" void vp_main() {
  Cfg c = loadCfg();
  const long mode = vp_param("mode", 0);
  const EncodingInfo& info = c.info;
  const size_t n = (size_t)info.width * info.height, step = info.point_step, extra = (size_t)vp_param("extra", 0);
  std::vector<uint8_t> data(n * step + extra, 0xEE);
  genCloud(c, data.data(), n);
  RosPointCloud2 pc;
  pc.fields = info.fields; pc.width = info.width; pc.height = info.height; pc.point_step = info.point_step; pc.row_step = vp_sym<uint32_t>("row");
  pc.is_dense = vp_sym<uint8_t>("dense") & 1; pc.is_bigendian = vp_sym<uint8_t>("big") & 1;
  pc.ros_header.stamp_sec = 77; pc.ros_header.stamp_nsec = 88; pc.ros_header.frame_id = "frame";
  if (mode == 0) {
    const float res = *info.fields[0].resolution;
    // coordinates: the first `free` axes take the generator, the others are copies of the first point's
    const long gen = vp_param("gen", 0);
    const int axes = (int)vp_param("axes", 1);
    const int which = vp_param("axis", -1) >= 0 ? (int)vp_param("axis", 0) : 0;
    for (size_t k = 0; k < n; k++)
      for (int a = 0; a < 3; a++) {
        float f = bitsF(0x40000000u);  // 2.0
        const bool free = axes == 3 || (axes == 1 && a == which) || (axes == 2 && a != which);
        if (free) f = coord(gen, res);
        std::memcpy(data.data() + k * step + info.fields[(size_t)a].offset, &f, 4);
      }
    Exact x(data);
    pc.data = x.view();
    if (vp_param("warm", 0)) {  // the same thread has processed a message with these points before
      RosPointCloud2 earlier = pc;
      applyVizLossyPreprocessing(earlier);
    }
    applyVizLossyPreprocessing(pc);
    // reference
    std::vector<size_t> keep;
    std::vector<std::array<int64_t, 3>> vox;
    const float inv = 1.0f / res;
    for (size_t k = 0; k < n; k++) {
      float p[3];
      for (int a = 0; a < 3; a++) std::memcpy(&p[a], data.data() + k * step + info.fields[(size_t)a].offset, 4);
      if (!finite(p[0]) || !finite(p[1]) || !finite(p[2])) continue;
      std::array<int64_t, 3> q = {std::lround(p[0] * inv), std::lround(p[1] * inv), std::lround(p[2] * inv)};
      bool dup = false;
      for (auto& v : vox) if (v[0] == q[0] && v[1] == q[1] && v[2] == q[2]) { dup = true; break; }
      if (dup) continue;
      vox.push_back(q);
      keep.push_back(k);
    }
    vp_check(pc.width == keep.size() && pc.height == 1, "the dimensions count the kept points");
    vp_check(pc.row_step == pc.width * step && pc.point_step == step, "row_step");
    vp_check(pc.data.size() == keep.size() * step && pc.owned_data.size() == pc.data.size() && (pc.data.size() == 0 || pc.data.data() == pc.owned_data.data()), "data views the owned buffer");
    if (pc.data.size() == keep.size() * step)
      for (size_t j = 0; j < keep.size(); j++) vp_check_mem(pc.data.data() + j * step, data.data() + keep[j] * step, step, "a kept point is unchanged and in order");
    vp_check(sameFields(pc.fields, info.fields, true), "fields");
    vp_reach(keep.size() == n ? "all kept" : keep.empty() ? "none kept" : "some dropped");
  } else {  // fields that form no valid triple, or sizes that do not fit: nothing outside the data is read
    const long what = vp_param("what", 0);
    if (what & 1) for (auto& f : pc.fields) f.type = (FieldType)vp_choose(13, "type");
    if (what & 2) pc.fields[0].offset = vp_sym<uint32_t>("offset"), pc.fields[1].offset = pc.fields[0].offset + (vp_choose(2, "apart") ? 4 : 5), pc.fields[2].offset = pc.fields[0].offset + 8;
    if (what & 4) { static const uint32_t S[] = {0, 1, 8, 11, 12, 13, 16, 0x80000000u, 0xFFFFFFFFu}; pc.point_step = S[vp_choose((int)(sizeof S / sizeof *S), "step")]; }
    if (what & 8) for (int i = 0; i < 3; i++) { int k = vp_choose(5, "resolution"); if (k == 0) pc.fields[(size_t)i].resolution.reset(); else { static const float R[] = {0, 0.5f, -0.5f, 0.0f, __builtin_inff()}; pc.fields[(size_t)i].resolution = R[k]; } }
    if (what & 16) pc.fields.resize((size_t)vp_choose(4, "fields"));
    if (what & 32) data.resize((size_t)vp_choose((int)data.size() + 1, "size"));
    if (what & 64) pc.width = vp_sym<uint32_t>("width"), pc.height = vp_sym<uint32_t>("height");
    if (what & 128) for (size_t k = 0; k < n; k++) for (int a = 0; a < 3; a++) { float f = vp_sym<float>("any"); std::memcpy(data.data() + k * step + 4 * (size_t)a, &f, 4); }
    Exact x(data);
    pc.data = x.view();
    const RosPointCloud2 before = pc;
    applyVizLossyPreprocessing(pc);
    const auto& f = before.fields;
    const bool triple = f.size() >= 3 && before.point_step != 0 && (int)f[0].type == 7 && (int)f[1].type == 7 && (int)f[2].type == 7 && f[0].resolution && f[1].resolution && f[2].resolution &&
                        *f[0].resolution == *f[1].resolution && *f[0].resolution == *f[2].resolution && f[1].offset == f[0].offset + 4u && f[2].offset == f[0].offset + 8u && *f[0].resolution > 0 && *f[0].resolution < __builtin_inff();
    if (!triple) {
      vp_check(pc.data.data() == before.data.data() && pc.data.size() == before.data.size() && pc.owned_data.empty(), "without a geometry triple the data are untouched");
      vp_check(pc.width == before.width && pc.height == before.height && pc.row_step == before.row_step && pc.point_step == before.point_step, "without a geometry triple the dimensions are untouched");
      vp_check(sameFields(pc.fields, before.fields, false), "without a geometry triple the fields are untouched");
      vp_reach("no triple");
    } else {
      vp_check(pc.data.size() <= before.data.size(), "never more data than before");
      vp_reach("triple");
    }
  }
  vp_check(pc.ros_header.stamp_sec == 77 && pc.ros_header.stamp_nsec == 88 && strEq(pc.ros_header.frame_id, "frame"), "the header is untouched");
}
