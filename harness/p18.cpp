// P18: applyResolutionProfile removes exactly the fields profiled with 0, sets the others, leaves the rest alone.
#include <map>
#include <optional>
#include "ros.h"
using namespace cloudini_ros;
static bool sameBits(float a, float b) { uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; }
static const char* NAMES[] = {"x", "y", "xx", ""};
extern "C" void vp_main() {
  const int n = (int)vp_param("n", 3);
  std::vector<PointField> f((size_t)n);
  for (auto& x : f) {
    x.name = NAMES[vp_choose((int)vp_param("names", 3), "name")];
    x.offset = vp_sym<uint32_t>("offset");
    x.type = (FieldType)vp_sym<uint8_t>("type");
    if (vp_choose(2, "has resolution")) x.resolution = vp_sym<float>("resolution");
  }
  if (vp_param("mode", 0) == 1) {  // toEncodingInfo
    RosPointCloud2 pc;
    pc.width = vp_sym<uint32_t>("width"); pc.height = vp_sym<uint32_t>("height"); pc.point_step = vp_sym<uint32_t>("step");
    pc.row_step = vp_sym<uint32_t>("row"); pc.is_dense = vp_sym<uint8_t>("dense") & 1;
    pc.fields = f;
    const EncodingInfo e = toEncodingInfo(pc);
    vp_check(e.width == pc.width && e.height == pc.height && e.point_step == pc.point_step, "dimensions");
    vp_check(e.fields.size() == f.size() && pc.fields.size() == f.size(), "number of fields");
    for (size_t i = 0; i < f.size() && i < e.fields.size(); i++) {
      vp_check(strEq(e.fields[i].name, f[i].name), "name");
      vp_check(e.fields[i].offset == f[i].offset && e.fields[i].type == f[i].type, "offset and type");
      vp_check(e.fields[i].resolution.has_value() == f[i].resolution.has_value(), "resolution present");
      if (f[i].resolution && e.fields[i].resolution) vp_check(sameBits(*e.fields[i].resolution, *f[i].resolution), "resolution");
    }
    vp_check(e.version == EncodingInfo().version, "current version");
    vp_reach("converted");
    return;
  }
  ResolutionProfile p;
  for (int i = 0; i < (int)vp_param("names", 3); i++)
    if (vp_choose(2, "profiled")) p[NAMES[i]] = vp_sym<float>("profile");
  if (vp_param("other", 0) && vp_choose(2, "unrelated entry")) p["zz"] = vp_sym<float>("profile");
  std::optional<float> def;
  if (vp_choose(2, "default")) def = vp_sym<float>("default");
  std::vector<PointField> got = f;
  applyResolutionProfile(p, got, def);
  std::vector<PointField> want;
  for (auto& x : f) {
    PointField y = x;
    bool listed = false;
    float v = 0;
    for (auto& e : p) if (strEq(e.first, x.name)) { listed = true; v = e.second; }
    if (listed && v == 0) continue;
    if (listed) y.resolution = v;
    else if (def && (uint8_t)x.type == 7) y.resolution = *def;
    want.push_back(y);
  }
  vp_check(got.size() == want.size(), "exactly the fields profiled with 0 are removed");
  if (got.size() == want.size())
    for (size_t i = 0; i < want.size(); i++) {
      vp_check(strEq(got[i].name, want[i].name), "order and names");
      vp_check(got[i].offset == want[i].offset && got[i].type == want[i].type, "offset and type unchanged");
      vp_check(got[i].resolution.has_value() == want[i].resolution.has_value(), "resolution present");
      if (got[i].resolution && want[i].resolution) vp_check(sameBits(*got[i].resolution, *want[i].resolution), "resolution");
    }
  vp_reach(want.size() < f.size() ? "removed" : "kept");
}
