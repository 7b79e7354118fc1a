// P16: copies, moves and assignments of RosPointCloud2 keep content, metadata and the data view valid.
#include <memory>
#include <new>
#include "ros.h"
using namespace cloudini_ros;
struct Model {  // what an object must look like
  bool live = false, moved = false;  // moved-from objects may only be assigned to or destroyed
  int kind = 0;                      // 0 default, 1 owned, 2 external, 3 external data beside a stale owned buffer, 4 empty view with metadata
  int tag = 0;                       // which original it came from
};
static const int ORIG = 3;
static std::vector<uint8_t> content[ORIG];
static uint8_t* ext[ORIG];
static size_t extN[ORIG];
static Msg meta[ORIG];
static nanocdr::CdrHeader cdr[ORIG];
static void fill(RosPointCloud2& pc, int kind, int t) {
  Msg& m = meta[t];
  m.sec = vp_sym<uint32_t>("sec"); m.nsec = vp_sym<uint32_t>("nsec"); m.height = vp_sym<uint32_t>("height"); m.width = vp_sym<uint32_t>("width");
  m.step = vp_sym<uint32_t>("step"); m.row = vp_sym<uint32_t>("row"); m.dense = vp_sym<uint8_t>("dense") & 1; m.bigendian = vp_sym<uint8_t>("big") & 1;
  m.frame = t ? "a long frame id that needs the heap" : "f";
  m.fields.resize((size_t)t + 1);
  for (auto& f : m.fields) { f.name = t ? "field name longer than sixteen characters" : "x"; f.offset = vp_sym<uint32_t>("offset"); f.type = (FieldType)vp_sym<uint8_t>("type"); f.resolution = vp_sym<float>("res"); }
  if (kind == 0) return;
  pc.ros_header.stamp_sec = m.sec; pc.ros_header.stamp_nsec = m.nsec; pc.ros_header.frame_id = m.frame;
  pc.height = m.height; pc.width = m.width; pc.point_step = m.step; pc.row_step = m.row; pc.is_dense = m.dense; pc.is_bigendian = m.bigendian; pc.fields = m.fields;
  cdr[t].endianness = t % 2 ? nanocdr::Endianness::CDR_BIG_ENDIAN : nanocdr::Endianness::CDR_LITTLE_ENDIAN;
  pc.cdr_header = cdr[t];
  content[t].resize((size_t)3 + (size_t)t);
  vp_make_symbolic(content[t].data(), content[t].size(), "content");
  if (kind == 1) { pc.owned_data = content[t]; pc.data = ConstBufferView(pc.owned_data.data(), pc.owned_data.size()); }
  if (kind == 2 || kind == 3) {
    extN[t] = content[t].size();
    ext[t] = (uint8_t*)malloc(extN[t]);
    memcpy(ext[t], content[t].data(), extN[t]);
    pc.data = ConstBufferView(ext[t], extN[t]);
    if (kind == 3) pc.owned_data = {1, 2, 3, 4, 5, 6, 7};
  }
}
static void check(const RosPointCloud2& pc, const Model& m) {
  const int t = m.tag;
  if (m.kind == 0) { vp_check(pc.data.size() == 0 && pc.owned_data.empty() && pc.fields.empty() && pc.height == 1 && pc.width == 0 && pc.is_dense, "default object"); return; }
  const Msg& w = meta[t];
  vp_check(pc.ros_header.stamp_sec == w.sec && pc.ros_header.stamp_nsec == w.nsec, "stamp");
  vp_check(strEq(pc.ros_header.frame_id, w.frame), "frame");
  vp_check(pc.height == w.height && pc.width == w.width && pc.point_step == w.step && pc.row_step == w.row, "dimensions");
  vp_check(pc.is_dense == (w.dense != 0) && pc.is_bigendian == (w.bigendian != 0), "flags");
  vp_check(pc.cdr_header.endianness == cdr[t].endianness && pc.cdr_header.encoding == cdr[t].encoding, "CDR header");
  vp_check(pc.fields.size() == w.fields.size(), "number of fields");
  if (pc.fields.size() == w.fields.size())
    for (size_t i = 0; i < w.fields.size(); i++) {
      uint32_t a = 0, b = 0;
      if (pc.fields[i].resolution) { std::memcpy(&a, &*pc.fields[i].resolution, 4); std::memcpy(&b, &*w.fields[i].resolution, 4); }
      vp_check(strEq(pc.fields[i].name, w.fields[i].name) && pc.fields[i].offset == w.fields[i].offset && pc.fields[i].type == w.fields[i].type && pc.fields[i].resolution.has_value() && a == b, "field");
    }
  if (m.kind == 4) { vp_check(pc.data.size() == 0, "empty data"); return; }
  vp_check(pc.data.size() == content[t].size(), "size of the data");
  if (pc.data.size() != content[t].size()) return;
  if (m.kind == 1) {
    vp_check(pc.owned_data.size() == content[t].size() && pc.data.data() == pc.owned_data.data(), "the view points into the object's own buffer");
    vp_check_mem(pc.owned_data.data(), content[t].data(), pc.owned_data.size(), "owned content");
  } else vp_check(pc.data.data() == ext[t], "a view of external memory keeps pointing at it");
  vp_check_mem(pc.data.data(), content[t].data(), content[t].size(), "content");  // a dangling view is a memory error
}
extern "C" void vp_main() {
  const int N = (int)vp_param("objects", 3), K = (int)vp_param("ops", 2);
  RosPointCloud2* o[6] = {};
  Model m[6];
  for (int i = 0; i < N; i++) {
    if (i >= ORIG || i >= (int)vp_param("filled", 2)) continue;
    m[i].live = true; m[i].tag = i;
    m[i].kind = vp_choose(5, "kind");
    o[i] = new RosPointCloud2();
    fill(*o[i], m[i].kind, i);
    check(*o[i], m[i]);
  }
  for (int k = 0; k < K; k++) {
    const int op = vp_choose(6, "operation"), d = vp_choose(N, "destination"), s = vp_choose(N, "source");
    const bool usable = m[s].live && !m[s].moved;
    if (op < 2) {  // copy or move construction of a new object
      if (!usable || m[d].live) vp_prune();
      o[d] = op == 0 ? new RosPointCloud2(*o[s]) : new RosPointCloud2(std::move(*o[s]));
    } else if (op < 4) {  // copy or move assignment, also to itself
      if (!usable || !m[d].live) vp_prune();
      if (op == 2) *o[d] = *o[s]; else *o[d] = std::move(*o[s]);
    } else if (op == 4) {  // destroy
      if (!m[d].live || s) vp_prune();
      delete o[d];
      o[d] = nullptr;
      m[d].live = false;
      continue;
    } else {  // by value through a container that moves its elements
      if (!usable || m[d].live) vp_prune();
      std::vector<RosPointCloud2> v;
      v.push_back(*o[s]);
      v.reserve(v.capacity() + 1);
      o[d] = new RosPointCloud2(std::move(v[0]));
    }
    const Model from = m[s];
    if ((op == 1 || op == 3) && d != s) m[s].moved = true;
    m[d] = from;
    m[d].live = true;
    check(*o[d], m[d]);
    if ((op == 0 || op == 2 || op == 5) && s != d) check(*o[s], m[s]);
  }
  for (int i = 0; i < N; i++) {  // everything alive is still valid after the others are gone
    if (m[i].live && !m[i].moved) check(*o[i], m[i]);
    if (m[i].live && (m[i].moved || vp_param("order", 0))) { delete o[i]; o[i] = nullptr; m[i].live = false; }
  }
  for (int i = 0; i < N; i++) if (m[i].live) { check(*o[i], m[i]); delete o[i]; }
  vp_reach("done");
}
