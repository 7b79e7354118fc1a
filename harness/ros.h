// Independent reader and writer of PointCloud2 and CompressedPointCloud2 messages (plain CDR, either byte order), for P15 and P19.
#pragma once
#include <cstdlib>
#include "cloud.h"
#include "cloudini_lib/ros_msg_utils.hpp"
struct Msg {
  bool big = false;
  uint32_t sec = 0, nsec = 0, height = 0, width = 0, step = 0, row = 0;
  std::string frame;
  std::vector<PointField> fields;
  uint32_t count = 1;  // of every field
  uint8_t bigendian = 0, dense = 0;
  std::vector<uint8_t> data;
  bool compressed = false;
  std::string format = "cloudini";
};
struct CdrW {
  std::vector<uint8_t> b;
  bool big;
  explicit CdrW(bool be) : b{0, (uint8_t)(be ? 0 : 1), 0, 0}, big(be) {}
  void u8(uint8_t v) { b.push_back(v); }
  void u32(uint32_t v) {
    while (b.size() % 4) b.push_back(0);
    for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (big ? 24 - 8 * i : 8 * i)));
  }
  void str(const std::string& s) { u32((uint32_t)s.size() + 1); for (char c : s) b.push_back((uint8_t)c); b.push_back(0); }
  void bytes(const std::vector<uint8_t>& d) { u32((uint32_t)d.size()); b.insert(b.end(), d.begin(), d.end()); }
};
static std::vector<uint8_t> writeMsg(const Msg& m) {
  CdrW w(m.big);
  w.u32(m.sec); w.u32(m.nsec); w.str(m.frame); w.u32(m.height); w.u32(m.width); w.u32((uint32_t)m.fields.size());
  for (auto& f : m.fields) { w.str(f.name); w.u32(f.offset); w.u8((uint8_t)f.type); w.u32(m.count); }
  w.u8(m.bigendian); w.u32(m.step); w.u32(m.row); w.bytes(m.data); w.u8(m.dense);
  if (m.compressed) w.str(m.format);
  return w.b;
}
// exact-size copy on the heap, so that every access outside is a memory error
struct Exact {
  uint8_t* p;
  size_t n;
  explicit Exact(const std::vector<uint8_t>& v) : p((uint8_t*)malloc(v.size() ? v.size() : 1)), n(v.size()) { if (n) memcpy(p, v.data(), n); }
  ~Exact() { free(p); }
  ConstBufferView view() const { return ConstBufferView(p, n); }
};
static bool strEq(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
// message of the configured cloud with symbolic metadata
static Msg genMsg(const Cfg& c, bool big, bool fixed = false) {
  Msg m;
  m.big = big;
  m.sec = fixed ? 1234567u : vp_sym<uint32_t>("sec");
  m.nsec = fixed ? 0x01000002u : vp_sym<uint32_t>("nsec");
  m.frame.assign((size_t)vp_choose((int)vp_param("frame", 2) + 1, "frame length"), 'x');
  if (m.frame.size() && !fixed) vp_make_symbolic(m.frame.data(), m.frame.size(), "frame");
  m.height = c.info.height; m.width = c.info.width; m.step = c.info.point_step;
  m.row = fixed ? m.step * m.width : vp_sym<uint32_t>("row_step");
  m.fields = c.info.fields;
  m.dense = vp_sym<uint8_t>("dense") & 1;
  m.data.resize((size_t)m.height * m.width * m.step);
  genCloud(c, m.data.data(), (size_t)m.height * m.width);
  return m;
}
template <class T> static bool rosWithinT(const uint8_t* a, const uint8_t* b, double res) {
  T x, y;
  std::memcpy(&x, a, sizeof x);
  std::memcpy(&y, b, sizeof y);
  if (x != x) return y != y;
  double d = (double)y - (double)x, m = x < 0 ? -(double)x : (double)x;
  if (d < 0) d = -d;
  return d <= 0.5 * res * (1 + 0x1p-20) + m * (sizeof(T) == 4 ? 0x1p-21 : 0x1p-50);
}
static void checkPoints(const EncodingInfo& info, const uint8_t* in, const uint8_t* out, size_t n) {
  for (size_t k = 0; k < n; k++)
    for (auto& f : info.fields) {
      const uint8_t *a = in + k * info.point_step + f.offset, *b = out + k * info.point_step + f.offset;
      if (lossless(info, f)) vp_check_mem(b, a, SizeOf(f.type), "lossless field restored exactly");
      else vp_check(f.type == FieldType::FLOAT32 ? rosWithinT<float>(a, b, *f.resolution) : rosWithinT<double>(a, b, *f.resolution), "lossy field within tolerance");
    }
}
