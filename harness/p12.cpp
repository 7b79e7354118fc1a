// P12: encoding and decoding do not depend on earlier calls, nor on the contents of uninitialised or reused memory.
#include <cstdlib>
#include "cloud.h"
extern int vp_comp_fail_call, vp_comp_calls;
// encodes `in` with `e`; returns whether it succeeded
static bool enc(PointcloudEncoder& e, const std::vector<uint8_t>& in, std::vector<uint8_t>& out) {
  try { const size_t n = e.encode(ConstBufferView(in.data(), in.size()), out); vp_check(n == out.size(), "encode returns the size of its output"); return true; } catch (const std::exception&) { return false; }
}
static bool dec(PointcloudDecoder& d, const EncodingInfo& h, const std::vector<uint8_t>& p, std::vector<uint8_t>& out) {
  uint8_t* b = (uint8_t*)malloc(p.size() ? p.size() : 1);
  if (p.size()) memcpy(b, p.data(), p.size());
  bool ok = true;
  try { d.decode(h, ConstBufferView(b, p.size()), BufferView(out.data(), out.size())); } catch (const std::exception&) { ok = false; }
  free(b);
  return ok;
}
static std::vector<uint8_t> gen(const Cfg& c, size_t n) {
  std::vector<uint8_t> in(n * c.info.point_step);
  genCloud(c, in.data(), n);
  return in;
}
extern "C" void vp_main() {
  Cfg a = loadCfg("a"), c = loadCfg();
  const EncodingInfo& info = c.info;
  const size_t n = (size_t)info.width * info.height;
  const long mode = vp_param("mode", 0);
  if (mode == 0) {  // encoder: cloud A (cfg a only for its contents), possibly failing, then B
    const int how = vp_choose(6, "before");
    std::vector<uint8_t> inA = gen(a, (size_t)a.info.width * a.info.height), inB = gen(c, n), o1, o2;
    PointcloudEncoder e(info);
    bool ok = true;
    if (how == 1) { ok = enc(e, inA, o1); vp_check(ok, "the first cloud is encoded"); }
    else if (how == 2) { inA.pop_back(); ok = enc(e, inA, o1); vp_check(inA.size() % info.point_step == 0 || !ok, "a partial point is rejected"); }
    else if (how == 3) { uint8_t small[4]; BufferView v(small, 4); ok = true; try { e.encode(ConstBufferView(inA.data(), inA.size()), v, true); } catch (const std::exception&) { ok = false; } vp_check(!ok, "a small output buffer is rejected"); }
    else if (how == 4) {  // the compressor fails on some call
      if (info.compression_opt == CompressionOption::NONE) vp_prune();
      vp_comp_fail_call = vp_comp_calls + 1 + vp_choose((int)vp_param("fails", 2), "failing call");
      enc(e, inA, o1);
      vp_comp_fail_call = 0;
    } else if (how == 5) { ok = enc(e, inA, o1); std::vector<uint8_t> o3; ok = ok && enc(e, inB, o3); vp_check(ok, "the first clouds are encoded"); }
    vp_check(enc(e, inB, o1), "the cloud is encoded");
    PointcloudEncoder fresh(info);
    vp_check(enc(fresh, inB, o2), "a fresh encoder encodes the cloud");
    vp_check(o1.size() == o2.size(), "same size as from a fresh encoder");
    if (o1.size() == o2.size()) vp_check_mem(o1.data(), o2.data(), o1.size(), "same bytes as from a fresh encoder");
    vp_sink(o1.data(), o1.size() < 128 ? o1.size() : 128, "encoded");
  } else if (mode == 1) {  // caller's buffer with arbitrary contents, with and without header, against the vector overload
    std::vector<uint8_t> in = gen(c, n), o2;
    PointcloudEncoder e(info), fresh(info);
    const bool header = vp_choose(2, "header");
    const size_t cap = MaxCompressedSize(info, n, header) + (size_t)vp_choose(2, "room") * 7;
    uint8_t* b = (uint8_t*)malloc(cap);  // contents arbitrary
    BufferView v(b, cap);
    const size_t got = e.encode(ConstBufferView(in.data(), in.size()), v, header);
    vp_check(enc(fresh, in, o2), "a fresh encoder encodes the cloud");
    ConstBufferView w(o2.data(), o2.size());
    DecodeHeader(w);
    const uint8_t* q = header ? o2.data() : w.data();
    const size_t qn = header ? o2.size() : w.size();
    vp_check(got == qn, "both overloads give the same size");
    if (got == qn) vp_check_mem(b, q, qn, "both overloads give the same bytes, whatever the buffer held");
    vp_sink(b, got < 128 ? got : 128, "encoded");
    free(b);
  } else {  // decoder: stream A under header A, possibly damaged, then B
    std::vector<uint8_t> inB = gen(c, n), oa, ob;
    EncodingInfo ha = a.info;
    std::vector<uint8_t> pa, pb;
    if (mode == 2) {
      std::vector<uint8_t> inA = gen(a, (size_t)a.info.width * a.info.height);
      PointcloudEncoder ea(a.info);
      vp_check(enc(ea, inA, oa), "cloud A is encoded");
      ConstBufferView va(oa.data(), oa.size());
      ha = DecodeHeader(va);
      pa.assign(va.data(), va.data() + va.size());
      const int how = vp_choose(3, "damage");
      if (how == 1) pa.resize((size_t)vp_choose((int)pa.size(), "cut"));
      if (how == 2) { pa.push_back(0); pa.push_back(1); }
    } else {  // anything
      pa.resize(4 + (size_t)vp_param("len", 4));
      if (pa.size()) vp_make_symbolic(pa.data(), pa.size(), "payload");
      const uint32_t s = (uint32_t)pa.size() - 4;
      memcpy(pa.data(), &s, 4);
      if (ha.version < 3) pa.erase(pa.begin(), pa.begin() + 4);
    }
    PointcloudEncoder eb(info);
    vp_check(enc(eb, inB, ob), "cloud B is encoded");
    ConstBufferView vb(ob.data(), ob.size());
    const EncodingInfo hb = DecodeHeader(vb);
    pb.assign(vb.data(), vb.data() + vb.size());
    if (vp_param("cutb", 0)) pb.resize((size_t)vp_choose((int)pb.size() + 1, "cut b"));
    PointcloudDecoder d, fresh;
    std::vector<uint8_t> outA((size_t)ha.width * ha.height * ha.point_step + 1, 0x11), o1(n * info.point_step, 0x22), o2(n * info.point_step, 0x22);
    const bool first = dec(d, ha, pa, outA);
    const bool k1 = dec(d, hb, pb, o1), k2 = dec(fresh, hb, pb, o2);
    vp_check(k1 == k2, "the same outcome as with a fresh decoder");
    if (k1 && k2) vp_check_mem(o1.data(), o2.data(), o1.size(), "the same points as from a fresh decoder");
    vp_reach(first ? "A decoded" : "A rejected");
    if (k1) vp_sink(o1.data(), o1.size() < 128 ? o1.size() : 128, "out");
  }
  vp_reach("done");
}
