// P19: the exported cldn_* entry points on valid, damaged and arbitrary input.
#include "ros.h"
#include "cloudini_lib/wasm_functions.h"
using namespace cloudini_ros;
typedef unsigned __int128 u128;
static const uint32_t DIMS[] = {0, 1, 2, 3, 5, 255, 65536, 0x10000001u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu};
static uint32_t dim(const char* what) { return DIMS[vp_choose((int)(sizeof DIMS / sizeof *DIMS), what)]; }
static const float RES[] = {0.01f, 1.0f, 0.0f, -1.0f, 1e-37f, 1e38f, __builtin_inff(), -__builtin_inff(), __builtin_nanf("")};
struct Out {  // exactly-sized output on the heap with known contents
  uint8_t* p;
  size_t n;
  explicit Out(size_t k) : p(nullptr), n((size_t)vp_concretize(k)) { p = (uint8_t*)malloc(n ? n : 1); if (!p) vp_prune(); memset(p, 0xA5, n); }
  ~Out() { free(p); }
  uintptr_t at() const { return (uintptr_t)p; }
  bool clean(size_t from) const { bool r = true; for (size_t i = from; i < n; i++) r &= p[i] == 0xA5; return r; }
};
#define CALL(expr) [&]() -> uint32_t { try { return (expr); } catch (...) { vp_fail("an exception leaves an exported function"); } return 0; }()
static const size_t LIMIT = 2048;
static uintptr_t at(const Exact& x) { return (uintptr_t)x.p; }
// every function that takes a message with compressed data, on arbitrary bytes
static void decodeSide(const std::vector<uint8_t>& bytes, bool mustFail) {
  Exact x(bytes);
  const uint32_t size = CALL(cldn_GetDecompressedSize(at(x), (uint32_t)x.n));
  if (size > LIMIT) { vp_reach("larger than the bound"); return; }
  Out out(size);
  const uint32_t got = CALL(cldn_DecodeCompressedMessage(at(x), (uint32_t)x.n, out.at()));
  vp_check(got == 0 || got == size, "the size written is the size announced");
  if (mustFail) vp_check(got == 0, "a damaged message is reported as 0");
  vp_reach(got ? "decoded" : "decode refused");
  Out big(size + x.n + 64);
  const uint32_t conv = CALL(cldn_ConvertCompressedMsgToPointCloud2Msg(at(x), (uint32_t)x.n, big.at()));
  vp_check(conv <= big.n && big.clean(conv), "no byte behind the returned size is written");
  if (mustFail) vp_check(conv == 0, "a damaged message is not converted");
  if (conv) {  // independent size: the message without its payload and format, plus the points
    vp_check(conv >= size && conv < size + x.n + 16, "converted size");
    vp_reach("converted");
  }
  Out yaml(1024);
  const uint32_t ny = CALL(cldn_GetHeaderAsYAMLFromDDS(at(x), (uint32_t)x.n, yaml.at()));
  vp_check(ny <= yaml.n && yaml.clean(ny), "no byte behind the returned size is written");
  if (mustFail == 1 && vp_param("headercut", 0)) vp_check(ny == 0, "a damaged header is reported as 0");
}
// every function that takes a PointCloud2 message
static void encodeSide(const std::vector<uint8_t>& bytes, float res, bool mustFail) {
  Exact x(bytes);
  Out out(x.n);  // capacity: the message size
  const uint32_t got = CALL(cldn_EncodePointcloudMessage(at(x), (uint32_t)x.n, res, out.at()));
  vp_check(got <= out.n, "the size returned fits into the caller's buffer");
  if (mustFail) vp_check(got == 0, "a damaged message is reported as 0");
  const uint32_t cs = CALL(cldn_ComputeCompressedSize(at(x), (uint32_t)x.n, res));
  if (got) vp_check(cs == got, "the computed size is the encoded size");
  vp_reach(got ? "encoded" : cs ? "too large" : "encode refused");
  if (got) {
    std::vector<uint8_t> enc(out.p, out.p + got);
    Exact e(enc);
    Out yaml(1024);
    const uint32_t ny = CALL(cldn_GetHeaderAsYAML(at(e), (uint32_t)e.n, yaml.at()));
    vp_check(ny > 0, "the encoded data has a readable header");
  }
}
// capacities around the boundary: a point step (its tail is not encoded) for which the caller's buffer and the encoded size, or the
// worst case, differ by -12..12
static uint32_t fittingStep(const Cfg& c, long fit, bool big) {
  const int delta = vp_choose(25, "difference") - 12;
  uint32_t step = 200;
  for (int round = 0; round < 4; round++) {
    Cfg d = c;
    d.info.point_step = step;
    const Msg m = genMsg(d, big, true);
    EncodingInfo info = d.info;
    info.encoding_opt = EncodingOptions::LOSSY; info.compression_opt = CompressionOption::ZSTD; info.version = EncodingInfo().version;
    for (auto& f : info.fields) { f.resolution.reset(); if (f.type == FieldType::FLOAT32) f.resolution = 0.01f; }
    std::vector<uint8_t> e;
    PointcloudEncoder enc(info);
    enc.encode(ConstBufferView(m.data.data(), m.data.size()), e);
    const long target = (long)(fit == 3 ? MaxCompressedSize(info, 1, true) : e.size());
    const long other = fit == 1 ? 0 : (long)(writeMsg(m).size() - m.data.size());
    const long next = target + delta - other;
    if (next < (long)c.info.point_step || next > 5000) { vp_reach("no such capacity"); return c.info.point_step; }
    step = (uint32_t)next;
  }
  return step;
}
static void session(const Cfg& cc, long mode) {
  Cfg c = cc;
  const bool big = vp_param("big", -1) >= 0 ? vp_param("big", 0) != 0 : vp_choose(2, "endianness") != 0;
  if (vp_param("fit", 0)) c.info.point_step = fittingStep(c, vp_param("fit", 0), big);
  Msg m = genMsg(c, big, mode > 0);
  const float res = mode == 0 ? 0.01f : mode == 6 ? RES[vp_choose((int)(sizeof RES / sizeof *RES), "resolution")] : 0.01f;
  if (mode == 0) {  // valid message through all functions
    if (vp_param("bulk", 0)) m.frame.assign((size_t)vp_param("bulk", 0), 'f');  // a long frame leaves more room in the caller's buffer
    const std::vector<uint8_t> raw = writeMsg(m);
    Exact x(raw);
    EncodingInfo info = c.info;
    info.encoding_opt = EncodingOptions::LOSSY; info.compression_opt = CompressionOption::ZSTD; info.version = EncodingInfo().version;
    for (auto& f : info.fields) { f.resolution.reset(); if (f.type == FieldType::FLOAT32) f.resolution = res; }
    std::vector<uint8_t> want;
    PointcloudEncoder ref(info);
    ref.encode(ConstBufferView(m.data.data(), m.data.size()), want);
    Out out(raw.size());
    const uint32_t got = CALL(cldn_EncodePointcloudMessage(at(x), (uint32_t)x.n, res, out.at()));
    if (want.size() > raw.size()) vp_check(got == 0, "an encoded cloud that does not fit is reported as 0");
    else vp_check(got == want.size() || (got == 0 && !m.data.size()), "encoded size");
    if (got == want.size()) vp_check_mem(out.p, want.data(), got, "encoded bytes are those of the library");
    const uint32_t cs = CALL(cldn_ComputeCompressedSize(at(x), (uint32_t)x.n, res));
    vp_check(cs == want.size() || !m.data.size(), "computed size");
    // the encoded cloud inside a CompressedPointCloud2
    Msg cm = m;
    cm.compressed = true;
    cm.data = want;
    const std::vector<uint8_t> comp = writeMsg(cm);
    Exact y(comp);
    const uint32_t size = CALL(cldn_GetDecompressedSize(at(y), (uint32_t)y.n));
    vp_check(size == m.data.size(), "announced size");
    if (size != m.data.size()) return;
    Out dec(size), dec2(size);
    const uint32_t n1 = CALL(cldn_DecodeCompressedMessage(at(y), (uint32_t)y.n, dec.at()));
    vp_check(n1 == size, "decoded size");
    if (n1 == size) checkPoints(info, m.data.data(), dec.p, size / (m.step ? m.step : 1));
    Exact w(want);
    const uint32_t n2 = CALL(cldn_DecodeCompressedData(at(w), (uint32_t)w.n, dec2.at()));
    vp_check(n2 == size, "decoded size of the bare data");
    if (n1 == size && n2 == size) vp_check_mem(dec.p, dec2.p, size, "both decoders agree");
    Msg pm = m;
    pm.row = m.step * m.width;
    if (n1 == size) pm.data.assign(dec.p, dec.p + size);
    std::vector<uint8_t> full = writeMsg(pm);
    Out conv(full.size());
    const uint32_t n3 = CALL(cldn_ConvertCompressedMsgToPointCloud2Msg(at(y), (uint32_t)y.n, conv.at()));
    vp_check(n3 == full.size(), "converted size");
    if (m.step && n3 == full.size()) {  // bytes that belong to no field are unspecified
      std::vector<bool> covered(m.step);
      for (auto& f : info.fields) for (size_t i = 0; i < SizeOf(f.type) && f.offset + i < m.step; i++) covered[f.offset + i] = true;
      const size_t start = full.size() - 1 - size;
      for (size_t i = 0; i < size; i++) if (!covered[i % m.step]) full[start + i] = conv.p[start + i];
    }
    if (n3 == full.size()) vp_check_mem(conv.p, full.data(), n3, "converted message");
    // headers as YAML
    const std::string yaml = EncodingInfoToYAML(info);
    Out y1(yaml.size()), y2(yaml.size());
    const uint32_t n4 = CALL(cldn_GetHeaderAsYAML(at(w), (uint32_t)w.n, y1.at()));
    const uint32_t n5 = CALL(cldn_GetHeaderAsYAMLFromDDS(at(y), (uint32_t)y.n, y2.at()));
    vp_check(n4 == yaml.size() && n5 == yaml.size(), "YAML size");
    if (n4 == yaml.size() && n5 == n4) { vp_check_mem(y1.p, yaml.data(), n4, "YAML header"); vp_check_mem(y2.p, yaml.data(), n5, "YAML header of the message"); }
    // encode from YAML and raw data
    Exact d(m.data);
    Out e2(m.data.size());
    const uint32_t n6 = CALL(cldn_EncodePointcloudData(yaml.c_str(), at(d), (uint32_t)d.n, e2.at()));
    vp_check(n6 == (want.size() <= m.data.size() ? want.size() : 0), "encoded size from YAML");
    if (n6) vp_check_mem(e2.p, want.data(), n6, "encoded bytes from YAML");
    if (vp_param("fit", 0) == 1) {  // the same cloud with every version, encoding and compression the YAML can ask for
      EncodingInfo i2 = info;
      i2.version = (uint8_t)(3 + vp_choose(3, "version"));
      i2.encoding_opt = (EncodingOptions)vp_choose(3, "encoding"); i2.compression_opt = (CompressionOption)vp_choose(3, "compression");
      std::vector<uint8_t> w2;
      PointcloudEncoder ref2(i2);
      ref2.encode(ConstBufferView(m.data.data(), m.data.size()), w2);
      Out e3(m.data.size());
      const uint32_t n7 = CALL(cldn_EncodePointcloudData(EncodingInfoToYAML(i2).c_str(), at(d), (uint32_t)d.n, e3.at()));
      vp_check(n7 == (w2.size() <= m.data.size() ? w2.size() : 0), "encoded size from YAML");
      if (n7) vp_check_mem(e3.p, w2.data(), n7, "encoded bytes from YAML");
    }
    vp_sink(dec.p, size < 64 ? size : 64, "decoded");
    vp_reach("done");
  } else if (mode == 1 || mode == 6) {  // hostile PointCloud2
    const long what = vp_param("what", 0);
    if (what & 1) for (auto& f : m.fields) f.offset = vp_sym<uint32_t>("offset");
    if (what & 2) for (auto& f : m.fields) f.type = (FieldType)vp_choose(13, "type");
    if (what & 4) m.step = dim("step");
    if (what & 8) m.data.resize((size_t)vp_choose((int)m.data.size() + 4, "data size"));
    if (what & 16) { m.width = dim("width"); m.height = dim("height"); }
    if (what & 32) m.data.clear();
    if (what & 64) m.fields.clear();
    const u128 want = (u128)m.width * m.height * m.step;
    if (vp_param("bulk", 0)) m.frame.assign((size_t)vp_param("bulk", 0), 'f');
    encodeSide(writeMsg(m), res, want != m.data.size());
  } else if (mode == 2) {  // PointCloud2 cut or with one window of arbitrary bytes
    std::vector<uint8_t> raw = writeMsg(m);
    const size_t w = (size_t)vp_param("win", 1);
    if (!w) raw.resize((size_t)vp_choose((int)raw.size(), "cut"));
    else {
      const long lo = vp_param("from", 4), hi = vp_param("to", 1 << 20) < (long)(raw.size() - w) ? vp_param("to", 0) : (long)(raw.size() - w);
      if (hi < lo) return;
      vp_make_symbolic(raw.data() + lo + vp_choose((int)(hi - lo + 1), "at"), w, "window");
    }
    encodeSide(raw, res, !w);
  } else if (mode == 3 || mode == 4) {  // CompressedPointCloud2: inconsistent dimensions; cut or window
    EncodingInfo info = c.info;
    info.use_threads = false;
    Msg cm = m;
    cm.compressed = true;
    cm.data.clear();
    PointcloudEncoder enc(info);
    enc.encode(ConstBufferView(m.data.data(), m.data.size()), cm.data);
    if (mode == 3) {
      const long what = vp_param("what", 0);
      if (what & 1) cm.width = dim("width");
      if (what & 2) cm.height = dim("height");
      if (what & 4) cm.step = dim("step");
      if (what & 8) cm.data.resize((size_t)vp_choose((int)cm.data.size(), "payload cut"));
      const u128 outer = (u128)cm.width * cm.height * cm.step, inner = m.data.size();
      if (outer == 0) { Exact x(writeMsg(cm)); Out none(0); vp_check(CALL(cldn_DecodeCompressedMessage(at(x), (uint32_t)x.n, none.at())) == 0, "nothing is announced, nothing is written"); vp_reach("empty"); return; }
      decodeSide(writeMsg(cm), outer != inner || (what & 8));
    } else {
      std::vector<uint8_t> bad = writeMsg(cm);
      const size_t w = (size_t)vp_param("win", 1);
      if (!w) bad.resize((size_t)vp_choose((int)bad.size() - 16, "cut"));
      else {
        const long lo = vp_param("from", 4), hi = vp_param("to", 1 << 20) < (long)(bad.size() - w) ? vp_param("to", 0) : (long)(bad.size() - w);
        if (hi < lo) return;
        vp_make_symbolic(bad.data() + lo + vp_choose((int)(hi - lo + 1), "at"), w, "window");
      }
      decodeSide(bad, !w);
    }
  } else if (mode == 5) {  // bare compressed data with a header of other dimensions, cut, or with a window
    EncodingInfo info = c.info;
    info.use_threads = false;
    std::vector<uint8_t> data;
    PointcloudEncoder enc(info);
    enc.encode(ConstBufferView(m.data.data(), m.data.size()), data);
    const long what = vp_param("what", 0);
    EncodingInfo other = info;
    if (what & 7) {
      std::vector<uint8_t> head;
      EncodeHeader(info, head);
      const std::vector<uint8_t> body(data.begin() + (long)head.size(), data.end());
      if (what & 1) other.width = dim("width");
      if (what & 2) other.height = dim("height");
      if (what & 4) other.point_step = dim("step");
      data.clear();
      EncodeHeader(other, data);
      data.insert(data.end(), body.begin(), body.end());
    }
    if (what & 8) data.resize((size_t)vp_choose((int)data.size(), "cut"));
    const u128 want = (u128)other.width * other.height * other.point_step;
    if (want <= 0xFFFFFFFFu && want > LIMIT) { vp_reach("larger than the bound"); return; }
    Exact x(data);
    Out out(want > 0xFFFFFFFFu ? 0 : (size_t)want);
    const uint32_t got = CALL(cldn_DecodeCompressedData(at(x), (uint32_t)x.n, out.at()));
    vp_check(got == 0 || got == want, "the size of the cloud or 0");
    if (what & 8) vp_check(got == 0, "shortened data are reported as 0");
    if ((u128)other.width * other.height != (u128)info.width * info.height) vp_check(got == 0, "data of another size are reported as 0");
    Out yaml(1024);
    const uint32_t ny = CALL(cldn_GetHeaderAsYAML(at(x), (uint32_t)x.n, yaml.at()));
    vp_check(ny <= yaml.n && yaml.clean(ny), "no byte behind the returned size is written");
    vp_reach(got ? "decoded" : "refused");
  } else if (mode == 7) {  // raw data with a damaged YAML header
    EncodingInfo info = c.info;
    const long what = vp_param("what", 0);
    if (what & 1) info.width = dim("width");
    if (what & 2) info.height = dim("height");
    if (what & 4) info.point_step = dim("step");
    if (what & 16) for (auto& f : info.fields) f.offset = (uint32_t)dim("offset");
    std::string yaml = EncodingInfoToYAML(info);
    if (what & 8) yaml.resize((size_t)vp_choose((int)yaml.size(), "cut"));
    if (what & 32) {
      const size_t w = (size_t)vp_param("win", 1);
      const size_t lo = (size_t)vp_param("from", 0), hi = (size_t)vp_param("to", 1 << 20) < yaml.size() - w ? (size_t)vp_param("to", 0) : yaml.size() - w;
      if (hi < lo) return;
      vp_make_symbolic(&yaml[lo + (size_t)vp_choose((int)(hi - lo + 1), "at")], w, "window");
    }
    Exact d(m.data);
    Out out(m.data.size());
    const uint32_t got = CALL(cldn_EncodePointcloudData(yaml.c_str(), at(d), (uint32_t)d.n, out.at()));
    vp_check(got <= out.n, "the size returned fits into the caller's buffer");
    if (!(what & 40) && (u128)info.width * info.height * info.point_step != m.data.size()) vp_check(got == 0, "data of another size are refused");
    vp_reach(got ? "encoded" : "refused");
  } else if (mode == 8) {  // arbitrary bytes
    std::vector<uint8_t> b((size_t)vp_param("lo", 0) + (size_t)vp_choose((int)(vp_param("hi", 8) - vp_param("lo", 0) + 1), "length"));
    if (b.size()) vp_make_symbolic(b.data(), b.size(), "bytes");
    if (b.size() >= 4 && vp_param("header", 0)) { b[0] = 0; b[1] = 1; b[2] = 0; b[3] = 0; }
    decodeSide(b, true);
    encodeSide(b, 0.01f, true);
    Exact x(b);
    Out none(0);
    vp_check(CALL(cldn_DecodeCompressedData(at(x), (uint32_t)x.n, none.at())) == 0, "arbitrary bytes are not compressed data");
    vp_check(CALL(cldn_GetHeaderAsYAML(at(x), (uint32_t)x.n, none.at())) == 0, "arbitrary bytes have no header");
    vp_reach("refused");
  } else if (mode == 9) {  // a YAML header one value of which is another token, of the raw data, of bare compressed data and inside a message
    static const char* TOKEN[] = {"", "-1", "0", "1", "300", "4294967296", "99999999999", "18446744073709551616", "99999999999999999999999", "1e999", "-1e999", "1e-999", "nan", "0x10", "abc", "UINT8 ", "LOSSLESS", "LZ4", "[]", ": :", "- name:", "3.5"};
    EncodingInfo info = c.info;
    info.use_threads = false;
    std::vector<uint8_t> head, data;
    EncodeHeader(info, head, HeaderEncoding::YAML);
    PointcloudEncoder enc(info);
    const size_t body = enc.encode(ConstBufferView(m.data.data(), m.data.size()), data);
    ConstBufferView v(data.data(), body);
    DecodeHeader(v);
    std::string y = EncodingInfoToYAML(info);
    std::vector<std::pair<size_t, size_t>> values;
    for (size_t i = 0; i < y.size();) {
      const size_t end = y.find('\n', i) == std::string::npos ? y.size() : y.find('\n', i), colon = y.find(": ", i);
      if (colon != std::string::npos && colon < end) values.push_back({colon + 2, end - colon - 2});
      i = end + 1;
    }
    const auto at1 = values[(size_t)vp_choose((int)values.size(), "value")];
    y.replace(at1.first, at1.second, TOKEN[vp_choose((int)(sizeof TOKEN / sizeof *TOKEN), "token")]);
    {
      Exact d(m.data);
      Out out(m.data.size());
      const uint32_t got = CALL(cldn_EncodePointcloudData(y.c_str(), at(d), (uint32_t)d.n, out.at()));
      vp_check(got <= out.n, "the size returned fits into the caller's buffer");
    }
    std::vector<uint8_t> all(head.begin(), head.begin() + 13);
    all.insert(all.end(), y.begin(), y.end());
    all.push_back(0);
    all.insert(all.end(), v.data(), v.data() + v.size());
    bool readable = true;
    u128 want = 0;
    std::string canon;
    try {
      ConstBufferView w(all.data(), all.size());
      const EncodingInfo h = DecodeHeader(w);
      want = (u128)h.width * h.height * h.point_step;
      canon = EncodingInfoToYAML(h);
    } catch (const std::exception&) { readable = false; }
    Exact x(all);
    if (!readable || want <= LIMIT || want > 0xFFFFFFFFu) {
      Out out(readable && want <= LIMIT ? (size_t)want : 0);
      const uint32_t got = CALL(cldn_DecodeCompressedData(at(x), (uint32_t)x.n, out.at()));
      vp_check(got == 0 || (readable && got == want), "the size of the cloud or 0");
    }
    Out yaml(2048);
    const uint32_t ny = CALL(cldn_GetHeaderAsYAML(at(x), (uint32_t)x.n, yaml.at()));
    vp_check(ny == (readable ? canon.size() : 0) && yaml.clean(ny), "the header as YAML, or 0 if it cannot be read");
    if (readable && ny == canon.size()) vp_check_mem(yaml.p, canon.data(), ny, "YAML header");
    Msg cm = m;
    cm.compressed = true;
    cm.data = all;
    decodeSide(writeMsg(cm), !readable && m.data.size());
    vp_reach(readable ? "readable" : "refused");
  }
}
extern "C" void vp_main() {
  Cfg c = loadCfg(), a = loadCfg("a");
  if (!a.info.fields.empty()) session(a, vp_param("amode", 0));  // a module serves many clouds: what it was asked before makes no difference
  session(c, vp_param("mode", 0));
}
