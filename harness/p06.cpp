// P06: DecodeHeader(EncodeHeader(info)) restores info, in both encodings, and stops exactly after the header.
#include <cstdlib>
#include "cloud.h"
static bool printable(uint8_t c) { return c >= 0x20 && c < 0x7f; }
// a plain YAML scalar of one line: printable, no blank at either end, '#' only inside a word
static bool plain(const uint8_t* p, size_t n) {
  bool ok = n > 0 && p[0] != ' ' && p[n - 1] != ' ' && p[0] != '#';
  for (size_t i = 0; i < n; i++) {
    ok &= printable(p[i]);
    if (i) ok &= !(p[i] == '#' && p[i - 1] == ' ');
  }
  return ok;
}
extern "C" void vp_main() {
  const bool yaml = vp_param("yaml", 1);
  const long sym = vp_param("sym", 0), nf = vp_param("nf", 1);
  EncodingInfo info;
  info.width = (uint32_t)vp_param("w", 640); info.height = (uint32_t)vp_param("h", 480); info.point_step = (uint32_t)vp_param("step", 32);
  info.version = 5; info.encoding_opt = EncodingOptions::LOSSY; info.compression_opt = CompressionOption::ZSTD;
  if (sym & 1) vp_make_symbolic(&info.width, 4, "width");
  if (sym & 2) vp_make_symbolic(&info.height, 4, "height");
  if (sym & 4) vp_make_symbolic(&info.point_step, 4, "point_step");
  if (sym & 8) info.version = (uint8_t)(2 + vp_choose(4, "version"));
  if (sym & 16) { info.encoding_opt = (EncodingOptions)vp_choose(3, "enc"); info.compression_opt = (CompressionOption)vp_choose(3, "comp"); }
  static const float list[] = {0.001f, 1e-4f, 1e-5f, 0.01f, 1.0f / 3, 0.0012345678f, 123456.789f, 16777216.0f, 1.17549435e-38f, 3.40282347e38f, 0.00100000012f, 2.0f};
  for (long i = 0; i < nf; i++) {
    PointField f;
    f.name = std::string(1, (char)('x' + i % 3)) + std::to_string(i);
    f.offset = (uint32_t)(4 * i);
    f.type = FieldType::FLOAT32;
    if ((sym & 32) && i == 0) f.type = (FieldType)(1 + vp_choose(10, "type"));
    if ((sym & 64) && i == 0) vp_make_symbolic(&f.offset, 4, "offset");
    if ((sym & 128) && i == 0) {
      float r;
      vp_make_symbolic(&r, 4, "resolution");
      vp_assume(r >= 1.17549435e-38f && r <= 3.40282347e38f);
      f.resolution = r;
    }
    if ((sym & 256) && i == 0) { int k = vp_choose(13, "resolution"); if (k) f.resolution = list[k - 1]; }
    if (sym & 512) {
      const size_t len = (size_t)vp_choose((int)vp_param("namelen", 3) + (yaml ? 0 : 1), "namelen") + (yaml ? 1 : 0);
      uint8_t nm[64];
      if (len) vp_make_symbolic(nm, len, "name");
      if (yaml) vp_assume(plain(nm, len));
      f.name.assign((const char*)nm, len);
    }
    if ((sym & 4096) && i == 0) f.name.assign(300, 'n');
    info.fields.push_back(f);
  }
  if (sym & 1024) {
    uint8_t nm[4];
    vp_make_symbolic(nm, 3, "config");
    vp_assume(plain(nm, 3));
    info.encoding_config.assign((const char*)nm, 3);
  }
  // A binary header whose first fields spell "\nversion:" is indistinguishable from a YAML one; it would declare 10^18 points.
  if (!yaml) vp_assume(!(info.width == 0x7265760Au && info.height == 0x6E6F6973u));
  std::vector<uint8_t> hdr;
  EncodeHeader(info, hdr, yaml ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
  const size_t tail = (size_t)vp_param("tail", 2), hn = hdr.size();
  uint8_t* buf = (uint8_t*)malloc(hn + tail);
  memcpy(buf, hdr.data(), hn);
  if (tail) vp_make_symbolic(buf + hn, tail, "tail");
  ConstBufferView v(buf, hn + tail);
  EncodingInfo d;
  bool ok = true;
  try { d = DecodeHeader(v); } catch (const std::exception&) { ok = false; }
  vp_check(ok, "DecodeHeader accepts what EncodeHeader wrote");
  auto compare = [&](const EncodingInfo& d) {
    vp_check(d.version == info.version, "version restored");
    vp_check(d.width == info.width, "width restored");
    vp_check(d.height == info.height, "height restored");
    vp_check(d.point_step == info.point_step, "point_step restored");
    vp_check(d.encoding_opt == info.encoding_opt, "encoding option restored");
    vp_check(d.compression_opt == info.compression_opt, "compression option restored");
    if (yaml) vp_check(d.encoding_config == info.encoding_config, "encoding_config restored");
    vp_check(d.fields.size() == info.fields.size(), "field count restored");
    for (size_t i = 0; i < info.fields.size() && i < d.fields.size(); i++) {
      const PointField &a = info.fields[i], &b = d.fields[i];
      vp_check(a.name.size() == b.name.size(), "field name length restored");
      if (a.name.size() == b.name.size()) vp_check_mem(a.name.data(), b.name.data(), a.name.size(), "field name restored");
      vp_check(a.offset == b.offset, "field offset restored");
      vp_check(a.type == b.type, "field type restored");
      vp_check(a.resolution.has_value() == b.resolution.has_value(), "presence of the resolution restored");
      if (a.resolution && b.resolution) vp_check_mem(&*a.resolution, &*b.resolution, 4, "resolution restored exactly");
    }
  };
  if (ok) {
    vp_check(v.data() == buf + hn && v.size() == tail, "the view is positioned exactly after the header");
    compare(d);
  }
  if (yaml) {  // the text alone, as callers of the YAML functions use it
    EncodingInfo t;
    bool read = true;
    try { t = EncodingInfoFromYAML(EncodingInfoToYAML(info)); } catch (const std::exception&) { read = false; }
    vp_check(read, "EncodingInfoFromYAML accepts what EncodingInfoToYAML wrote");
    if (read) compare(t);
  }
  vp_reach(ok ? "decoded" : "rejected");
  if (!(sym & 128)) vp_sink(hdr.data(), hn < 64 ? hn : 64, "header");
  free(buf);
}
