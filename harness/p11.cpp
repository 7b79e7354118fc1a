// P11: the wire format is the documented one: what the encoder writes is compared with (V3, V4) or read by (V5) an
// independent codec, and the decoder reads what that codec writes for V2 to V5 and every section mode.
#include "ref_codec.h"
static void header(long mode) {
  static const char* types[] = {"INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64"};
  static const char* encs[] = {"NONE", "LOSSY", "LOSSLESS"};
  static const char* comps[] = {"NONE", "LZ4", "ZSTD"};
  const int ver = 2 + vp_choose(4, "version"), type = vp_choose(10, "type"), en = vp_choose(3, "enc"), co = vp_choose(3, "comp");
  EncodingInfo info;
  info.version = (uint8_t)ver; info.encoding_opt = (EncodingOptions)en; info.compression_opt = (CompressionOption)co;
  info.width = 640; info.height = 48; info.point_step = 29;
  info.fields.resize(2);
  info.fields[0].name = "x_1"; info.fields[0].offset = 3; info.fields[0].type = FieldType::FLOAT32; info.fields[0].resolution = 0.25f;
  info.fields[1].name = "ring"; info.fields[1].offset = 17; info.fields[1].type = (FieldType)(type + 1);
  auto same = [&](const EncodingInfo& d) {
    vp_check(d.version == ver && d.width == info.width && d.height == info.height && d.point_step == info.point_step && d.encoding_opt == info.encoding_opt && d.compression_opt == info.compression_opt, "header values read from a stored header");
    vp_check(d.fields.size() == 2, "field count read from a stored header");
    for (size_t i = 0; i < 2 && i < d.fields.size(); i++)
      vp_check(d.fields[i].name == info.fields[i].name && d.fields[i].offset == info.fields[i].offset && d.fields[i].type == info.fields[i].type && d.fields[i].resolution == info.fields[i].resolution, "field read from a stored header");
  };
  std::string magic = std::string("CLOUDINI_V0") + (char)('0' + ver);
  if (mode == 2) {  // a YAML header as earlier releases wrote it; two digits of each number arbitrary
    std::string y = magic + "\nversion: " + std::to_string(ver) + "\nwidth: ";
    uint8_t d[2];
    vp_make_symbolic(d, 2, "digits");
    vp_assume(d[0] >= '1' && d[0] <= '9' && d[1] >= '0' && d[1] <= '9');
    info.width = (uint32_t)((d[0] - '0') * 10 + d[1] - '0');
    y += std::string((const char*)d, 2) + "\nheight: 48\npoint_step: 29\nencoding_opt: " + encs[en] + "\ncompression_opt: " + comps[co] +
         "\nfields:\n  - name: x_1\n    offset: 3\n    type: FLOAT32\n    resolution: 0.25\n  - name: ring\n    offset: 17\n    type: " + types[type] + "\n    resolution: null\n";
    y.push_back(0);
    y += "zz";
    ConstBufferView v((const uint8_t*)y.data(), y.size());
    bool ok = true;
    EncodingInfo h;
    try { h = DecodeHeader(v); } catch (const std::exception&) { ok = false; }
    vp_check(ok && v.size() == 2, "a stored YAML header is read");
    if (ok) same(h);
  } else if (mode == 3) {  // what is written has the same lines
    std::vector<uint8_t> out;
    EncodeHeader(info, out, HeaderEncoding::YAML);
    const std::string y((const char*)out.data(), out.size());
    vp_check(y.compare(0, 13, magic + "\n") == 0 && y.back() == 0, "magic, newline and terminator");
    for (const std::string& l : {std::string("width: 640"), std::string("height: 48"), std::string("point_step: 29"), std::string("encoding_opt: ") + encs[en], std::string("compression_opt: ") + comps[co],
                                 std::string("fields:"), std::string("  - name: x_1"), std::string("    offset: 3"), std::string("    type: FLOAT32"), std::string("    resolution: 0.25"),
                                 std::string("  - name: ring"), std::string("    offset: 17"), std::string("    type: ") + types[type], std::string("    resolution: null")})
      vp_check(y.find("\n" + l + "\n") != std::string::npos, "a line of the YAML header");
  } else {  // binary
    Bytes b(magic.begin(), magic.end());
    vp_make_symbolic(&info.width, 4, "width"); vp_make_symbolic(&info.height, 4, "height"); vp_make_symbolic(&info.point_step, 4, "step");
    vp_make_symbolic(&info.fields[1].offset, 4, "offset");
    vp_assume(info.width != 0x7265760Au);
    rLE(b, info.width, 4); rLE(b, info.height, 4); rLE(b, info.point_step, 4); rLE(b, en, 1); rLE(b, co, 1); rLE(b, 2, 2);
    rLE(b, 3, 2); b.push_back('x'); b.push_back('_'); b.push_back('1'); rLE(b, 3, 4); rLE(b, 7, 1); rLE(b, 0x3E800000, 4);
    rLE(b, 4, 2); b.push_back('r'); b.push_back('i'); b.push_back('n'); b.push_back('g'); rLE(b, info.fields[1].offset, 4); rLE(b, type + 1, 1);
    std::vector<uint8_t> out;
    EncodeHeader(info, out, HeaderEncoding::BINARY);
    vp_check(out.size() == b.size() + 4, "size of a binary header");
    if (out.size() == b.size() + 4) {
      vp_check_mem(out.data(), b.data(), b.size(), "bytes of a binary header");
      float r; memcpy(&r, out.data() + b.size(), 4);
      vp_check(!(r > 0), "no resolution is stored as a value that is not positive");
    }
    rLE(b, 0, 4);
    ConstBufferView v(b.data(), b.size());
    bool ok = true;
    EncodingInfo h;
    try { h = DecodeHeader(v); } catch (const std::exception&) { ok = false; }
    vp_check(ok && v.size() == 0, "a stored binary header is read");
    if (ok) same(h);
  }
  vp_reach("done");
}
extern "C" void vp_main() {
  if (vp_param("mode", 0) >= 2) { header(vp_param("mode", 0)); return; }
  Cfg c = loadCfg();
  const EncodingInfo& info = c.info;
  const size_t n = (size_t)info.width * info.height, step = info.point_step, per = (size_t)vp_param("per", 32768);
  const long mode = vp_param("mode", 0);
  std::vector<uint8_t> in(n * step);
  genCloud(c, in.data(), n);
  size_t sections = 0;
  for (size_t i = 0; i < info.fields.size(); i++) sections += rCodec(info, i) == R_SECTION;
  if (mode == 0) {  // encoder against the reference
    Bytes enc;
    PointcloudEncoder e(info);
    e.encode(ConstBufferView(in.data(), in.size()), enc);
    ConstBufferView v(enc.data(), enc.size());
    DecodeHeader(v);
    if (!sections) {
      const Bytes ref = rEncode(info, in.data(), n, per, {}, false);
      vp_check(v.size() == ref.size(), "the encoded size is that of the format");
      if (v.size() == ref.size()) vp_check_mem(v.data(), ref.data(), ref.size(), "the encoded bytes are those of the format");
    } else {
      RefIn r{v.data(), v.size()};
      bool ok = true;
      try {
        for (size_t k = 0; k < n; k += per) {
          const size_t m = n - k < per ? n - k : per, size = r.le(4), left = r.n;
          Bytes reg;
          EncodingInfo part = info;
          rChunk(reg, part, in.data() + k * step, m, std::vector<int>(sections, 0), false);
          // the point by point part of the reference: everything before its first section
          Bytes sec;
          for (size_t i = 0; i < info.fields.size(); i++)
            if (rCodec(info, i) == R_SECTION) {
              std::vector<uint64_t> raw; std::vector<int64_t> val;
              for (size_t p = 0; p < m; p++) { raw.push_back(rGet(in.data() + (k + p) * step + info.fields[i].offset, rSize(info.fields[i].type))); val.push_back(rInt(in.data() + (k + p) * step + info.fields[i].offset, info.fields[i].type)); }
              rSection(sec, raw, val, rSize(info.fields[i].type), 0, false);
            }
          const size_t head = reg.size() - sec.size();
          if (r.n < head) throw RefError();
          vp_check_mem(r.p, reg.data(), head, "the point by point part of a V5 chunk is that of the format");
          r.p += head; r.n -= head;
          for (size_t i = 0; i < info.fields.size(); i++)
            if (rCodec(info, i) == R_SECTION) {
              const PointField& f = info.fields[i];
              const auto vals = rDecodeSection(r, rSize(f.type), m);
              for (size_t p = 0; p < m; p++) {
                uint64_t got = vals[p];
                vp_check_mem(&got, in.data() + (k + p) * step + f.offset, rSize(f.type), "a V5 section reads back under the format");
              }
            }
          vp_check(left - r.n == size, "the chunk size is that of the chunk");
        }
        vp_check(r.n == 0, "nothing follows the last chunk");
      } catch (const RefError&) { ok = false; } catch (const std::exception&) { ok = false; }
      vp_check(ok, "an independent reader of the format accepts the V5 stream");
    }
    vp_sink(enc.data(), enc.size() < 256 ? enc.size() : 256, "encoded");
  } else {  // the decoder reads the reference
    std::vector<int> modes;
    for (size_t i = 0; i < sections; i++) modes.push_back(vp_choose(4, "mode"));
    const bool odd = sections && vp_choose(2, "odd");
    const Bytes ref = rEncode(info, in.data(), n, per, modes, odd);
    // a V2 payload has no framing; one that starts with the magic is taken for data with its header (documented guard)
    if (info.version < 3 && ref.size() >= 10) vp_assume(memcmp(ref.data(), "CLOUDINI_V", 10) != 0);
    std::vector<uint8_t> out(n * step, 0x77);
    bool ok = true;
    try { PointcloudDecoder d; d.decode(info, ConstBufferView(ref.data(), ref.size()), BufferView(out.data(), out.size())); } catch (const std::exception&) { ok = false; }
    vp_check(ok, "the decoder accepts a stream of the format");
    if (ok)
      for (size_t k = 0; k < n; k++)
        for (size_t i = 0; i < info.fields.size(); i++) {
          const PointField& f = info.fields[i];
          const uint8_t *a = in.data() + k * step + f.offset, *b = out.data() + k * step + f.offset;
          if (lossless(info, f)) { vp_check_mem(a, b, rSize(f.type), "the decoder restores the value from a stream of the format"); continue; }
          double x, y;
          if (f.type == FieldType::FLOAT32) { float s, t; memcpy(&s, a, 4); memcpy(&t, b, 4); x = s; y = t; } else { memcpy(&x, a, 8); memcpy(&y, b, 8); }
          if (x != x) vp_check(y != y, "the decoder restores NaN");
          else { const double d = x < y ? y - x : x - y, m = x < 0 ? -x : x; vp_check(d <= 0.5001 * *f.resolution + m * 1e-6, "the decoder restores the value within the tolerance"); }
        }
    vp_sink(out.data(), out.size() < 256 ? out.size() : 256, "out");
  }
  vp_reach("done");
}
