// P08: DecodeHeader on arbitrary bytes: a std::exception or a header of version 2..5; never outside the input; strict.
#include <cstdlib>
#include "cloud.h"
static bool decodeAt(const uint8_t* buf, size_t n, EncodingInfo& d, size_t& used) {
  ConstBufferView v(buf, n);
  try { d = DecodeHeader(v); } catch (const std::exception&) { return false; }
  vp_check(v.data() >= buf && v.data() <= buf + n && v.data() + v.size() == buf + n, "the view stays inside the input and keeps its end");
  used = (size_t)(v.data() - buf);
  vp_check(d.version >= 2 && d.version <= 5, "the version is one of the supported ones");
  vp_check(n >= 12 && memcmp(buf, "CLOUDINI_V", 10) == 0, "an accepted header starts with the magic");
  if (n >= 12) vp_check(buf[10] == '0' && buf[11] == '0' + d.version, "the version is the one of the magic");
  return true;
}
static void binary(const uint8_t* b, size_t n) {  // b: after the version
  EncodingInfo d;
  size_t used = 0;
  // an independent walk over the layout: width height step enc comp count16 {len16 name offset32 type res32}
  uint8_t* tmp = (uint8_t*)malloc(12 + n);
  memcpy(tmp, "CLOUDINI_V04", 12);
  memcpy(tmp + 12, b, n);
  const bool ok = decodeAt(tmp, 12 + n, d, used);
  const bool yaml = n >= 9 && memcmp(b, "\nversion:", 9) == 0;
  if (!yaml) {
    size_t at = 0, cnt = 0, i = 0;
    bool fits = n >= 16;
    if (fits) { uint16_t c; memcpy(&c, b + 14, 2); cnt = c; at = 16; }
    size_t starts[8] = {}, lens[8] = {};
    for (; fits && i < cnt; i++) {
      if (n - at < 2) { fits = false; break; }
      uint16_t len; memcpy(&len, b + at, 2);
      if (n - at - 2 < (size_t)len + 9) { fits = false; break; }
      const size_t l = VP_CONCRETE_SIZE(vp_concretize(len));
      if (i < 8) { starts[i] = at; lens[i] = l; }
      at += 2 + l + 9;
    }
    vp_check(ok == fits, "a binary header is accepted exactly if it is complete");
    if (ok && fits) {
      vp_check(used == 12 + at, "the view is positioned after the binary header");
      uint32_t w, h, s; memcpy(&w, b, 4); memcpy(&h, b + 4, 4); memcpy(&s, b + 8, 4);
      vp_check(d.width == w && d.height == h && d.point_step == s, "dimensions as stored");
      vp_check((uint8_t)d.encoding_opt == b[12] && (uint8_t)d.compression_opt == b[13], "options as stored");
      vp_check(d.fields.size() == cnt, "field count as stored");
      for (size_t k = 0; k < d.fields.size() && k < 8; k++) {
        const PointField& f = d.fields[k];
        const uint8_t* p = b + starts[k] + 2;
        uint32_t off; float r; memcpy(&off, p + lens[k], 4); memcpy(&r, p + lens[k] + 5, 4);
        vp_check(f.name.size() == lens[k] && memcmp(f.name.data(), p, lens[k]) == 0, "name as stored");
        vp_check(f.offset == off && (uint8_t)f.type == p[lens[k] + 4], "offset and type as stored");
        vp_check(f.resolution.has_value() == (r > 0), "resolution present if positive");
        if (f.resolution) vp_check(memcmp(&*f.resolution, &r, 4) == 0, "resolution as stored");
      }
    }
  }
  vp_reach(ok ? "accepted" : "rejected");
  free(tmp);
}
extern "C" void vp_main() {
  const long mode = vp_param("mode", 0), lo = vp_param("lo", 0), hi = vp_param("hi", 14);
  if (mode == 0) {  // anything
    const size_t n = (size_t)(lo + vp_choose((int)(hi - lo + 1), "size"));
    uint8_t* b = (uint8_t*)malloc(n ? n : 1);
    if (n) vp_make_symbolic(b, n, "bytes");
    EncodingInfo d; size_t used;
    vp_reach(decodeAt(b, n, d, used) ? "accepted" : "rejected");
    if (n < 12) vp_check(true, "short");
    free(b);
  } else if (mode == 1) {  // magic, symbolic version, something valid after it
    uint8_t* b = (uint8_t*)malloc(28);
    memcpy(b, "CLOUDINI_V", 10);
    vp_make_symbolic(b, (size_t)vp_param("sym", 12), "magic");
    memset(b + 12, 0, 16);
    EncodingInfo d; size_t used;
    const bool ok = decodeAt(b, 28, d, used);
    const bool good = memcmp(b, "CLOUDINI_V0", 11) == 0 && b[11] >= '2' && b[11] <= '5';
    vp_check(ok == good, "exactly the magic followed by a supported version is accepted");
    vp_reach(ok ? "accepted" : "rejected");
    free(b);
  } else if (mode == 2) {  // binary, symbolic
    const size_t n = (size_t)(lo + vp_choose((int)(hi - lo + 1), "size"));
    uint8_t b[256];
    if (n) vp_make_symbolic(b, n, "bytes");
    if (n > 12) vp_assume(!(memcmp(b, "\nversion:", 9) == 0));
    const long cnt = vp_param("count", -1);
    if (cnt >= 0 && n >= 16) vp_assume(b[14] == cnt && b[15] == 0);
    if (vp_param("shortnames", 1) && n >= 18) { uint16_t l; memcpy(&l, b + 16, 2); vp_assume(l <= 4 || l > 400); }
    binary(b, n);
  } else if (mode == 4) {  // YAML: the first key and a few arbitrary bytes
    const size_t n = 21 + (size_t)(lo + vp_choose((int)(hi - lo + 1), "size"));
    uint8_t* b = (uint8_t*)malloc(n);
    memcpy(b, "CLOUDINI_V04\nversion:", 21);
    if (n > 21) vp_make_symbolic(b + 21, n - 21, "bytes");
    EncodingInfo d; size_t used = 0;
    const bool ok = decodeAt(b, n, d, used);
    vp_check(!ok, "a YAML header without the other keys is rejected");
    vp_reach(ok ? "accepted" : "rejected");
    free(b);
  } else {  // YAML: a valid header with a symbolic window and a cut
    EncodingInfo info;
    info.width = 12; info.height = 3; info.point_step = 8;
    for (long i = 0; i < vp_param("nf", 1); i++) {
      PointField f; f.name = std::string(1, (char)('x' + i)); f.offset = (uint32_t)(4 * i); f.type = FieldType::FLOAT32;
      if (i == 0) f.resolution = 0.5f;
      info.fields.push_back(f);
    }
    std::vector<uint8_t> h;
    EncodeHeader(info, h, HeaderEncoding::YAML);
    const long win = vp_param("win", 1), part = vp_param("part", 0), of = vp_param("of", 1);
    const size_t total = h.size() - 1;  // without the terminator
    const size_t cnt = total - 21 - (size_t)win + 1;  // positions after "\nversion:"
    const size_t pos = 21 + (size_t)part + (size_t)of * (size_t)vp_choose((int)((cnt - 1 - part) / of + 1), "position");
    vp_make_symbolic(h.data() + pos, (size_t)win, "window");
    const bool cut = vp_param("cut", 0);
    size_t n = h.size();
    if (cut) {  // no terminator anywhere
      n = pos + (size_t)win;
      for (long i = 0; i < win; i++) vp_assume(h[pos + i] != 0);
    }
    uint8_t* b = (uint8_t*)malloc(n);
    memcpy(b, h.data(), n);
    EncodingInfo d; size_t used = 0;
    const bool ok = decodeAt(b, n, d, used);
    if (cut) vp_check(!ok, "an unterminated YAML header is rejected");
    if (ok) vp_check(b[used - 1] == 0, "the view is positioned after the terminator");
    vp_reach(ok ? "accepted" : "rejected");
    free(b);
  }
}
