// P10: incomplete or surplus encoded data is rejected.
#include <cstdlib>
#include "cloud.h"
extern "C" void vp_main() {
  Cfg c = loadCfg();
  const EncodingInfo& info = c.info;
  const long mode = vp_param("mode", 0);
  const size_t n = (size_t)info.width * info.height, step = info.point_step;
  std::vector<uint8_t> in(n * step), enc;
  genCloud(c, in.data(), n);
  PointcloudEncoder e(info);
  e.encode(ConstBufferView(in.data(), in.size()), enc);
  ConstBufferView v(enc.data(), enc.size());
  EncodingInfo h = DecodeHeader(v);
  const size_t pn = v.size();
  std::vector<uint8_t> pay(v.data(), v.data() + pn);
  size_t outn = n * step;
  auto at32 = [&](size_t at) { uint32_t s; memcpy(&s, pay.data() + at, 4); return (size_t)s; };
  auto chunks = [&]() { std::vector<size_t> r; for (size_t at = 0; at < pay.size(); at += 4 + at32(at)) r.push_back(at); return r; };
  auto resize = [&](size_t at, uint32_t s) { memcpy(pay.data() + at, &s, 4); };
  const char* msg = "";
  if (mode == 0) {
    msg = "a payload cut short is rejected";
    pay.resize((size_t)vp_choose((int)pn, "cut"));
  } else if (mode == 1) {
    msg = "a payload with bytes appended is rejected";
    const size_t k = 1 + (size_t)vp_choose((int)vp_param("max", 5), "appended");
    pay.resize(pn + k);
    vp_make_symbolic(pay.data() + pn, k, "appended");
  } else if (mode == 2) {
    msg = "a chunk with bytes appended is rejected";
    auto ch = chunks();
    const size_t i = (size_t)vp_choose((int)ch.size(), "chunk"), k = 1 + (size_t)vp_choose((int)vp_param("max", 2), "appended");
    const size_t s = at32(ch[i]), end = ch[i] + 4 + s;
    std::vector<uint8_t> tail(pay.begin() + end, pay.end());
    pay.resize(end + k);
    vp_make_symbolic(pay.data() + end, k, "appended");
    pay.insert(pay.end(), tail.begin(), tail.end());
    resize(ch[i], (uint32_t)(s + k));
  } else if (mode == 3) {
    msg = "a chunk cut short is rejected";
    auto ch = chunks();
    const size_t i = (size_t)vp_choose((int)ch.size(), "chunk");
    const size_t s = at32(ch[i]), end = ch[i] + 4 + s, keep = (size_t)vp_choose((int)s, "keep");
    pay.erase(pay.begin() + ch[i] + 4 + keep, pay.begin() + end);
    resize(ch[i], (uint32_t)keep);
  } else if (mode == 4) {
    msg = "a header declaring another number of points is rejected";
    const uint32_t w = (uint32_t)vp_choose((int)vp_param("max", 8), "width");
    vp_assume(w != h.width);
    const size_t per = (size_t)vp_param("per", 0);  // points per chunk: only counts that need another number of chunks
    if (per) vp_assume((w + per - 1) / per != (n + per - 1) / per);
    h.width = w;
    outn = (size_t)h.width * h.height * step;
  } else if (mode == 5) {
    msg = "a payload that still carries the header is rejected";
    pay = enc;
  } else if (mode == 6) {
    msg = "an output buffer smaller than the cloud is rejected";
    outn = (size_t)vp_choose((int)outn, "output size");
  } else if (mode == 7) {
    msg = "a payload with a chunk repeated is rejected";
    auto ch = chunks();
    const size_t i = (size_t)vp_choose((int)ch.size(), "chunk"), end = ch[i] + 4 + at32(ch[i]);
    std::vector<uint8_t> one(pay.begin() + ch[i], pay.begin() + end);
    pay.insert(pay.begin() + end, one.begin(), one.end());
  } else if (mode == 8) {
    msg = "a payload with a chunk missing is rejected";
    auto ch = chunks();
    const size_t i = (size_t)vp_choose((int)ch.size(), "chunk"), end = ch[i] + 4 + at32(ch[i]);
    pay.erase(pay.begin() + ch[i], pay.begin() + end);
  } else if (mode == 9) {  // any byte(s) replaced: a decode that succeeds has set every field of every point
    const size_t win = (size_t)vp_param("win", 1);
    vp_assume(pn >= win);
    const size_t at = (size_t)vp_choose((int)(pn - win + 1), "position");
    vp_make_symbolic(pay.data() + at, win, "replaced");
    uint8_t* a = (uint8_t*)malloc(outn);
    uint8_t* b = (uint8_t*)malloc(outn);
    memset(a, 0x00, outn);
    memset(b, 0xFF, outn);
    bool ok = true;
    try {
      PointcloudDecoder d, d2;
      d.decode(h, ConstBufferView(pay.data(), pn), BufferView(a, outn));
      d2.decode(h, ConstBufferView(pay.data(), pn), BufferView(b, outn));
    } catch (const std::exception&) { ok = false; }
    if (ok)
      for (size_t i = 0; i < n; i++)
        for (auto& f : info.fields)
          if (f.offset != kDecodeButSkipStore) vp_check_mem(a + i * step + f.offset, b + i * step + f.offset, SizeOf(f.type), "a decode that succeeds has set every field of every point");
    vp_reach(ok ? "decoded" : "rejected");
    free(a);
    free(b);
    return;
  }
  uint8_t* buf = (uint8_t*)malloc(pay.size() ? pay.size() : 1);
  if (pay.size()) memcpy(buf, pay.data(), pay.size());
  uint8_t* out = (uint8_t*)malloc(outn ? outn : 1);
  bool ok = true;
  try { PointcloudDecoder d; d.decode(h, ConstBufferView(buf, pay.size()), BufferView(out, outn)); } catch (const std::exception&) { ok = false; }
  vp_check(!ok, msg);
  vp_sink(buf, pay.size() < 64 ? pay.size() : 64, "payload");
  vp_reach(ok ? "decoded" : "rejected");
  free(out);
  free(buf);
}
