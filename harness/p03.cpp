// P03 at the field-codec level: Gorilla and XOR codecs for both float types, over chunk resets.
#include "cloud.h"
#include "cloudini_lib/field_decoder.hpp"
#include "cloudini_lib/field_encoder.hpp"
template <class Enc, class Dec, class F> static void go() {
  using U = std::conditional_t<sizeof(F) == 4, uint32_t, uint64_t>;
  const size_t n = (size_t)vp_param("n", 2), reset = (size_t)vp_param("reset", 0), off = (size_t)vp_param("off", 1);
  const long low = vp_param("low", 0);
  const size_t step = off + sizeof(F) + 1;
  std::vector<uint8_t> in(n * step, 0x11), out(n * step, 0x22), enc(n * 16 + 16, 0);
  for (size_t i = 0; i < n; i++) {
    U v = 0;
    vp_make_symbolic(&v, low ? (size_t)low : sizeof v, "value");
    if (low) v = (v << (8 * (i % sizeof(U)))) ^ (U)0x400921FB54442D18ull;
    std::memcpy(in.data() + i * step + off, &v, sizeof v);
  }
  Enc e(off);
  Dec d(off);
  e.reset();
  d.reset();
  BufferView o(enc.data(), enc.size());
  size_t total = 0;
  for (size_t i = 0; i < n; i++) {
    if (reset && i == reset) { total += e.flush(o); e.reset(); }
    total += e.encode(ConstBufferView(in.data() + i * step, step), o);
  }
  total += e.flush(o);
  vp_check(total == enc.size() - o.size(), "the encoder reports the number of bytes it wrote");
  ConstBufferView v(enc.data(), total);
  bool ok = true;
  try {
    for (size_t i = 0; i < n; i++) {
      if (reset && i == reset) d.reset();
      d.decode(v, BufferView(out.data() + i * step, step));
    }
  } catch (const std::exception&) { ok = false; }
  vp_check(ok, "what the encoder wrote is decoded");
  if (ok) {
    vp_check(v.empty(), "the decoder consumes exactly what was written");
    for (size_t i = 0; i < n; i++) {
      vp_check_mem(out.data() + i * step + off, in.data() + i * step + off, sizeof(F), "value restored bit by bit");
      vp_check(out[i * step + off + sizeof(F)] == 0x22 && out[i * step] == 0x22, "neighbouring bytes untouched");
    }
  }
  vp_sink(enc.data(), enc.size(), "encoded");
  vp_reach("done");
}
extern "C" void vp_main() {
  switch (vp_param("codec", 0)) {
    case 0: go<FieldEncoderFloat_Gorilla<float>, FieldDecoderFloat_Gorilla<float>, float>(); break;
    case 1: go<FieldEncoderFloat_Gorilla<double>, FieldDecoderFloat_Gorilla<double>, double>(); break;
    case 2: go<FieldEncoderFloat_XOR<float>, FieldDecoderFloat_XOR<float>, float>(); break;
    case 3: go<FieldEncoderFloat_XOR<double>, FieldDecoderFloat_XOR<double>, double>(); break;
  }
}
