// An independent implementation of the wire format (V2 to V5), written from the documentation; used by P11.
// Integers: zigzag(v - previous) + 1 as a base-128 varint (0 is the NaN marker); everything little-endian.
#pragma once
#include <cmath>
#include "cloud.h"
typedef std::vector<uint8_t> Bytes;
struct RefError {};
static inline void rByte(Bytes& o, uint64_t b) { o.push_back((uint8_t)b); }
static inline void rLE(Bytes& o, uint64_t v, size_t n) { for (size_t i = 0; i < n; i++) o.push_back((uint8_t)(v >> (8 * i))); }
static inline uint64_t rGet(const uint8_t* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static inline void rVarint(Bytes& o, int64_t d) {
  unsigned __int128 u = (unsigned __int128)(((uint64_t)d << 1) ^ (uint64_t)(d >> 63)) + 1;
  for (;;) {
    const uint8_t low = (uint8_t)(u & 127);
    u >>= 7;
    if (u == 0) { o.push_back(low); return; }
    o.push_back(low | 128);
  }
}
static inline void rUVarint(Bytes& o, uint64_t u) {
  while (u >= 128) { o.push_back((uint8_t)(u | 128)); u >>= 7; }
  o.push_back((uint8_t)u);
}
static inline bool rIsInt(FieldType t) { return t != FieldType::FLOAT32 && t != FieldType::FLOAT64; }
static inline size_t rSize(FieldType t) {
  switch (t) {
    case FieldType::INT8: case FieldType::UINT8: return 1;
    case FieldType::INT16: case FieldType::UINT16: return 2;
    case FieldType::INT32: case FieldType::UINT32: case FieldType::FLOAT32: return 4;
    default: return 8;
  }
}
static inline bool rWide(FieldType t) { return rIsInt(t) && rSize(t) >= 2; }
static inline int64_t rInt(const uint8_t* p, FieldType t) {  // value as a signed 64-bit integer
  const uint64_t v = rGet(p, rSize(t));
  switch (t) {
    case FieldType::INT16: return (int16_t)v;
    case FieldType::INT32: return (int32_t)v;
    default: return (int64_t)v;
  }
}
static inline size_t rLeading(const EncodingInfo& in) {  // fields coded as one vector of floats
  if (in.encoding_opt != EncodingOptions::LOSSY) return 0;
  size_t k = 0;
  while (k < in.fields.size() && in.fields[k].type == FieldType::FLOAT32 && in.fields[k].resolution) k++;
  return k == 3 || k == 4 ? k : 0;
}
static inline bool rAdaptive(const EncodingInfo& in, size_t i) {
  return in.version >= 5 && in.encoding_opt == EncodingOptions::LOSSY && i >= rLeading(in) && rWide(in.fields[i].type);
}
enum RefCodec { R_COPY, R_INT, R_QUANT, R_QUANTV, R_XOR, R_GOR, R_SECTION };
static inline RefCodec rCodec(const EncodingInfo& in, size_t i) {
  const PointField& f = in.fields[i];
  if (in.encoding_opt == EncodingOptions::NONE) return R_COPY;
  if (i < rLeading(in)) return R_QUANTV;
  if (rAdaptive(in, i)) return R_SECTION;
  if (rIsInt(f.type)) return rSize(f.type) == 1 ? R_COPY : R_INT;
  const bool lossy = in.encoding_opt == EncodingOptions::LOSSY;
  if (lossy && f.resolution) return R_QUANT;
  if (f.type == FieldType::FLOAT32) return lossy ? R_COPY : R_XOR;
  return !f.resolution && in.version >= 4 ? R_GOR : R_XOR;
}
// FLOAT64 Gorilla of one point: bits least significant first, padded to a byte
struct RefGor {
  bool first = true, have = false;
  uint64_t prev = 0;
  int lead = 0, trail = 0;
};
struct RefBits {
  Bytes& o;
  uint8_t cur = 0;
  int held = 0;
  void put(uint64_t v, int n) {
    for (int i = 0; i < n;) {  // up to the byte boundary
      int k = 8 - held < n - i ? 8 - held : n - i;
      cur |= (uint8_t)(((v >> i) & ((1u << k) - 1)) << held);
      held += k;
      i += k;
      if (held == 8) { o.push_back(cur); cur = 0; held = 0; }
    }
  }
  void flush() { if (held) o.push_back(cur); cur = 0; held = 0; }
};
static inline int rClz(uint64_t x) { int n = 0; while (n < 64 && !(x >> (63 - n) & 1)) n++; return n; }
static inline int rCtz(uint64_t x) { int n = 0; while (n < 64 && !(x >> n & 1)) n++; return n; }
static inline void rGorilla(Bytes& o, RefGor& g, uint64_t v) {
  RefBits b{o};
  if (g.first) { g.first = false; b.put(v, 64); }
  else {
    const uint64_t x = v ^ g.prev;
    if (x == 0) b.put(0, 1);
    else {
      b.put(1, 1);
      const int l = rClz(x), t = rCtz(x);
      if (g.have && l >= g.lead && t >= g.trail) {
        b.put(0, 1);
        b.put(x >> g.trail, 64 - g.lead - g.trail);
      } else {
        b.put(1, 1);
        g.lead = l > 31 ? 31 : l;
        g.trail = t;
        g.have = true;
        b.put((uint64_t)g.lead, 5);
        b.put((uint64_t)(64 - g.lead - g.trail - 1), 6);
        b.put(x >> g.trail, 64 - g.lead - g.trail);
      }
    }
  }
  g.prev = v;
  b.flush();
}
// sections of V5: mode byte, then the values of the chunk.  `split`: runs cut in two; `order`: palette reversed
static inline void rSection(Bytes& o, const std::vector<uint64_t>& raw, const std::vector<int64_t>& val, size_t bytes, int mode, bool odd) {
  rByte(o, mode);
  const size_t n = raw.size();
  if (mode == 0) {
    int64_t p = 0;
    for (size_t i = 0; i < n; i++) { rVarint(o, (int64_t)((uint64_t)val[i] - (uint64_t)p)); p = val[i]; }
  } else if (mode == 1) {
    std::vector<uint64_t> pal;
    std::vector<uint32_t> idx;
    for (size_t i = 0; i < n; i++) {
      size_t k = 0;
      while (k < pal.size() && pal[k] != raw[i]) k++;
      if (k == pal.size()) pal.push_back(raw[i]);
      idx.push_back((uint32_t)k);
    }
    if (odd) {  // any order is fine, also values that are not used
      std::vector<uint64_t> q(pal.rbegin(), pal.rend());
      q.push_back(0x1234);
      for (auto& k : idx) k = (uint32_t)(pal.size() - 1 - k);
      pal = q;
    }
    rLE(o, pal.size(), 2);
    for (uint64_t v : pal) rLE(o, v, bytes);
    int bits = 0;
    while ((pal.size() - 1) >> bits) bits++;
    RefBits b{o};
    for (uint32_t k : idx) b.put(k, bits);
    b.flush();
  } else {
    const size_t at = o.size();
    rLE(o, 0, 4);
    uint32_t runs = 0;
    int64_t p = 0;
    for (size_t i = 0; i < n;) {
      size_t j = i + 1;
      if (mode == 2) {
        while (j < n && raw[j] == raw[i] && !(odd && j - i == 2)) j++;
        rLE(o, raw[i], bytes);
      } else {
        const int64_t d = (int64_t)((uint64_t)val[i] - (uint64_t)p);
        while (j < n && (int64_t)((uint64_t)val[j] - (uint64_t)val[j - 1]) == d && !(odd && j - i == 2)) j++;
        rVarint(o, d);
        p = val[j - 1];
      }
      rUVarint(o, j - i);
      runs++;
      i = j;
    }
    for (int i = 0; i < 4; i++) o[at + i] = (uint8_t)(runs >> (8 * i));
  }
}
struct RefState { uint64_t bits = 0; int64_t ival = 0; int32_t q32 = 0; RefGor gor; };
static inline void rChunk(Bytes& o, const EncodingInfo& in, const uint8_t* data, size_t n, const std::vector<int>& modes, bool odd) {
  std::vector<RefState> st(in.fields.size());
  for (size_t k = 0; k < n; k++)
    for (size_t i = 0; i < in.fields.size(); i++) {
      const PointField& f = in.fields[i];
      const uint8_t* p = data + k * in.point_step + f.offset;
      RefState& s = st[i];
      switch (rCodec(in, i)) {
        case R_COPY: for (size_t b = 0; b < rSize(f.type); b++) o.push_back(p[b]); break;
        case R_INT: { const int64_t v = rInt(p, f.type); rVarint(o, (int64_t)((uint64_t)v - (uint64_t)s.ival)); s.ival = v; } break;
        case R_XOR: { const uint64_t v = rGet(p, rSize(f.type)); rLE(o, v ^ s.bits, rSize(f.type)); s.bits = v; } break;
        case R_GOR: rGorilla(o, s.gor, rGet(p, 8)); break;
        case R_QUANTV: {
          float x; memcpy(&x, p, 4);
          if (x != x) { rByte(o, 0); s.q32 = 0; break; }
          const float m = x * (1.0f / *f.resolution);
          const int32_t q = (int32_t)std::nearbyint(m);
          rVarint(o, (int32_t)((uint32_t)q - (uint32_t)s.q32));
          s.q32 = q;
        } break;
        case R_QUANT: {
          double m;
          if (f.type == FieldType::FLOAT32) {
            float x; memcpy(&x, p, 4);
            if (x != x) { rByte(o, 0); s.ival = 0; break; }
            m = x * (float)(1.0 / *f.resolution);
          } else {
            double x; memcpy(&x, p, 8);
            if (x != x) { rByte(o, 0); s.ival = 0; break; }
            m = x * (1.0 / (double)*f.resolution);
          }
          const int64_t q = (int64_t)(m < 0 ? -std::floor(-m + 0.5) : std::floor(m + 0.5));
          rVarint(o, (int64_t)((uint64_t)q - (uint64_t)s.ival));
          s.ival = q;
        } break;
        default: break;
      }
    }
  size_t a = 0;
  for (size_t i = 0; i < in.fields.size(); i++)
    if (rCodec(in, i) == R_SECTION) {
      const PointField& f = in.fields[i];
      std::vector<uint64_t> raw;
      std::vector<int64_t> val;
      for (size_t k = 0; k < n; k++) {
        raw.push_back(rGet(data + k * in.point_step + f.offset, rSize(f.type)));
        val.push_back(rInt(data + k * in.point_step + f.offset, f.type));
      }
      rSection(o, raw, val, rSize(f.type), modes[a++], odd);
    }
}
static inline Bytes rEncode(const EncodingInfo& in, const uint8_t* data, size_t n, size_t per, const std::vector<int>& modes, bool odd) {
  Bytes o;
  if (in.version < 3) { if (n) rChunk(o, in, data, n, modes, odd); return o; }
  for (size_t k = 0; k < n; k += per) {
    const size_t at = o.size();
    rLE(o, 0, 4);
    rChunk(o, in, data + k * in.point_step, n - k < per ? n - k : per, modes, odd);
    const size_t s = o.size() - at - 4;
    for (int i = 0; i < 4; i++) o[at + i] = (uint8_t)(s >> (8 * i));
  }
  return o;
}
// ---- decoding, for what the V5 encoder chose
struct RefIn {
  const uint8_t* p;
  size_t n;
  uint8_t byte() { if (!n) throw RefError(); n--; return *p++; }
  uint64_t le(size_t k) { uint64_t v = 0; for (size_t i = 0; i < k; i++) v |= (uint64_t)byte() << (8 * i); return v; }
  uint64_t uvarint() { uint64_t v = 0; for (int s = 0;; s += 7) { if (s > 63) throw RefError(); uint8_t b = byte(); v |= (uint64_t)(b & 127) << s; if (b < 128) return v; } }
  int64_t varint() {
    unsigned __int128 v = 0;
    for (int s = 0;; s += 7) { if (s > 63) throw RefError(); uint8_t b = byte(); v |= (unsigned __int128)(b & 127) << s; if (b < 128) break; }
    const uint64_t u = (uint64_t)(v - 1);
    return (int64_t)((u >> 1) ^ (0 - (u & 1)));
  }
};
static inline std::vector<uint64_t> rDecodeSection(RefIn& in, size_t bytes, size_t n) {
  std::vector<uint64_t> r;
  const uint8_t mode = in.byte();
  if (mode == 0) { int64_t p = 0; for (size_t i = 0; i < n; i++) { p = (int64_t)((uint64_t)p + (uint64_t)in.varint()); r.push_back((uint64_t)p); } }
  else if (mode == 1) {
    const size_t c = in.le(2);
    std::vector<uint64_t> pal;
    for (size_t i = 0; i < c; i++) pal.push_back(in.le(bytes));
    int bits = 0;
    while ((c - 1) >> bits) bits++;
    int held = 0;
    uint64_t cur = 0;
    for (size_t i = 0; i < n; i++) {
      while (held < bits) { cur |= (uint64_t)in.byte() << held; held += 8; }
      r.push_back(pal.at(cur & ((1ull << bits) - 1)));
      cur >>= bits;
      held -= bits;
    }
  } else if (mode == 2 || mode == 3) {
    const size_t runs = in.le(4);
    int64_t p = 0;
    for (size_t k = 0; k < runs; k++) {
      const uint64_t v = mode == 2 ? in.le(bytes) : (uint64_t)in.varint();
      uint64_t len = in.uvarint();
      if (len > n) throw RefError();
      while (len--) { if (mode == 3) { p = (int64_t)((uint64_t)p + v); r.push_back((uint64_t)p); } else r.push_back(v); }
    }
  } else throw RefError();
  if (r.size() != n) throw RefError();
  return r;
}
