// Shared helpers of the cloud harnesses: configuration parsing and input generation.
//   cfg string: "w=2 h=1 step=8 ver=5 enc=1 comp=0 thr=0 f=<name>:<type>:<offset>[:r<resolution>][:<gen>] f=..."
//   gen: s symbolic bytes per point | b one symbolic value for all points | l low byte symbolic | n low 2 bits symbolic
//        a alternates between two symbolic values | k constant step | d symbolic base plus symbolic small step | z zero
//        c concrete coordinates and NaN
//        e float with a concrete exponent in [elo,ehi]
//        m low byte symbolic over a wide constant | t two lowest bytes symbolic
//        W alternating floats of the largest magnitude the quantizer takes
//   offset "skip" is kDecodeButSkipStore
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include "vp.h"
#include "cloudini_lib/cloudini.hpp"
using namespace Cloudini;

struct Cfg {
  EncodingInfo info;
  std::vector<char> gen;
  char pad = 's';
  char bg = 0;               // pattern of the points not listed in `only`
  std::vector<size_t> only;
};
static inline bool cfgIs(const char* p, const char* key) { return std::strncmp(p, key, std::strlen(key)) == 0; }
static inline long cfgNum(const char*& p) {
  long v = 0;
  bool neg = *p == '-';
  if (neg) p++;
  while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
  return neg ? -v : v;
}
static inline double cfgDec(const char*& p) {
  double m = 0, s = 1;
  while (*p >= '0' && *p <= '9') m = m * 10 + (*p++ - '0');
  if (*p == '.') { p++; while (*p >= '0' && *p <= '9') { m = m * 10 + (*p++ - '0'); s *= 10; } }
  return m / s;
}
static inline FieldType cfgType(const char*& p) {
  char k = *p++;
  long n = cfgNum(p);
  if (k == 'f') return n == 32 ? FieldType::FLOAT32 : FieldType::FLOAT64;
  bool u = k == 'u';
  switch (n) {
    case 8: return u ? FieldType::UINT8 : FieldType::INT8;
    case 16: return u ? FieldType::UINT16 : FieldType::INT16;
    case 32: return u ? FieldType::UINT32 : FieldType::INT32;
    case 64: return u ? FieldType::UINT64 : FieldType::INT64;
  }
  return FieldType::UNKNOWN;
}
static inline void parseCfg(Cfg& c, const char* p) {
  EncodingInfo& info = c.info;
  info.height = 1; info.width = 1; info.version = 5; info.use_threads = false;
  info.encoding_opt = EncodingOptions::LOSSY; info.compression_opt = CompressionOption::NONE;
  while (*p) {
    while (*p == ' ') p++;
    if (!*p) break;
    if (cfgIs(p, "f=")) {
      p += 2;
      PointField f;
      while (*p != ':') f.name.push_back(*p++);
      p++;
      f.type = cfgType(p);
      p++;
      if (cfgIs(p, "skip")) { f.offset = kDecodeButSkipStore; p += 4; } else f.offset = (uint32_t)cfgNum(p);
      char g = 's';
      while (*p == ':') {
        p++;
        if (*p == 'r') { p++; f.resolution = (float)cfgDec(p); } else g = *p++;
      }
      info.fields.push_back(f);
      c.gen.push_back(g);
    } else {
      const char* k = p;
      while (*p != '=') p++;
      p++;
      if (cfgIs(k, "pad")) { c.pad = *p++; continue; }
      if (cfgIs(k, "bg=")) { c.bg = *p++; continue; }
      if (cfgIs(k, "only=")) { while (*p >= '0' && *p <= '9') { c.only.push_back((size_t)cfgNum(p)); if (*p == ',') p++; } continue; }
      long v = cfgNum(p);
      if (cfgIs(k, "w=")) info.width = v;
      else if (cfgIs(k, "h=")) info.height = v;
      else if (cfgIs(k, "step=")) info.point_step = v;
      else if (cfgIs(k, "ver=")) info.version = (uint8_t)v;
      else if (cfgIs(k, "enc=")) info.encoding_opt = (EncodingOptions)v;
      else if (cfgIs(k, "comp=")) info.compression_opt = (CompressionOption)v;
      else if (cfgIs(k, "thr=")) info.use_threads = v != 0;
    }
  }
}
static inline Cfg loadCfg(const char* key = "cfg") {
  char buf[2048];
  vp_sparam(key, buf, sizeof buf);
  Cfg c;
  parseCfg(c, buf);
  return c;
}
static inline bool covered(const Cfg& c, size_t byte) {
  for (auto& f : c.info.fields)
    if (f.offset != kDecodeButSkipStore && byte >= f.offset && byte < f.offset + SizeOf(f.type)) return true;
  return false;
}
// Fills `n` points.  Padding bytes: 's' symbolic, 'z' constant.
static inline void genCloud(const Cfg& c, uint8_t* data, size_t n) {
  const size_t step = c.info.point_step;
  std::memset(data, 0xC3, n * step);
  if (c.pad == 's')
    for (size_t b = 0; b < step; b++)
      if (n && !covered(c, b)) vp_make_symbolic(data + b, 1, "pad");  // of the first point
  for (size_t i = 0; i < c.info.fields.size(); i++) {
    const PointField& f = c.info.fields[i];
    const size_t sz = SizeOf(f.type);
    uint64_t A = 0, B = 0;
    uint8_t d = 0;
    switch (c.gen[i]) {
      case 'b': vp_make_symbolic(&A, sz, "base"); break;
      case 'a': vp_make_symbolic(&A, sz, "alt0"); vp_make_symbolic(&B, sz, "alt1"); break;
      case 'd': vp_make_symbolic(&A, sz, "base"); vp_make_symbolic(&d, 1, "step"); break;
      default: break;
    }
    for (size_t k = 0; k < n; k++) {
      uint64_t v = 0;
      char g = c.gen[i];
      if (c.bg) { bool in = false; for (size_t o : c.only) in = in || o == k; if (!in && (g == 's' || g == 'l' || g == 't' || g == 'm' || g == 'n')) g = c.bg; }
      switch (g) {
        case 's': vp_make_symbolic(&v, sz, f.name.c_str()); break;
        case 'l': vp_make_symbolic(&v, 1, f.name.c_str()); break;
        case 't': vp_make_symbolic(&v, 2, f.name.c_str()); break;
        case 'm': vp_make_symbolic(&v, 1, f.name.c_str()); v ^= 0x8123456789ABCD00ull; break;
        case 'n': vp_make_symbolic(&v, 1, f.name.c_str()); v &= 3; break;
        case 'b': v = A; break;
        case 'a': v = (k & 1) ? B : A; break;
        case 'd': v = A + (uint64_t)(int64_t)(int8_t)d * k; break;
        case 'k': v = 1000 + 300 * k; break;
        case 'e': {  // float with a concrete exponent (one path each) and symbolic sign and mantissa
          const bool dbl = sz == 8;
          const int lo = (int)vp_param("elo", 0), hi = (int)vp_param("ehi", dbl ? 2047 : 255);
          const uint64_t e = (uint64_t)(lo + vp_choose(hi - lo + 1, "exponent"));
          vp_make_symbolic(&v, sz, f.name.c_str());
          if (dbl) v = (v & 0x800FFFFFFFFFFFFFull) | (e << 52); else v = (v & 0x807FFFFFu) | (e << 23);
        } break;
        case 'c': {  // concrete float coordinates with a NaN now and then
          static const double tab[] = {1.2345, -0.5, 1e3 + 0.125, 0.0, -77.7, 3.1e4};
          const double x = k % 4 == 2 ? __builtin_nan("") : tab[(k + i) % 6];
          if (sz == 8) std::memcpy(&v, &x, 8); else { const float y = (float)x; std::memcpy(&v, &y, 4); }
        } break;
        case 'W': {  // floats whose quantized deltas need the longest varints
          const double m = f.resolution.value_or(1.0f) * (vp_param("lanes", 0) ? 1e9 : 1e18), x = (k & 1) ? -2.0 * m : (vp_param("lanes", 0) ? 2.0 : 6.0) * m;
          if (sz == 8) std::memcpy(&v, &x, 8); else { const float y = (float)x; std::memcpy(&v, &y, 4); }
        } break;
        case 'q': v = (k % 3) * 1000 + 5; break;
        case 'p': v = 100000 + (k / 5) * 3; break;
        case 'X':  // constant step up to the probe size, then runs of one with 10-byte deltas
          v = k < (size_t)vp_param("probe", 4096) ? 5 * k : ((k & 1) ? 0 : ((1ull << 62) + k * k));
          break;
        case 'R':  // constant up to the probe size, then all different
          v = k < (size_t)vp_param("probe", 4096) ? 5 : 0x9E3779B97F4A7C15ull * k;
          break;
        case 'P':  // three values up to the probe size, then all different
          v = k < (size_t)vp_param("probe", 4096) ? (k * k % 3) * 77777 : 0x9E3779B97F4A7C15ull * k;
          break;
        case '5': v = (k * 7 % 5 + 1) * 0x9E3779B97F4A7C15ull; break;   // 5 unrelated values: 3 bits
        case '6': v = (k * 5 % 11 + 1) * 0x9E3779B97F4A7C15ull; break;  // 11: 4 bits
        case 'u': v = (k / 8 + 1) * 0x9E3779B97F4A7C15ull; break;  // runs without any structure
        case 'K': v = 7 + (uint64_t)k * k * 37; break;
        default: break;
      }
      std::memcpy(data + k * step + f.offset, &v, sz);
    }
  }
}
static inline bool lossless(const EncodingInfo& info, const PointField& f) {
  if (info.encoding_opt != EncodingOptions::LOSSY) return true;
  return !((f.type == FieldType::FLOAT32 || f.type == FieldType::FLOAT64) && f.resolution.has_value());
}
