// P14: what nanocdr::Encoder writes is what the CDR rules prescribe and is read back by nanocdr::Decoder; the Decoder stays inside
// arbitrary buffers.
#include <cstdlib>
#include <cstring>
#include <string>
#include "vp.h"
#include "cloudini_lib/contrib/nanocdr.hpp"
using namespace nanocdr;
struct Rec { uint8_t a; uint32_t b; std::string c; double d; };
namespace nanocdr {
template <> struct TypeDefinition<Rec> {
  template <class Op> void operator()(Rec& r, Op& op) { op(r.a); op(r.b); op(r.c); op(r.d); }
};
}
// independent writer
struct Ref {
  std::vector<uint8_t> b;
  bool big;
  size_t a8;
  void prim(const void* p, size_t n) {
    const size_t al = n == 8 ? a8 : n;
    while ((b.size() - 4) % al) b.push_back(0);
    for (size_t i = 0; i < n; i++) b.push_back(((const uint8_t*)p)[big ? n - 1 - i : i]);
  }
  void u32(uint32_t v) { prim(&v, 4); }
  void bytes(const void* p, size_t n) { for (size_t i = 0; i < n; i++) b.push_back(((const uint8_t*)p)[i]); }
  void str(const std::string& s) { u32((uint32_t)s.size() + 1); bytes(s.data(), s.size()); b.push_back(0); }
};
static long maxlen;
static std::string symStr() {
  std::string s((size_t)vp_choose((int)maxlen + 1, "length"), 'x');
  if (s.size()) vp_make_symbolic(s.data(), s.size(), "chars");
  return s;
}
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
struct Any { virtual ~Any() {} virtual void put(Encoder&, Ref&) = 0; virtual void get(Decoder&) = 0; };
static ConstBuffer whole;
template <class T> struct Prim : Any {
  T v;
  Prim() { v = vp_sym<T>("value"); }
  void put(Encoder& e, Ref& r) override { e.encode(v); r.prim(&v, sizeof v); }
  void get(Decoder& d) override { T w; d.decode(w); vp_check_mem(&v, &w, sizeof v, "value read back"); }
};
struct Bool : Any {
  bool v;
  Bool() { v = vp_sym<uint8_t>("value") & 1; }
  void put(Encoder& e, Ref& r) override { e.encode(v); r.prim(&v, 1); }
  void get(Decoder& d) override { bool w; d.decode(w); vp_check(v == w, "bool read back"); }
};
struct Str : Any {
  std::string v = symStr();
  void put(Encoder& e, Ref& r) override { e.encode(v); r.str(v); }
  void get(Decoder& d) override { std::string w = "old"; d.decode(w); vp_check(same(v, w), "string read back"); }
};
struct Bytes : Any {
  std::string v = symStr();
  void put(Encoder& e, Ref& r) override { e.encode(ConstBuffer(v.data(), v.size())); r.u32((uint32_t)v.size()); r.bytes(v.data(), v.size()); }
  void get(Decoder& d) override {
    ConstBuffer w;
    d.decode(w);
    vp_check(w.size() == v.size(), "byte buffer size read back");
    vp_check(w.data() >= whole.data() && w.data() + w.size() <= whole.data() + whole.size(), "view inside the buffer");
    if (w.size() == v.size()) vp_check_mem(v.data(), w.data(), v.size(), "byte buffer read back");
  }
};
template <class T> struct Vec : Any {
  std::vector<T> v;
  Vec() { v.resize((size_t)vp_choose((int)maxlen + 1, "length")); if (v.size()) vp_make_symbolic(v.data(), v.size() * sizeof(T), "vector"); }
  void put(Encoder& e, Ref& r) override { e.encode(v); r.u32((uint32_t)v.size()); for (auto& x : v) r.prim(&x, sizeof x); }
  void get(Decoder& d) override { std::vector<T> w(5); d.decode(w); vp_check(w.size() == v.size(), "vector size read back"); if (w.size() == v.size() && v.size()) vp_check_mem(v.data(), w.data(), v.size() * sizeof(T), "vector read back"); }
};
template <class T, size_t N> struct Arr : Any {
  std::array<T, N> v;
  Arr() { vp_make_symbolic(v.data(), sizeof v, "array"); }
  void put(Encoder& e, Ref& r) override { e.encode(v); for (auto& x : v) r.prim(&x, sizeof x); }
  void get(Decoder& d) override { std::array<T, N> w; d.decode(w); vp_check_mem(v.data(), w.data(), sizeof v, "array read back"); }
};
static Rec symRec() { Rec r; r.a = vp_sym<uint8_t>("a"); r.b = vp_sym<uint32_t>("b"); r.c = symStr(); const uint64_t d = vp_sym<uint64_t>("d"); memcpy(&r.d, &d, 8); return r; }
static void refRec(Ref& r, const Rec& v) { r.prim(&v.a, 1); r.prim(&v.b, 4); r.str(v.c); r.prim(&v.d, 8); }
static void cmpRec(const Rec& v, const Rec& w) { vp_check(v.a == w.a && v.b == w.b && same(v.c, w.c), "structure read back"); vp_check_mem(&v.d, &w.d, 8, "double of the structure read back"); }
struct Struct : Any {
  Rec v = symRec();
  void put(Encoder& e, Ref& r) override { e.encode(v); refRec(r, v); }
  void get(Decoder& d) override { Rec w; d.decode(w); cmpRec(v, w); }
};
struct VecStr : Any {
  std::vector<std::string> v;
  VecStr() { v.resize((size_t)vp_choose((int)maxlen + 1, "length")); for (auto& s : v) s = symStr(); }
  void put(Encoder& e, Ref& r) override { e.encode(v); r.u32((uint32_t)v.size()); for (auto& x : v) r.str(x); }
  void get(Decoder& d) override { std::vector<std::string> w; d.decode(w); vp_check(w.size() == v.size(), "vector size read back"); for (size_t i = 0; i < v.size() && i < w.size(); i++) vp_check(same(v[i], w[i]), "strings read back"); }
};
struct VecStruct : Any {
  std::vector<Rec> v;
  VecStruct() { v.resize((size_t)vp_choose((int)maxlen + 1, "length")); for (auto& s : v) s = symRec(); }
  void put(Encoder& e, Ref& r) override { e.encode(v); r.u32((uint32_t)v.size()); for (auto& x : v) refRec(r, x); }
  void get(Decoder& d) override { std::vector<Rec> w; d.decode(w); vp_check(w.size() == v.size(), "vector size read back"); for (size_t i = 0; i < v.size() && i < w.size(); i++) cmpRec(v[i], w[i]); }
};
static const int KINDS = 24;
static Any* make(int k) {
  switch (k) {
    case 0: return new Prim<uint8_t>; case 1: return new Prim<uint16_t>; case 2: return new Prim<uint32_t>; case 3: return new Prim<uint64_t>;
    case 4: return new Str; case 5: return new Bytes; case 6: return new Vec<uint16_t>; case 7: return new Vec<uint64_t>;
    case 8: return new Arr<uint8_t, 3>; case 9: return new Arr<uint64_t, 2>; case 10: return new Struct; case 11: return new VecStr;
    case 12: return new Bool; case 13: return new Prim<int8_t>; case 14: return new Prim<int16_t>; case 15: return new Prim<int32_t>; case 16: return new Prim<int64_t>;
    case 17: return new Prim<float>; case 18: return new Prim<double>; case 19: return new Prim<char>; case 20: return new Vec<uint8_t>; case 21: return new Vec<float>;
    case 22: return new Arr<double, 1>; default: return new VecStruct;
  }
}
static const CdrHeader headers[] = {  // consistent header triples, and the Decoder default that accepts them
    {Endianness::CDR_LITTLE_ENDIAN, EncodingFlag::PLAIN_CDR, CdrVersion::DDS_CDR}, {Endianness::CDR_BIG_ENDIAN, EncodingFlag::PLAIN_CDR, CdrVersion::DDS_CDR},
    {Endianness::CDR_LITTLE_ENDIAN, EncodingFlag::PLAIN_CDR2, CdrVersion::XCDRv2}, {Endianness::CDR_BIG_ENDIAN, EncodingFlag::PLAIN_CDR2, CdrVersion::XCDRv2},
    {Endianness::CDR_LITTLE_ENDIAN, EncodingFlag::PL_CDR, CdrVersion::XCDRv1}, {Endianness::CDR_BIG_ENDIAN, EncodingFlag::PLAIN_CDR, CdrVersion::XCDRv1}};
template <class T> static void any(Decoder& d) { T t; d.decode(t); }
static void getAny(Decoder& d, int k) {
  switch (k) {
    case 0: any<uint8_t>(d); break; case 1: any<uint16_t>(d); break; case 2: any<uint32_t>(d); break; case 3: any<double>(d); break;
    case 4: any<std::string>(d); break;
    case 5: { ConstBuffer w; d.decode(w); vp_check(w.data() >= whole.data() && w.data() + w.size() <= whole.data() + whole.size(), "view inside the buffer"); } break;
    case 6: any<Rec>(d); break; case 7: any<std::array<uint64_t, 2>>(d); break; case 10: any<std::vector<uint16_t>>(d); break; case 11: any<std::vector<std::string>>(d); break;
    case 8: { const size_t n = vp_sym<size_t>("jump"); d.jump(n); } break;
    case 9: { bool b; d.decode(b); uint8_t r; memcpy(&r, &b, 1); vp_check(r <= 1, "a decoded bool is true or false"); } break;
  }
}
extern "C" void vp_main() {
  const long mode = vp_param("mode", 0);
  maxlen = vp_param("max", 2);
  if (mode == 0) {
    const int n = (int)vp_param("items", 2), kinds = (int)vp_param("kinds", KINDS), base = (int)vp_param("base", 0);
    const CdrHeader& h = headers[vp_choose((int)vp_param("headers", 6), "header")];
    std::vector<Any*> items;
    for (int i = 0; i < n; i++) items.push_back(make(i == 0 && vp_param("first", -1) >= 0 ? (int)vp_param("first", -1) : base + vp_choose(kinds, "kind")));
    Ref r{{0, (uint8_t)((uint8_t)h.endianness | (uint8_t)h.encoding), 0, 0}, h.endianness == Endianness::CDR_BIG_ENDIAN, h.version == CdrVersion::XCDRv2 ? (size_t)4 : (size_t)8};
    std::vector<uint8_t> out;
    const bool own = vp_param("own", 0) != 0;
    if (vp_param("dirty", 1)) { out.resize(40); vp_make_symbolic(out.data(), 40, "earlier contents"); }
    Encoder* e = own ? new Encoder(h) : new Encoder(h, out);
    for (Any* a : items) a->put(*e, r);
    const ConstBuffer w = e->encodedBuffer();
    vp_check(w.size() == r.b.size(), "encoded size");
    if (w.size() == r.b.size()) vp_check_mem(w.data(), r.b.data(), w.size(), "encoded bytes follow the CDR alignment and byte order");
    vp_sink(w.data(), w.size() < 64 ? w.size() : 64, "encoded");
    size_t n2 = w.size();
    const bool cut = vp_param("cut", 0) != 0;
    if (cut) n2 = (size_t)vp_choose((int)w.size(), "cut");
    uint8_t* p = (uint8_t*)malloc(n2 ? n2 : 1);
    if (n2) memcpy(p, w.data(), n2);
    delete e;
    whole = ConstBuffer(p, n2);
    bool ok = true;
    try {
      Decoder d(whole, h.version);
      vp_check(d.header().endianness == h.endianness && d.header().encoding == h.encoding && d.header().version == h.version, "the header is read back");
      for (Any* a : items) a->get(d);
      vp_check(d.currentBuffer().size() == 0, "everything was consumed");
    } catch (const std::exception&) { ok = false; }
    if (cut) vp_check(!ok, "a shortened buffer is rejected"); else vp_check(ok, "the buffer is decoded");
    vp_reach(cut ? "cut" : "decoded");
    for (Any* a : items) delete a;
    free(p);
  } else {
    const size_t n = (size_t)(vp_param("lo", 0) + vp_choose((int)(vp_param("hi", 10) - vp_param("lo", 0) + 1), "size"));
    uint8_t* p = (uint8_t*)malloc(n ? n : 1);
    if (!n) { free(p); p = (uint8_t*)malloc(0); }
    if (n) vp_make_symbolic(p, n, "buffer");
    if (vp_param("header", 0)) { for (size_t i = 0; i < n && i < 4; i++) p[i] = 0; if (n > 1) p[1] = (uint8_t)vp_choose(2, "endianness"); }
    whole = ConstBuffer(p, n);
    try {
      Decoder d(whole, (CdrVersion)(1 + vp_choose((int)vp_param("versions", 3), "default")));
      vp_reach("header accepted");
      const int items = (int)vp_param("items", 1);
      for (int i = 0; i < items; i++) {
        const size_t before = d.currentBuffer().size();
        const int k = vp_choose(i ? 10 : 12, "kind");  // the two kinds with allocations of the decoded length come first only
        const bool alloc = k >= 10;
        if (alloc && before >= 4) {
          static const uint32_t lens[] = {0, 1, 2, 3, 5, 300, 0xFFFFFFFFu};
          uint32_t len = lens[vp_choose(7, "length")];
          if (p[1] == 0) swapEndianness(len);
          memcpy(p + 4, &len, 4);
        }
        getAny(d, k);
        const ConstBuffer c = d.currentBuffer();
        vp_check(c.size() <= before && c.data() + c.size() == p + n, "the remaining view is the tail of the buffer");
      }
      vp_reach("decoded");
    } catch (const std::exception&) { vp_reach("rejected"); }
    free(p);
  }
}
