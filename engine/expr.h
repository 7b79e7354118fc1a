// Hash-consed bit-vector / IEEE-754 expression DAG with simplification, known-bits and concrete evaluation.
#pragma once
#include <bitset>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <iterator>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "llvm/ADT/APInt.h"

namespace cse {
using llvm::APInt;

enum Op : uint8_t {
  SYM, BIGC, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FSQRT, FFMA, FRND, FOEQ, FOLT, FOLE, FUNO, FTOSI, FTOUI, SITOF, UITOF, FCVT
};
enum Rnd { RNE = 0, RNA = 1, RTZ = 2, RTP = 3, RTN = 4 };

struct Node;
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct Ex {
  uintptr_t t = 0;  // node pointer, or (width<<1)|1 for an inline constant
  uint64_t v = 0;
  bool isC() const { return t & 1; }
  bool valid() const { return t != 0; }
  Node* n() const { return (Node*)t; }
  inline unsigned w() const;
  bool operator==(const Ex& o) const { return t == o.t && v == o.v; }
  bool operator!=(const Ex& o) const { return !(*this == o); }
  bool isZero() const { return isC() && v == 0; }
  bool isTrue() const { return isC() && v != 0; }
  bool isFalse() const { return isC() && v == 0; }
};
inline Ex C(uint64_t v, unsigned w) {
  Ex e;
  e.t = ((uintptr_t)w << 1) | 1;
  e.v = v & maskw(w);
  return e;
}
using SymSet = std::vector<uint32_t>;
struct Node {
  Op op;
  uint8_t nk;
  uint16_t w;
  uint32_t aux;
  uint32_t id;
  uint32_t epoch = 0;
  uint64_t val = 0;
  uint64_t kz = 0, ko = 0;
  const SymSet* syms = nullptr;
  void* z3 = nullptr;   // bit-vector ast
  void* z3f = nullptr;  // floating-point ast
  bool hasfp = false;
  Ex k[3];
};
inline unsigned Ex::w() const { return isC() ? (unsigned)(t >> 1) : n()->w; }

struct SymInfo {
  std::string name;
  unsigned w;
};

struct Ctx {
  std::vector<SymInfo> symtab;
  std::vector<APInt> bigs;
  size_t nnodes = 0;
  struct Key {
    Op op; uint16_t w; uint32_t aux; Ex k[3];
    bool operator==(const Key& o) const { return op == o.op && w == o.w && aux == o.aux && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2]; }
  };
  struct KH {
    size_t operator()(const Key& q) const {
      uint64_t h = q.op * 0x9E3779B97F4A7C15ull + q.w * 1000003ull + q.aux * 7919ull;
      for (auto& e : q.k) {
        h ^= (e.t + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2));
        h *= 0xff51afd7ed558ccdull;
        h ^= (e.v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2));
        h *= 0xc4ceb9fe1a85ec53ull;
      }
      return h ^ (h >> 29);
    }
  };
  std::unordered_map<Key, Node*, KH> tab;
  struct SSH { size_t operator()(const SymSet& s) const { uint64_t h = 1469598103934665603ull; for (auto x : s) { h ^= x; h *= 1099511628211ull; } return h; } };
  std::unordered_map<SymSet, const SymSet*, SSH> sets;
  std::unordered_map<uint64_t, const SymSet*> unions;
  SymSet empty;
  uint32_t epoch = 0;
  std::unordered_map<Node*, APInt> bigEval;
  std::unordered_map<Node*, std::bitset<256>*> bsets;

  const SymSet* intern(SymSet&& s) {
    auto it = sets.find(s);
    if (it != sets.end()) return it->second;
    auto* p = new SymSet(s);
    sets.emplace(std::move(s), p);
    return p;
  }
  const SymSet* uni(const SymSet* a, const SymSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    uint64_t key = (uint64_t)(uintptr_t)a * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)b;
    auto it = unions.find(key);
    if (it != unions.end()) return it->second;
    SymSet r;
    r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    auto* p = intern(std::move(r));
    unions[key] = p;
    return p;
  }
  Ex raw(Op op, unsigned w, uint32_t aux, Ex a = {}, Ex b = {}, Ex c = {});
  // Lazily refined operations: the result of an expensive operation is a fresh symbol constrained only by
  // functional congruence; its exact definition is used when a counterexample or a sample has to be concrete.
  unsigned absMask = 0;  // 1: multiplication by a dense constant, 2: floating-point arithmetic
  std::unordered_map<uint32_t, Ex> absDef;   // symbol -> exact operation node
  std::unordered_map<Node*, Ex> absOf;       // exact operation node -> symbol
  Ex abstract(Ex exact);
};
extern Ctx G;

// ---- big constants -------------------------------------------------------------------------------------
inline Ex mkC(const APInt& a) {
  if (a.getBitWidth() <= 64) return C(a.getZExtValue(), a.getBitWidth());
  // intern big constants through a key on the words
  static std::unordered_map<std::string, Ex> tab;
  std::string key((const char*)a.getRawData(), a.getNumWords() * 8);
  key += std::to_string(a.getBitWidth());
  auto it = tab.find(key);
  if (it != tab.end()) return it->second;
  G.bigs.push_back(a);
  Ex e = G.raw(BIGC, a.getBitWidth(), G.bigs.size() - 1);
  tab[key] = e;
  return e;
}
inline bool isConst(const Ex& e) { return e.isC() || e.n()->op == BIGC; }
inline APInt toAP(const Ex& e) {
  if (e.isC()) return APInt(e.w(), e.v);
  return G.bigs[e.n()->aux];
}
inline void kbits(const Ex& e, uint64_t& kz, uint64_t& ko) {
  if (e.isC()) { ko = e.v; kz = ~e.v & maskw(e.w()); }
  else { kz = e.n()->kz; ko = e.n()->ko; }
}

// ---- concrete semantics --------------------------------------------------------------------------------
inline float b2f(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
inline double b2d(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
inline uint64_t f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
inline uint64_t d2b(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

template <class F> inline F frnd(F x, unsigned m) {
  switch (m) {
    case RNE: return std::nearbyint(x);
    case RNA: return std::round(x);
    case RTZ: return std::trunc(x);
    case RTP: return std::ceil(x);
    default: return std::floor(x);
  }
}
// x86 cvttss2si/cvttsd2si style conversion: out-of-range gives the "integer indefinite" value
inline uint64_t ftosi(double d, unsigned w) {
  if (w == 64) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull; return (uint64_t)(int64_t)d; }
  if (w == 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000u; return (uint64_t)(int64_t)d & maskw(32); }
  // narrower: goes through 32-bit conversion
  return ftosi(d, 32) & maskw(w);
}
inline uint64_t ftoui(double d, unsigned w) {
  if (w == 64) { if (!(d > -1.0 && d < 18446744073709551616.0)) return 0x8000000000000000ull; return d < 9223372036854775808.0 ? (uint64_t)(int64_t)d : (uint64_t)d; }
  if (w == 32) { return (uint64_t)ftosi(d, 64) & maskw(32); }
  return ftosi(d, 32) & maskw(w);
}
inline uint64_t evalOp0(Op op, unsigned w, uint32_t aux, const uint64_t* k, const unsigned* kw) {
  uint64_t a = k[0], b = k[1];
  unsigned aw = kw[0];
  uint64_t m = maskw(w);
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, aw) < sx(b, aw);
    case SLE: return sx(a, aw) <= sx(b, aw);
    case ITE: return a ? b : k[2];
    case CONCAT: return (a << kw[1]) | b;
    case EXTRACT: return (a >> aux) & m;
    case ZEXT: return a;
    case SEXT: return (uint64_t)sx(a, aw) & m;
    case FADD: return w == 32 ? f2b(b2f(a) + b2f(b)) : d2b(b2d(a) + b2d(b));
    case FSUB: return w == 32 ? f2b(b2f(a) - b2f(b)) : d2b(b2d(a) - b2d(b));
    case FMUL: return w == 32 ? f2b(b2f(a) * b2f(b)) : d2b(b2d(a) * b2d(b));
    case FDIV: return w == 32 ? f2b(b2f(a) / b2f(b)) : d2b(b2d(a) / b2d(b));
    case FSQRT: return w == 32 ? f2b(std::sqrt(b2f(a))) : d2b(std::sqrt(b2d(a)));
    case FFMA: return w == 32 ? f2b(std::fma(b2f(a), b2f(b), b2f(k[2]))) : d2b(std::fma(b2d(a), b2d(b), b2d(k[2])));
    case FRND: return w == 32 ? f2b(frnd(b2f(a), aux)) : d2b(frnd(b2d(a), aux));
    case FOEQ: return aw == 32 ? b2f(a) == b2f(b) : b2d(a) == b2d(b);
    case FOLT: return aw == 32 ? b2f(a) < b2f(b) : b2d(a) < b2d(b);
    case FOLE: return aw == 32 ? b2f(a) <= b2f(b) : b2d(a) <= b2d(b);
    case FUNO: return aw == 32 ? std::isnan(b2f(a)) : std::isnan(b2d(a));
    case FTOSI: return ftosi(aw == 32 ? (double)b2f(a) : b2d(a), w);
    case FTOUI: return ftoui(aw == 32 ? (double)b2f(a) : b2d(a), w);
    case SITOF: return w == 32 ? f2b((float)sx(a, aw)) : d2b((double)sx(a, aw));
    case UITOF: return w == 32 ? f2b((float)a) : d2b((double)a);
    case FCVT: if (aw == w) return a; return w == 32 ? f2b((float)b2d(a)) : d2b((double)b2f(a));
    default: abort();
  }
}
// a computed NaN is represented by the canonical quiet NaN (same convention as the solver encoding)
inline uint64_t evalOp(Op op, unsigned w, uint32_t aux, const uint64_t* k, const unsigned* kw) {
  uint64_t r = evalOp0(op, w, aux, k, kw);
  if (op >= FADD && (op <= FRND || op == FCVT)) {
    if (w == 32 && (r & 0x7fffffffu) > 0x7f800000u) return 0x7fc00000u;
    if (w == 64 && (r & 0x7fffffffffffffffull) > 0x7ff0000000000000ull) return 0x7ff8000000000000ull;
  }
  return r;
}
inline APInt evalBig(Op op, unsigned w, uint32_t aux, const APInt* k) {
  auto B = [](bool x) { return APInt(1, x ? 1 : 0); };
  const APInt& a = k[0];
  const APInt& b = k[1];
  switch (op) {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case UREM: return b.isZero() ? a : a.urem(b);
    case SDIV: return b.isZero() ? APInt::getAllOnes(w) : a.sdiv(b);
    case SREM: return b.isZero() ? a : a.srem(b);
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b);
    case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case ASHR: return b.uge(w) ? a.ashr(w - 1) : a.ashr(b);
    case EQ: return B(a == b);
    case ULT: return B(a.ult(b));
    case ULE: return B(a.ule(b));
    case SLT: return B(a.slt(b));
    case SLE: return B(a.sle(b));
    case ITE: return a.isZero() ? k[2] : b;
    case CONCAT: return a.zext(w).shl(b.getBitWidth()) | b.zext(w);
    case EXTRACT: return a.extractBits(w, aux);
    case ZEXT: return a.zext(w);
    case SEXT: return a.sext(w);
    default: {
      uint64_t kk[3]; unsigned kw[3];
      for (int i = 0; i < 3; i++) { kw[i] = k[i].getBitWidth(); kk[i] = kw[i] <= 64 ? k[i].getZExtValue() : 0; }
      return APInt(w, evalOp(op, w, aux, kk, kw));
    }
  }
}

// ---- model and evaluation ------------------------------------------------------------------------------
struct Model {
  std::vector<uint64_t> v;  // by symbol id; missing = 0
  std::map<uint32_t, uint64_t> ov;  // values chosen for abstracted operations (absent: the exact value)
  uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
  void set(uint32_t s, uint64_t x) { if (s >= v.size()) v.resize(s + 1, 0); v[s] = x; }
};
APInt evalAP(const Ex& e, const Model& m);
uint64_t evalRec(const Ex& e, const Model& m);
inline uint64_t eval(const Ex& e, const Model& m) {
  if (e.isC()) return e.v;
  G.epoch++;
  G.bigEval.clear();
  return evalRec(e, m);
}

// ---- builders ------------------------------------------------------------------------------------------
Ex mk(Op op, unsigned w, uint32_t aux, Ex a, Ex b = {}, Ex c = {});
Ex mkSym(const std::string& name, unsigned w);
Ex extract(const Ex& a, unsigned lo, unsigned w);
Ex concat(const Ex& hi, const Ex& lo);
Ex zext(const Ex& a, unsigned w);
Ex sext(const Ex& a, unsigned w);
inline Ex trunc(const Ex& a, unsigned w) { return a.w() == w ? a : extract(a, 0, w); }
Ex ite(const Ex& c, const Ex& a, const Ex& b);
Ex lnot(const Ex& c);
inline Ex land(const Ex& a, const Ex& b) { return mk(AND, 1, 0, a, b); }
inline Ex lor(const Ex& a, const Ex& b) { return mk(OR, 1, 0, a, b); }
inline Ex eq(const Ex& a, const Ex& b) { return mk(EQ, 1, 0, a, b); }
inline Ex ult(const Ex& a, const Ex& b) { return mk(ULT, 1, 0, a, b); }
inline Ex ule(const Ex& a, const Ex& b) { return mk(ULE, 1, 0, a, b); }
inline Ex add(const Ex& a, const Ex& b) { return mk(ADD, a.w(), 0, a, b); }
inline Ex sub(const Ex& a, const Ex& b) { return mk(SUB, a.w(), 0, a, b); }
inline const SymSet* symsOf(const Ex& e) { return e.isC() ? &G.empty : e.n()->syms; }
std::string str(const Ex& e, int depth = 6);
}  // namespace cse
