#include <algorithm>
#include <iterator>
#include "expr.h"
namespace cse {
Ctx G;

static void computeKnown(Node* n) {
  n->kz = n->ko = 0;
  if (n->w > 64) return;
  uint64_t m = maskw(n->w), az = 0, ao = 0, bz = 0, bo = 0;
  if (n->nk >= 1 && n->k[0].w() <= 64) kbits(n->k[0], az, ao);
  if (n->nk >= 2 && n->k[1].w() <= 64) kbits(n->k[1], bz, bo);
  switch (n->op) {
    case AND: n->kz = az | bz; n->ko = ao & bo; break;
    case OR: n->kz = az & bz; n->ko = ao | bo; break;
    case XOR: n->kz = (az & bz) | (ao & bo); n->ko = (az & bo) | (ao & bz); break;
    case ZEXT: n->kz = az | (m & ~maskw(n->k[0].w())); n->ko = ao; break;
    case SEXT: {
      unsigned kw = n->k[0].w(); n->kz = az; n->ko = ao; uint64_t s = 1ull << (kw - 1), hi = m & ~maskw(kw);
      if (az & s) n->kz |= hi; else if (ao & s) n->ko |= hi; break; }
    case EXTRACT: if (n->k[0].w() <= 64) { n->kz = (az >> n->aux) & m; n->ko = (ao >> n->aux) & m; } break;
    case CONCAT: n->kz = (az << n->k[1].w()) | bz; n->ko = (ao << n->k[1].w()) | bo; break;
    case SHL: if (n->k[1].isC() && n->k[1].v < n->w) { unsigned s = n->k[1].v; n->kz = ((az << s) | maskw(s) * (s ? 1 : 0)) & m; if (!s) n->kz = az; n->ko = (ao << s) & m; } break;
    case LSHR: if (n->k[1].isC() && n->k[1].v < n->w) { unsigned s = n->k[1].v; n->kz = (az >> s) | (m & ~(m >> s)); n->ko = ao >> s; } break;
    case ITE: { uint64_t cz = 0, co = 0; kbits(n->k[2], cz, co); n->kz = bz & cz; n->ko = bo & co; break; }
    case ADD: {  // trailing known bits
      uint64_t known = (az | ao) & (bz | bo); int t = known == ~0ull ? 64 : __builtin_ctzll(~known);
      if (t > (int)n->w) t = n->w;
      if (t > 0) { uint64_t s = (ao + bo) & maskw(t); n->ko = s; n->kz = ~s & maskw(t); }
      // leading zeros
      auto lz = [&](uint64_t z) { uint64_t x = ~z & m; return x ? n->w - (64 - __builtin_clzll(x)) : n->w; };
      unsigned l = std::min(lz(az), lz(bz)); if (l > 1) { l--; n->kz |= m & ~maskw(n->w - l); } break; }
    case MUL: {
      auto tz = [&](uint64_t z) { uint64_t x = ~z; return x ? (unsigned)__builtin_ctzll(x) : 64u; };
      unsigned t = std::min<unsigned>(n->w, tz(az) + tz(bz)); n->kz |= maskw(t) * (t ? 1 : 0); if (t >= 64) n->kz = ~0ull;
      auto lz = [&](uint64_t z) { uint64_t x = ~z & m; return x ? n->w - (64 - __builtin_clzll(x)) : n->w; };
      unsigned bits = (n->w - lz(az)) + (n->w - lz(bz)); if (bits < n->w) n->kz |= m & ~maskw(bits); break; }
    case UREM: if (n->k[1].isC() && n->k[1].v) { uint64_t x = n->k[1].v - 1; unsigned b = x ? 64 - __builtin_clzll(x) : 0; n->kz = b >= 64 ? 0 : m & ~maskw(b); if (b == 0) n->kz = m; } break;
    case UDIV: if (n->k[1].isC() && n->k[1].v) { uint64_t mx = (~az & m) / n->k[1].v; unsigned b = mx ? 64 - __builtin_clzll(mx) : 0; n->kz = b == 0 ? m : (m & ~maskw(b)); } break;
    default: break;
  }
  n->kz &= m; n->ko &= m;
}

Ex Ctx::raw(Op op, unsigned w, uint32_t aux, Ex a, Ex b, Ex c) {
  Key key{op, (uint16_t)w, aux, {a, b, c}};
  auto it = tab.find(key);
  if (it != tab.end()) { Ex e; e.t = (uintptr_t)it->second; return e; }
  static char* pool = nullptr; static size_t left = 0;
  if (left < sizeof(Node)) { pool = (char*)malloc(sizeof(Node) * 4096); left = sizeof(Node) * 4096; }
  Node* n = new (pool) Node();
  pool += sizeof(Node); left -= sizeof(Node);
  n->op = op; n->w = w; n->aux = aux; n->id = ++nnodes;
  n->k[0] = a; n->k[1] = b; n->k[2] = c;
  n->nk = a.valid() + b.valid() + c.valid();
  n->syms = &empty;
  n->hasfp = op >= FADD;
  if (op == SYM) { SymSet s{aux}; n->syms = intern(std::move(s)); }
  else for (int i = 0; i < n->nk; i++) if (!n->k[i].isC()) { n->syms = uni(n->syms, n->k[i].n()->syms); n->hasfp |= n->k[i].n()->hasfp; }
  computeKnown(n);
  tab.emplace(key, n);
  Ex e; e.t = (uintptr_t)n; return e;
}
Ex mkSym(const std::string& name, unsigned w) {
  G.symtab.push_back({name, w});
  return G.raw(SYM, w, G.symtab.size() - 1);
}
Ex Ctx::abstract(Ex exact) {
  auto it = absOf.find(exact.n());
  if (it != absOf.end()) return it->second;
  symtab.push_back({"m" + std::to_string(absDef.size()), exact.w()});
  uint32_t id = symtab.size() - 1;
  Ex s = raw(SYM, exact.w(), id);
  s.n()->syms = uni(s.n()->syms, exact.n()->syms);
  s.n()->kz = exact.n()->kz; s.n()->ko = exact.n()->ko;
  absDef[id] = exact;
  absOf[exact.n()] = s;
  return s;
}
static inline Ex fin(Ex e) {  // replace fully-known nodes by constants
  if (!e.isC() && e.w() <= 64 && e.n()->op != SYM && (e.n()->kz | e.n()->ko) == maskw(e.w())) return C(e.n()->ko, e.w());
  return e;
}
static inline bool opIs(const Ex& e, Op o) { return !e.isC() && e.n()->op == o; }

Ex extract(const Ex& a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a.w()) return a;
  if (a.isC()) return C(lo >= 64 ? 0 : a.v >> lo, w);
  Node* n = a.n();
  if (n->op == BIGC) return mkC(G.bigs[n->aux].extractBits(w, lo));
  switch (n->op) {
    case EXTRACT: return extract(n->k[0], lo + n->aux, w);
    case CONCAT: {
      unsigned lw = n->k[1].w();
      if (lo + w <= lw) return extract(n->k[1], lo, w);
      if (lo >= lw) return extract(n->k[0], lo - lw, w);
      return concat(extract(n->k[0], 0, lo + w - lw), extract(n->k[1], lo, lw - lo));
    }
    case ZEXT: {
      unsigned kw = n->k[0].w();
      if (lo >= kw) return w <= 64 ? C(0, w) : mkC(APInt(w, 0));
      if (lo + w <= kw) return extract(n->k[0], lo, w);
      return zext(extract(n->k[0], lo, kw - lo), w);
    }
    case SEXT: {
      unsigned kw = n->k[0].w();
      if (lo + w <= kw) return extract(n->k[0], lo, w);
      if (lo == 0) return sext(n->k[0], w);
      if (lo < kw) return sext(extract(n->k[0], lo, kw - lo), w);
      if (lo >= kw) return sext(extract(n->k[0], kw - 1, 1), w);
      break;
    }
    case AND: case OR: case XOR: return mk(n->op, w, 0, extract(n->k[0], lo, w), extract(n->k[1], lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mk(n->op, w, 0, extract(n->k[0], 0, w), extract(n->k[1], 0, w)); break;
    case ITE: return ite(n->k[0], extract(n->k[1], lo, w), extract(n->k[2], lo, w));
    case SHL: if (n->k[1].isC()) { unsigned s = n->k[1].v;
        if (lo >= s) return extract(n->k[0], lo - s, w);
        if (lo + w <= s) return w <= 64 ? C(0, w) : mkC(APInt(w, 0));
        return concat(extract(n->k[0], 0, lo + w - s), s - lo <= 64 ? C(0, s - lo) : mkC(APInt(s - lo, 0))); } break;
    case LSHR: if (n->k[1].isC()) { unsigned s = n->k[1].v;
        if (lo + s + w <= n->w) return extract(n->k[0], lo + s, w);
        if (lo + s >= n->w) return w <= 64 ? C(0, w) : mkC(APInt(w, 0));
        return zext(extract(n->k[0], lo + s, n->w - lo - s), w); } break;
    default: break;
  }
  return fin(G.raw(EXTRACT, w, lo, a));
}
Ex concat(const Ex& hi, const Ex& lo) {
  unsigned w = hi.w() + lo.w();
  if (isConst(hi) && isConst(lo)) {
    if (w <= 64) return C((hi.v << lo.w()) | lo.v, w);
    return mkC(toAP(hi).zext(w).shl(lo.w()) | toAP(lo).zext(w));
  }
  if (hi.isZero()) return zext(lo, w);
  if (opIs(hi, EXTRACT) && opIs(lo, EXTRACT) && hi.n()->k[0] == lo.n()->k[0] && hi.n()->aux == lo.n()->aux + lo.w())
    return extract(hi.n()->k[0], lo.n()->aux, w);
  // hi is the extract continuing a bare value
  if (opIs(hi, EXTRACT) && !lo.isC() && hi.n()->k[0] == lo) return G.raw(CONCAT, w, 0, hi, lo);
  // sign bits in front of the value they extend
  if (!lo.isC() && lo.w() <= 64) {
    Ex top = extract(lo, lo.w() - 1, 1);
    if (hi == top && hi.w() == 1 && lo.w() > 1) return sext(lo, w);
    if (opIs(hi, SEXT) && hi.n()->k[0] == top) return sext(lo, w);
    if (opIs(lo, SEXT) && opIs(hi, SEXT) && hi.n()->k[0] == extract(lo.n()->k[0], lo.n()->k[0].w() - 1, 1)) return sext(lo.n()->k[0], w);
  }
  // (concat (extract..) (concat (extract..) x)): re-associate to merge neighbours
  if (opIs(lo, CONCAT)) {
    Ex lh = lo.n()->k[0], ll = lo.n()->k[1];
    if (isConst(hi) && isConst(lh)) return concat(concat(hi, lh), ll);
    if (opIs(hi, EXTRACT) && opIs(lh, EXTRACT) && hi.n()->k[0] == lh.n()->k[0] && hi.n()->aux == lh.n()->aux + lh.w())
      return concat(concat(hi, lh), ll);
  }
  if (opIs(hi, ZEXT)) return zext(concat(hi.n()->k[0], lo), w);
  // sign extension rebuilt from bytes:  concat(extract(sext x)) handled by extract->sext merging
  return fin(G.raw(CONCAT, w, 0, hi, lo));
}
Ex zext(const Ex& a, unsigned w) {
  if (a.w() == w) return a;
  if (isConst(a)) return w <= 64 ? C(a.v, w) : mkC(toAP(a).zext(w));
  if (opIs(a, ZEXT)) return zext(a.n()->k[0], w);
  return fin(G.raw(ZEXT, w, 0, a));
}
Ex sext(const Ex& a, unsigned w) {
  if (a.w() == w) return a;
  if (isConst(a)) return w <= 64 ? C((uint64_t)sx(a.v, a.w()), w) : mkC(toAP(a).sext(w));
  if (opIs(a, SEXT)) return sext(a.n()->k[0], w);
  if (opIs(a, ZEXT)) return zext(a.n()->k[0], w);
  if (a.w() <= 64 && (a.n()->kz >> (a.w() - 1)) & 1) return zext(a, w);
  return fin(G.raw(SEXT, w, 0, a));
}
Ex lnot(const Ex& c) { return mk(XOR, 1, 0, c, C(1, 1)); }
Ex ite(const Ex& c, const Ex& a, const Ex& b) {
  if (c.isC()) return c.v ? a : b;
  if (a == b) return a;
  unsigned w = a.w();
  if (w == 1) {
    if (a.isTrue() && b.isFalse()) return c;
    if (a.isFalse() && b.isTrue()) return lnot(c);
    if (a.isTrue()) return lor(c, b);
    if (a.isFalse()) return land(lnot(c), b);
    if (b.isTrue()) return lor(lnot(c), a);
    if (b.isFalse()) return land(c, a);
  }
  if (opIs(c, XOR) && c.n()->k[1].isTrue()) return ite(c.n()->k[0], b, a);
  if (opIs(a, ITE) && a.n()->k[0] == c) return ite(c, a.n()->k[1], b);
  if (opIs(b, ITE) && b.n()->k[0] == c) return ite(c, a, b.n()->k[2]);
  return fin(G.raw(ITE, w, 0, c, a, b));
}

static inline bool before(const Ex& a, const Ex& b) { return (a.isC() ? 0 : a.n()->id) < (b.isC() ? 0 : b.n()->id); }
Ex mk(Op op, unsigned w, uint32_t aux, Ex a, Ex b, Ex c) {
  switch (op) {
    case ITE: return ite(a, b, c);
    case CONCAT: return concat(a, b);
    case EXTRACT: return extract(a, aux, w);
    case ZEXT: return zext(a, w);
    case SEXT: return sext(a, w);
    default: break;
  }
  bool ac = isConst(a), bc = !b.valid() || isConst(b), cc = !c.valid() || isConst(c);
  if (ac && bc && cc) {
    bool big = w > 64 || a.w() > 64;
    if (!big) {
      uint64_t k[3] = {a.v, b.v, c.v}; unsigned kw[3] = {a.w(), b.valid() ? b.w() : 0, c.valid() ? c.w() : 0};
      return C(evalOp(op, w, aux, k, kw), w);
    }
    APInt k[3] = {toAP(a), b.valid() ? toAP(b) : APInt(1, 0), c.valid() ? toAP(c) : APInt(1, 0)};
    return mkC(evalBig(op, w, aux, k));
  }
  uint64_t m = maskw(w);
  switch (op) {
    case ADD:
      if (a.isC()) std::swap(a, b);
      if (b.isZero()) return a;
      if (b.isC() && opIs(a, ADD) && a.n()->k[1].isC()) return mk(ADD, w, 0, a.n()->k[0], C(a.n()->k[1].v + b.v, w));
      if (opIs(a, SUB) && a.n()->k[1] == b) return a.n()->k[0];
      if (opIs(b, SUB) && b.n()->k[1] == a) return b.n()->k[0];
      if (w <= 64) { uint64_t az, ao, bz, bo; kbits(a, az, ao); kbits(b, bz, bo); if (((az | bz) & m) == m) return mk(OR, w, 0, a, b); }
      if (!b.isC() && opIs(a, ADD) && a.n()->k[1].isC()) return mk(ADD, w, 0, mk(ADD, w, 0, a.n()->k[0], b), a.n()->k[1]);
      if (opIs(b, ADD) && b.n()->k[1].isC() && !a.isC()) return mk(ADD, w, 0, mk(ADD, w, 0, a, b.n()->k[0]), b.n()->k[1]);
      if (!b.isC() && before(b, a)) std::swap(a, b);
      break;
    case SUB:
      if (b.isZero()) return a;
      if (a == b) return w <= 64 ? C(0, w) : mkC(APInt(w, 0));
      if (b.isC()) return mk(ADD, w, 0, a, C(0 - b.v, w));
      if (opIs(a, ADD)) { if (a.n()->k[0] == b) return a.n()->k[1]; if (a.n()->k[1] == b) return a.n()->k[0]; 
        if (a.n()->k[1].isC()) return mk(ADD, w, 0, mk(SUB, w, 0, a.n()->k[0], b), a.n()->k[1]); }
      if (opIs(b, ADD) && b.n()->k[1].isC()) return mk(ADD, w, 0, mk(SUB, w, 0, a, b.n()->k[0]), C(0 - b.n()->k[1].v, w));
      break;
    case MUL:
      if (a.isC()) std::swap(a, b);
      if (b.isZero()) return b;
      if (b.isC() && b.v == 1) return a;
      if (b.isC() && (b.v & (b.v - 1)) == 0) return mk(SHL, w, 0, a, C(__builtin_ctzll(b.v), w));
      if (!b.isC() && before(b, a)) std::swap(a, b);
      break;
    case UDIV: if (b.isC() && b.v && (b.v & (b.v - 1)) == 0) return mk(LSHR, w, 0, a, C(__builtin_ctzll(b.v), w)); break;
    case UREM: if (b.isC() && b.v && (b.v & (b.v - 1)) == 0) return mk(AND, w, 0, a, C(b.v - 1, w)); break;
    case AND: {
      if (a.isC()) std::swap(a, b);
      if (b.isZero()) return b;
      if (b.isC() && b.v == m && w <= 64) return a;
      if (a == b) return a;
      if (w == 1 && ((opIs(a, XOR) && a.n()->k[1].isTrue() && a.n()->k[0] == b) || (opIs(b, XOR) && b.n()->k[1].isTrue() && b.n()->k[0] == a))) return C(0, 1);
      if (w <= 64) {
        uint64_t az, ao, bz, bo; kbits(a, az, ao); kbits(b, bz, bo);
        if (((az | bo) & m) == m) return a;  // every bit either zero in a or kept by b
        if (((bz | ao) & m) == m) return b;
      }
      if (b.isC()) {
        if (opIs(a, AND) && a.n()->k[1].isC()) return mk(AND, w, 0, a.n()->k[0], C(a.n()->k[1].v & b.v, w));
        // low mask -> zext(extract)
        if ((b.v & (b.v + 1)) == 0) { unsigned kb = 64 - __builtin_clzll(b.v); return zext(extract(a, 0, kb), w); }
        // contiguous mask -> shift of extract
        { unsigned t = __builtin_ctzll(b.v); uint64_t s = b.v >> t; if ((s & (s + 1)) == 0) { unsigned kb = 64 - __builtin_clzll(s); Ex x = zext(extract(a, t, kb), w - t); return concat(x, C(0, t)); } }
        if (opIs(a, OR)) return mk(OR, w, 0, mk(AND, w, 0, a.n()->k[0], b), mk(AND, w, 0, a.n()->k[1], b));
        if (opIs(a, ZEXT) && a.n()->k[0].w() <= 64) return zext(mk(AND, a.n()->k[0].w(), 0, a.n()->k[0], C(b.v, a.n()->k[0].w())), w);
      }
      if (!b.isC() && before(b, a)) std::swap(a, b);
      break; }
    case OR: {
      if (a.isC()) std::swap(a, b);
      if (b.isZero()) return a;
      if (b.isC() && b.v == m && w <= 64) return b;
      if (a == b) return a;
      if (w == 1 && ((opIs(a, XOR) && a.n()->k[1].isTrue() && a.n()->k[0] == b) || (opIs(b, XOR) && b.n()->k[1].isTrue() && b.n()->k[0] == a))) return C(1, 1);
      if (w <= 64) {
        uint64_t az, ao, bz, bo; kbits(a, az, ao); kbits(b, bz, bo);
        if (((ao | bz) & m) == m) return a;
        if (((bo | az) & m) == m) return b;
        // disjoint halves -> concat
        if (((az | bz) & m) == m && w > 1) {
          uint64_t am = ~az & m, bm = ~bz & m;
          if (am && bm) {
            Ex hi = a, lo = b; uint64_t lm = bm, hm = am;
            if (am < bm) { hi = b; lo = a; lm = am; hm = bm; }
            unsigned cut = __builtin_ctzll(hm);
            if (cut > 0 && (lm >> cut) == 0) return concat(extract(hi, cut, w - cut), extract(lo, 0, cut));
          }
        }
      }
      if (!b.isC() && before(b, a)) std::swap(a, b);
      break; }
    case XOR:
      if (a.isC()) std::swap(a, b);
      if (b.isZero()) return a;
      if (a == b) return w <= 64 ? C(0, w) : mkC(APInt(w, 0));
      if (opIs(a, XOR)) { if (a.n()->k[0] == b) return a.n()->k[1]; if (a.n()->k[1] == b) return a.n()->k[0];
        if (b.isC() && a.n()->k[1].isC()) return mk(XOR, w, 0, a.n()->k[0], C(a.n()->k[1].v ^ b.v, w)); }
      if (opIs(b, XOR)) { if (b.n()->k[0] == a) return b.n()->k[1]; if (b.n()->k[1] == a) return b.n()->k[0]; }
      if (w == 1 && b.isTrue()) {
        if (opIs(a, ULT)) return mk(ULE, 1, 0, a.n()->k[1], a.n()->k[0]);
        if (opIs(a, ULE)) return mk(ULT, 1, 0, a.n()->k[1], a.n()->k[0]);
        if (opIs(a, SLT)) return mk(SLE, 1, 0, a.n()->k[1], a.n()->k[0]);
        if (opIs(a, SLE)) return mk(SLT, 1, 0, a.n()->k[1], a.n()->k[0]);
      }
      if (!b.isC() && before(b, a)) std::swap(a, b);
      break;
    case SHL:
      if (b.isZero()) return a;
      if (a.isZero()) return a;
      if (b.isC()) { if (b.v >= w) return w <= 64 ? C(0, w) : mkC(APInt(w, 0));
        return concat(extract(a, 0, w - b.v), b.v <= 64 ? C(0, b.v) : mkC(APInt(b.v, 0))); }
      break;
    case LSHR:
      if (b.isZero()) return a;
      if (a.isZero()) return a;
      if (b.isC()) { if (b.v >= w) return w <= 64 ? C(0, w) : mkC(APInt(w, 0)); return zext(extract(a, b.v, w - b.v), w); }
      break;
    case ASHR:
      if (b.isZero()) return a;
      if (b.isC()) { unsigned s = b.v >= w ? w - 1 : b.v; return sext(extract(a, s, w - s), w); }
      break;
    case EQ: {
      if (a == b) return C(1, 1);
      if (isConst(a)) std::swap(a, b);
      unsigned aw = a.w();
      if (aw == 1) { if (b.isTrue()) return a; if (b.isFalse()) return lnot(a); }
      if (aw <= 64) { uint64_t az, ao, bz, bo; kbits(a, az, ao); kbits(b, bz, bo); if ((az & bo) || (ao & bz)) return C(0, 1); }
      if (b.isC()) {
        if (opIs(a, ZEXT)) { unsigned kw = a.n()->k[0].w(); if (b.v & ~maskw(kw)) return C(0, 1); return eq(a.n()->k[0], C(b.v, kw)); }
        if (opIs(a, SEXT)) { unsigned kw = a.n()->k[0].w(); if ((uint64_t)sx(b.v & maskw(kw), kw) != (uint64_t)sx(b.v, aw)) return C(0, 1); return eq(a.n()->k[0], C(b.v, kw)); }
        if (opIs(a, ADD) && a.n()->k[1].isC()) return eq(a.n()->k[0], C(b.v - a.n()->k[1].v, aw));
        if (opIs(a, XOR) && a.n()->k[1].isC()) return eq(a.n()->k[0], C(b.v ^ a.n()->k[1].v, aw));
        if (opIs(a, CONCAT) && aw <= 64) { unsigned lw = a.n()->k[1].w(); return land(eq(a.n()->k[0], C(b.v >> lw, a.n()->k[0].w())), eq(a.n()->k[1], C(b.v, lw))); }
        if (opIs(a, ITE)) { Ex x = a.n()->k[1], y = a.n()->k[2];
          if (x.isC() && y.isC()) { if (x.v == b.v) return a.n()->k[0]; if (y.v == b.v) return lnot(a.n()->k[0]); return C(0, 1); }
          if (x.isC() || y.isC()) return ite(a.n()->k[0], eq(x, b), eq(y, b)); }
        if (opIs(a, SUB) && b.v == 0) return eq(a.n()->k[0], a.n()->k[1]);
      } else {
        if (opIs(a, ZEXT) && opIs(b, ZEXT) && a.n()->k[0].w() == b.n()->k[0].w()) return eq(a.n()->k[0], b.n()->k[0]);
        if (opIs(a, SEXT) && opIs(b, SEXT) && a.n()->k[0].w() == b.n()->k[0].w()) return eq(a.n()->k[0], b.n()->k[0]);
        if (opIs(a, ADD) && opIs(b, ADD) && a.n()->k[1] == b.n()->k[1]) return eq(a.n()->k[0], b.n()->k[0]);
        if (opIs(a, CONCAT) && opIs(b, CONCAT) && a.n()->k[1].w() == b.n()->k[1].w()) return land(eq(a.n()->k[0], b.n()->k[0]), eq(a.n()->k[1], b.n()->k[1]));
        if (before(b, a)) std::swap(a, b);
      }
      break; }
    case ULT: {
      if (a == b) return C(0, 1);
      if (b.isZero()) return C(0, 1);
      if (a.w() <= 64) {
        uint64_t az, ao, bz, bo, mm = maskw(a.w()); kbits(a, az, ao); kbits(b, bz, bo);
        if ((~az & mm) < bo) return C(1, 1);      // max(a) < min(b)
        if (ao >= (~bz & mm)) return C(0, 1);     // min(a) >= max(b)
        if (b.isC() && b.v == 1) return eq(a, C(0, a.w()));
        if (b.isC() && opIs(a, ZEXT)) { unsigned kw = a.n()->k[0].w(); if (b.v > maskw(kw)) return C(1, 1); return ult(a.n()->k[0], C(b.v, kw)); }
        if (a.isC() && opIs(b, ZEXT)) { unsigned kw = b.n()->k[0].w(); if (a.v >= maskw(kw)) return C(0, 1); return ult(C(a.v, kw), b.n()->k[0]); }
        if (a.isZero()) return lnot(eq(b, C(0, b.w())));
        // power-of-two bound -> high bits zero
        if (b.isC() && (b.v & (b.v - 1)) == 0) { unsigned s = __builtin_ctzll(b.v); return eq(extract(a, s, a.w() - s), C(0, a.w() - s)); }
      }
      if (opIs(a, ZEXT) && opIs(b, ZEXT) && a.n()->k[0].w() == b.n()->k[0].w()) return ult(a.n()->k[0], b.n()->k[0]);
      break; }
    case ULE: {
      if (a == b) return C(1, 1);
      if (a.isZero()) return C(1, 1);
      if (b.isZero()) return eq(a, b);
      if (a.w() <= 64) {
        if (a.isC() && a.v) return ult(C(a.v - 1, a.w()), b);
        if (b.isC() && b.v != maskw(b.w())) return ult(a, C(b.v + 1, b.w()));
        if (b.isC()) return C(1, 1);
        uint64_t az, ao, bz, bo, mm = maskw(a.w()); kbits(a, az, ao); kbits(b, bz, bo);
        if ((~az & mm) <= bo) return C(1, 1);
        if (ao > (~bz & mm)) return C(0, 1);
      }
      if (opIs(a, ZEXT) && opIs(b, ZEXT) && a.n()->k[0].w() == b.n()->k[0].w()) return ule(a.n()->k[0], b.n()->k[0]);
      break; }
    case SLT: case SLE: {
      if (a == b) return C(op == SLE, 1);
      unsigned aw = a.w();
      if (aw <= 64) {
        uint64_t az, ao, bz, bo, s = 1ull << (aw - 1); kbits(a, az, ao); kbits(b, bz, bo);
        if ((az & s) && (bz & s)) return mk(op == SLT ? ULT : ULE, 1, 0, a, b);
        if ((ao & s) && (bo & s)) return mk(op == SLT ? ULT : ULE, 1, 0, a, b);
        if ((ao & s) && (bz & s)) return C(1, 1);
        if ((az & s) && (bo & s)) return C(0, 1);
        if (op == SLT && b.isZero()) return eq(extract(a, aw - 1, 1), C(1, 1));
        if (op == SLE && a.isZero()) return eq(extract(b, aw - 1, 1), C(0, 1));
        if (op == SLT && a.isC() && a.v == maskw(aw)) return eq(extract(b, aw - 1, 1), C(0, 1));
      }
      if (opIs(a, SEXT) && opIs(b, SEXT) && a.n()->k[0].w() == b.n()->k[0].w()) return mk(op, 1, 0, a.n()->k[0], b.n()->k[0]);
      break; }
    case FRND: {  // rounding an integral value changes nothing
      Node* m = a.isC() ? nullptr : a.n();
      if (m && m->op == SYM) { auto it = G.absDef.find(m->aux); if (it != G.absDef.end()) m = it->second.n(); }
      if (m && (m->op == FRND || m->op == SITOF || m->op == UITOF)) return a;
      break; }
    case FUNO: case FSQRT: break;
    case FOEQ: break;
    default: break;
  }
  Ex r = fin(G.raw(op, w, aux, a, b, c));
  if (G.absMask && !r.isC() && r.n()->op == op) {
    if ((G.absMask & 1) && op == MUL && w >= 32 && w <= 64 && b.isC() && __builtin_popcountll(b.v) >= 8) return G.abstract(r);
    if ((G.absMask & 2) && op >= FADD && (op <= FRND || op >= FTOSI)) return G.abstract(r);
  }
  return r;
}

APInt evalAP(const Ex& e, const Model& m) {
  if (e.w() <= 64) return APInt(e.w(), evalRec(e, m));
  Node* n = e.n();
  if (n->op == BIGC) return G.bigs[n->aux];
  if (n->epoch == G.epoch) { auto it = G.bigEval.find(n); if (it != G.bigEval.end()) return it->second; }
  APInt k[3] = {APInt(1, 0), APInt(1, 0), APInt(1, 0)};
  for (int i = 0; i < n->nk; i++) k[i] = evalAP(n->k[i], m);
  APInt r = evalBig(n->op, n->w, n->aux, k);
  n->epoch = G.epoch;
  G.bigEval[n] = r;
  return r;
}
uint64_t evalRec(const Ex& e, const Model& m) {
  if (e.isC()) return e.v;
  Node* n = e.n();
  if (n->epoch == G.epoch) return n->val;
  uint64_t r;
  if (n->op == SYM) {
    r = m.get(n->aux);
    if (!G.absDef.empty()) {
      auto it = G.absDef.find(n->aux);
      if (it != G.absDef.end()) { auto o = m.ov.find(n->aux); r = o != m.ov.end() ? o->second : evalRec(it->second, m); }
    }
  }
  else {
    bool big = false;
    for (int i = 0; i < n->nk; i++) big |= n->k[i].w() > 64;
    if (big) {
      APInt k[3] = {APInt(1, 0), APInt(1, 0), APInt(1, 0)};
      for (int i = 0; i < n->nk; i++) k[i] = evalAP(n->k[i], m);
      r = evalBig(n->op, n->w, n->aux, k).getZExtValue();
    } else if (n->op == ITE) {
      r = evalRec(n->k[0], m) ? evalRec(n->k[1], m) : evalRec(n->k[2], m);
    } else {
      uint64_t k[3]; unsigned kw[3];
      for (int i = 0; i < n->nk; i++) { k[i] = evalRec(n->k[i], m); kw[i] = n->k[i].w(); }
      r = evalOp(n->op, n->w, n->aux, k, kw);
    }
  }
  n->epoch = G.epoch;
  n->val = r;
  return r;
}
std::string str(const Ex& e, int depth) {
  static const char* nm[] = {"sym","big","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>","a>>","==","<u","<=u","<s","<=s","ite","concat","extract","zext","sext","f+","f-","f*","f/","fsqrt","fma","frnd","f==","f<","f<=","fnan","f2s","f2u","s2f","u2f","fcvt"};
  if (!e.valid()) return "?";
  if (e.isC()) { char b[64]; snprintf(b, 64, "0x%llx:%u", (unsigned long long)e.v, e.w()); return b; }
  Node* n = e.n();
  if (n->op == SYM) return G.symtab[n->aux].name;
  if (depth == 0) return "...";
  std::string s = std::string("(") + nm[n->op];
  if (n->op == EXTRACT) s += "[" + std::to_string(n->aux) + "+" + std::to_string(n->w) + "]";
  for (int i = 0; i < n->nk; i++) s += " " + str(n->k[i], depth - 1);
  return s + ")";
}
}  // namespace cse
