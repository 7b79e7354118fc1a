#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <functional>
#include <unordered_set>
#include "llvm/ADT/SmallString.h"
#include <z3.h>

namespace cse {
SolverStats SS;
unsigned gQueryTimeoutMs = 60000;
bool gRelax = true;
static Z3_context ctx;

PCNode::~PCNode() {  // iterative release of long chains
  auto p = std::move(prev);
  while (p && p.use_count() == 1) { auto q = std::move(p->prev); p = std::move(q); }
}
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);  // reference counts handled by the context (asts are never released)
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
}
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bv(w)); }
static Z3_ast bit(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }
static Z3_ast tr(const Ex& e);
static std::unordered_map<Node*, Z3_ast> boolMemo;
static std::unordered_map<uint64_t, Z3_ast> constFp;
static Z3_ast trBool(const Ex& e);
// Relaxed translation: floating-point values become reals with rounding-error bounds (a sound over-approximation:
// unsatisfiable relaxed constraints are unsatisfiable), integers stay bit-vectors.
static bool RX = false;
static std::unordered_map<Node*, Z3_ast> rxBv, rxBool;
static Z3_ast rxCmp(Node* n);
static Z3_ast rxOpaque(Node* n);
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
static Z3_ast rm(unsigned m) {
  switch (m) { case RNE: return Z3_mk_fpa_rne(ctx); case RNA: return Z3_mk_fpa_rna(ctx); case RTZ: return Z3_mk_fpa_rtz(ctx); case RTP: return Z3_mk_fpa_rtp(ctx); default: return Z3_mk_fpa_rtn(ctx); }
}
static Z3_ast trF(const Ex& e) {  // the value as an FP term
  if (e.isC()) return Z3_mk_fpa_to_fp_bv(ctx, num(e.v, e.w()), fps(e.w()));
  Node* n = e.n();
  if (n->z3f) return (Z3_ast)n->z3f;
  Z3_ast r;
  switch (n->op) {
    case FADD: r = Z3_mk_fpa_add(ctx, rne(), trF(n->k[0]), trF(n->k[1])); break;
    case FSUB: r = Z3_mk_fpa_sub(ctx, rne(), trF(n->k[0]), trF(n->k[1])); break;
    case FMUL: r = Z3_mk_fpa_mul(ctx, rne(), trF(n->k[0]), trF(n->k[1])); break;
    case FDIV: r = Z3_mk_fpa_div(ctx, rne(), trF(n->k[0]), trF(n->k[1])); break;
    case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne(), trF(n->k[0])); break;
    case FFMA: r = Z3_mk_fpa_fma(ctx, rne(), trF(n->k[0]), trF(n->k[1]), trF(n->k[2])); break;
    case FRND: r = Z3_mk_fpa_round_to_integral(ctx, rm(n->aux), trF(n->k[0])); break;
    case SITOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), tr(n->k[0]), fps(n->w)); break;
    case UITOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), tr(n->k[0]), fps(n->w)); break;
    case FCVT: r = Z3_mk_fpa_to_fp_float(ctx, rne(), trF(n->k[0]), fps(n->w)); break;
    case ITE: if (n->hasfp) { r = Z3_mk_ite(ctx, trBool(n->k[0]), trF(n->k[1]), trF(n->k[2])); break; }
      [[fallthrough]];
    default: r = Z3_mk_fpa_to_fp_bv(ctx, tr(e), fps(e.w())); break;
  }
  Z3_inc_ref(ctx, r);
  n->z3f = r;
  return r;
}
// NaN produced by x86 arithmetic has a payload derived from the operands; the bit pattern of an FP result that
// is NaN is modelled as the default quiet NaN.  Properties only ever look at "is NaN" for computed values.
static Z3_ast toBits(const Ex& e) {
  Z3_ast f = trF(e);
  return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), num(e.w() == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull, e.w()), Z3_mk_fpa_to_ieee_bv(ctx, f));
}
static Z3_ast trBool(const Ex& e) {
  if (e.isC()) return e.v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  Node* n = e.n();
  auto& memo = RX ? rxBool : boolMemo;
  auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  Z3_ast r;
  if (RX && n->op >= FOEQ && n->op <= FUNO) { r = rxCmp(n); Z3_inc_ref(ctx, r); memo[n] = r; return r; }
  auto two = [&](Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; (void)x; };
  (void)two;
  switch (n->op) {
    case EQ: r = n->k[0].w() == 1 ? Z3_mk_eq(ctx, trBool(n->k[0]), trBool(n->k[1])) : Z3_mk_eq(ctx, tr(n->k[0]), tr(n->k[1])); break;
    case ULT: r = Z3_mk_bvult(ctx, tr(n->k[0]), tr(n->k[1])); break;
    case ULE: r = Z3_mk_bvule(ctx, tr(n->k[0]), tr(n->k[1])); break;
    case SLT: r = Z3_mk_bvslt(ctx, tr(n->k[0]), tr(n->k[1])); break;
    case SLE: r = Z3_mk_bvsle(ctx, tr(n->k[0]), tr(n->k[1])); break;
    case AND: { Z3_ast x[2] = {trBool(n->k[0]), trBool(n->k[1])}; r = Z3_mk_and(ctx, 2, x); break; }
    case OR: { Z3_ast x[2] = {trBool(n->k[0]), trBool(n->k[1])}; r = Z3_mk_or(ctx, 2, x); break; }
    case XOR: if (n->k[1].isTrue()) r = Z3_mk_not(ctx, trBool(n->k[0])); else r = Z3_mk_xor(ctx, trBool(n->k[0]), trBool(n->k[1])); break;
    case ITE: r = Z3_mk_ite(ctx, trBool(n->k[0]), trBool(n->k[1]), trBool(n->k[2])); break;
    case FOEQ: r = Z3_mk_fpa_eq(ctx, trF(n->k[0]), trF(n->k[1])); break;
    case FOLT: r = Z3_mk_fpa_lt(ctx, trF(n->k[0]), trF(n->k[1])); break;
    case FOLE: r = Z3_mk_fpa_leq(ctx, trF(n->k[0]), trF(n->k[1])); break;
    case FUNO: r = Z3_mk_fpa_is_nan(ctx, trF(n->k[0])); break;
    default: r = Z3_mk_eq(ctx, tr(e), num(1, 1)); break;
  }
  Z3_inc_ref(ctx, r);
  memo[n] = r;
  return r;
}
static Z3_ast tr(const Ex& e) {
  if (e.isC()) return num(e.v, e.w());
  Node* n = e.n();
  if (RX) { auto it = rxBv.find(n); if (it != rxBv.end()) return it->second; }
  else if (n->z3) return (Z3_ast)n->z3;
  Z3_ast r;
  if (RX && n->op >= FADD && !(n->op >= FOEQ && n->op <= FUNO)) { r = rxOpaque(n); Z3_inc_ref(ctx, r); rxBv[n] = r; return r; }
  auto K = [&](int i) { return tr(n->k[i]); };
  switch (n->op) {
    case SYM: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, n->aux), bv(n->w)); break;
    case BIGC: { llvm::SmallString<64> s; G.bigs[n->aux].toString(s, 10, false); r = Z3_mk_numeral(ctx, std::string(s.str()).c_str(), bv(n->w)); break; }
    case ADD: r = Z3_mk_bvadd(ctx, K(0), K(1)); break;
    case SUB: r = Z3_mk_bvsub(ctx, K(0), K(1)); break;
    case MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break;
    case UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
    case AND: if (n->w == 1) { r = bit(trBool(e)); break; } r = Z3_mk_bvand(ctx, K(0), K(1)); break;
    case OR: if (n->w == 1) { r = bit(trBool(e)); break; } r = Z3_mk_bvor(ctx, K(0), K(1)); break;
    case XOR: if (n->w == 1) { r = bit(trBool(e)); break; } r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
    case SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
    case ITE: r = Z3_mk_ite(ctx, trBool(n->k[0]), K(1), K(2)); break;
    case CONCAT: r = Z3_mk_concat(ctx, K(0), K(1)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, n->aux + n->w - 1, n->aux, K(0)); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, n->w - n->k[0].w(), K(0)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, n->w - n->k[0].w(), K(0)); break;
    case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: case FFMA: case FRND: case SITOF: case UITOF: case FCVT: r = toBits(e); break;
    case FTOSI: {  // x86 cvtt semantics: out of range / NaN -> integer indefinite
      unsigned w = n->w < 32 ? 32 : n->w, fw = n->k[0].w();
      Z3_ast f = trF(n->k[0]);
      Z3_ast lo, hi;
      double top = w == 64 ? 9223372036854775808.0 : 2147483648.0;
      hi = Z3_mk_fpa_lt(ctx, f, Z3_mk_fpa_numeral_double(ctx, top, fps(fw)));
      if (w == 32 && fw == 64) lo = Z3_mk_fpa_gt(ctx, f, Z3_mk_fpa_numeral_double(ctx, -2147483649.0, fps(fw)));
      else lo = Z3_mk_fpa_geq(ctx, f, Z3_mk_fpa_numeral_double(ctx, -top, fps(fw)));
      Z3_ast x[2] = {lo, hi};
      r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, x), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), f, w), num(1ull << (w - 1), w));
      if (n->w < 32) r = Z3_mk_extract(ctx, n->w - 1, 0, r);
      break;
    }
    case FTOUI: {
      unsigned fw = n->k[0].w();
      Z3_ast f = trF(n->k[0]);
      if (n->w == 64) {
        Z3_ast x[2] = {Z3_mk_fpa_gt(ctx, f, Z3_mk_fpa_numeral_double(ctx, -1.0, fps(fw))), Z3_mk_fpa_lt(ctx, f, Z3_mk_fpa_numeral_double(ctx, 18446744073709551616.0, fps(fw)))};
        r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, x), Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), f, 64), num(1ull << 63, 64));
      } else if (n->w == 32) {
        r = tr(extract(mk(FTOSI, 64, 0, n->k[0]), 0, 32));
      } else r = tr(extract(mk(FTOSI, 32, 0, n->k[0]), 0, n->w));
      break;
    }
    default: r = bit(trBool(e)); break;
  }
  Z3_inc_ref(ctx, r);
  if (RX) rxBv[n] = r; else n->z3 = r;
  return r;
}

// ---- relaxed floating point ------------------------------------------------------------------------------
struct RV { Z3_ast val, fin, nan, pinf, ninf; };
static std::unordered_map<Node*, RV> rxVal;
static std::vector<Z3_ast> rxSide;
struct RLink { Z3_ast bv; unsigned w; Z3_ast real; Z3_ast ok; };
static std::vector<RLink> rxInts;            // float-to-integer results
static std::vector<Node*> rxIntTodo;
struct RSi { Z3_ast bv; unsigned w; Z3_ast real; };
static std::vector<RSi> rxSi;
static std::vector<std::pair<Ex, Z3_ast>> rxLeaves;
static unsigned rxCnt = 0;
static std::unordered_map<uint32_t, Node*> rxFti;
static Z3_ast rFresh(const char* p) { return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (std::string(p) + std::to_string(rxCnt++)).c_str()), Z3_mk_real_sort(ctx)); }
static Z3_ast bFresh(const char* p) { return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (std::string(p) + std::to_string(rxCnt++)).c_str()), Z3_mk_bool_sort(ctx)); }
static Z3_ast T() { return Z3_mk_true(ctx); }
static Z3_ast F() { return Z3_mk_false(ctx); }
static Z3_ast N(Z3_ast a) { return Z3_mk_not(ctx, a); }
static Z3_ast A2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(ctx, 2, x); }
static Z3_ast O2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(ctx, 2, x); }
static Z3_ast IMP(Z3_ast a, Z3_ast b) { return Z3_mk_implies(ctx, a, b); }
static Z3_ast rAdd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(ctx, 2, x); }
static Z3_ast rSub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(ctx, 2, x); }
static Z3_ast rMul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(ctx, 2, x); }
static Z3_ast LE(Z3_ast a, Z3_ast b) { return Z3_mk_le(ctx, a, b); }
static Z3_ast LT(Z3_ast a, Z3_ast b) { return Z3_mk_lt(ctx, a, b); }
static Z3_ast rNum(double d) {  // exact
  if (d == 0) return Z3_mk_real(ctx, 0, 1);
  int ex;
  double m = std::frexp(d, &ex);
  long long mi = (long long)std::ldexp(m, 53);
  ex -= 53;
  while (!(mi & 1)) { mi >>= 1; ex++; }
  APInt p(1200, 1);
  std::string num, den = "1";
  llvm::SmallString<64> sb;
  APInt a(1200, (uint64_t)(mi < 0 ? -mi : mi));
  if (ex > 0) a <<= ex;
  a.toString(sb, 10, false);
  num = std::string(sb.str());
  if (ex < 0) { p <<= -ex; llvm::SmallString<64> sd; p.toString(sd, 10, false); den = std::string(sd.str()); }
  return Z3_mk_numeral(ctx, ((mi < 0 ? "-" : "") + num + "/" + den).c_str(), Z3_mk_real_sort(ctx));
}
static Z3_ast rAbs(Z3_ast a) { return Z3_mk_ite(ctx, LT(a, rNum(0)), Z3_mk_unary_minus(ctx, a), a); }
static RV rx(const Ex& e);
// result of rounding the exact real `ex` (of finite operands `okArgs`) to width w
static RV rRound(Z3_ast exact, Z3_ast okArgs, Z3_ast anyNan, unsigned w) {
  Z3_ast ex = rFresh("e!");
  rxSide.push_back(Z3_mk_eq(ctx, ex, exact));
  RV r{rFresh("r!"), bFresh("f!"), bFresh("n!"), bFresh("p!"), bFresh("m!")};
  double big = w == 32 ? 0x1p127 : 0x1p1023;
  rxSide.push_back(IMP(A2(okArgs, A2(LE(ex, rNum(big)), LE(rNum(-big), ex))), r.fin));
  rxSide.push_back(IMP(r.fin, okArgs));
  rxSide.push_back(IMP(okArgs, N(r.nan)));
  rxSide.push_back(IMP(anyNan, r.nan));
  Z3_ast err = rAdd(rMul(rAbs(ex), rNum(w == 32 ? 0x1p-24 : 0x1p-53)), w == 32 ? rNum(0x1p-149) : rNum(0x1p-1074));
  rxSide.push_back(IMP(r.fin, A2(LE(rSub(ex, err), r.val), LE(r.val, rAdd(ex, err)))));
  rxSide.push_back(IMP(A2(r.fin, LE(rNum(0), ex)), LE(rNum(0), r.val)));
  rxSide.push_back(IMP(A2(r.fin, LE(ex, rNum(0))), LE(r.val, rNum(0))));
  return r;
}
static void rFlags(const RV& r) {
  rxSide.push_back(N(A2(r.fin, r.nan)));
  rxSide.push_back(Z3_mk_eq(ctx, A2(N(r.fin), N(r.nan)), Z3_mk_xor(ctx, r.pinf, r.ninf)));
  rxSide.push_back(N(A2(r.pinf, r.ninf)));
  rxSide.push_back(IMP(O2(r.pinf, r.ninf), A2(N(r.fin), N(r.nan))));
}
static double rConst(const Ex& e) { if (e.w() == 32) { float f; uint32_t b = e.v; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &e.v, 8); return d; }
static bool concatOfSyms(const Ex& e) { return !e.isC() && (e.n()->op == SYM ? !G.absDef.count(e.n()->aux) : e.n()->op == CONCAT && concatOfSyms(e.n()->k[0]) && concatOfSyms(e.n()->k[1])); }
static RV rxOp(Node* n, unsigned w) {
  auto two = [&](auto f) { RV a = rx(n->k[0]), b = rx(n->k[1]); RV r = rRound(f(a.val, b.val), A2(a.fin, b.fin), O2(a.nan, b.nan), w); rFlags(r); return r; };
  switch (n->op) {
    case FADD: return two(rAdd);
    case FSUB: return two(rSub);
    case FMUL: return two(rMul);
    case FDIV: if (n->k[1].isC() && std::isfinite(rConst(n->k[1])) && rConst(n->k[1]) != 0) return two([](Z3_ast a, Z3_ast b) { return Z3_mk_div(ctx, a, b); }); break;
    case FCVT: {
      RV a = rx(n->k[0]);
      if (w == 64) return a;
      RV r = rRound(a.val, a.fin, a.nan, 32); rFlags(r); return r;
    }
    case FRND: {
      RV a = rx(n->k[0]);
      RV r = a;
      r.val = rFresh("i!");
      Z3_ast d = rSub(r.val, a.val);
      switch (n->aux) {
        case RNE: case RNA: rxSide.push_back(IMP(a.fin, A2(LE(d, rNum(0.5)), LE(rNum(-0.5), d)))); break;
        case RTZ: rxSide.push_back(IMP(a.fin, A2(A2(LT(d, rNum(1)), LT(rNum(-1), d)), LE(rAbs(r.val), rAbs(a.val))))); break;
        case RTP: rxSide.push_back(IMP(a.fin, A2(LE(rNum(0), d), LT(d, rNum(1))))); break;
        default: rxSide.push_back(IMP(a.fin, A2(LE(d, rNum(0)), LT(rNum(-1), d)))); break;
      }
      for (double t : {0.0, 1.0, -1.0}) {  // monotone at integers
        rxSide.push_back(IMP(A2(a.fin, LE(rNum(t), a.val)), LE(rNum(t), r.val)));
        rxSide.push_back(IMP(A2(a.fin, LE(a.val, rNum(t))), LE(r.val, rNum(t))));
      }
      return r;
    }
    case SITOF: case UITOF: {
      Z3_ast si = rFresh("s!");
      unsigned iw = n->k[0].w();
      Z3_ast b = tr(n->k[0]);
      if (n->k[0].isC()) { double d = n->op == SITOF ? (double)(int64_t)((int64_t)(n->k[0].v << (64 - iw)) >> (64 - iw)) : (double)n->k[0].v; if (std::fabs(d) < 0x1p53) rxSide.push_back(Z3_mk_eq(ctx, si, rNum(d))); }
      else if (n->op == SITOF) rxSi.push_back({b, iw, si});
      double top = std::ldexp(1.0, n->op == SITOF ? iw - 1 : iw);
      rxSide.push_back(A2(LE(si, rNum(top)), LE(rNum(n->op == SITOF ? -top : 0.0), si)));
      RV r = rRound(si, T(), F(), w); rFlags(r); return r;
    }
    case FSQRT: {
      RV a = rx(n->k[0]);
      RV r{rFresh("q!"), bFresh("f!"), bFresh("n!"), bFresh("p!"), bFresh("m!")};
      rFlags(r);
      rxSide.push_back(IMP(a.nan, r.nan));
      rxSide.push_back(IMP(r.fin, LE(rNum(0), r.val)));
      return r;
    }
    default: break;
  }
  RV r{rFresh("u!"), bFresh("f!"), bFresh("n!"), bFresh("p!"), bFresh("m!")};
  rFlags(r);
  return r;
}
static RV rxMake(const Ex& e) {
  unsigned w = e.w();
  if (e.isC()) {
    double d = rConst(e);
    bool f = std::isfinite(d), nn = std::isnan(d);
    auto B = [](bool b) { return b ? T() : F(); };
    return {rNum(f ? d : 0), B(f), B(nn), B(!f && !nn && d > 0), B(!f && !nn && d < 0)};
  }
  Node* n = e.n();
  if (n->op == SYM && G.absDef.count(n->aux)) return rx(G.absDef[n->aux]);
  if (n->op >= FADD && !(n->op >= FOEQ && n->op <= FUNO) && n->op != FTOSI && n->op != FTOUI) return rxOp(n, w);
  const uint64_t sign = 1ull << (w - 1);
  if (n->op == ITE) {
    Z3_ast c = trBool(n->k[0]);
    RV a = rx(n->k[1]), b = rx(n->k[2]);
    auto I = [&](Z3_ast x, Z3_ast y) { return Z3_mk_ite(ctx, c, x, y); };
    return {I(a.val, b.val), I(a.fin, b.fin), I(a.nan, b.nan), I(a.pinf, b.pinf), I(a.ninf, b.ninf)};
  }
  if (n->op == XOR && n->k[1].isC() && n->k[1].v == sign) { RV a = rx(n->k[0]); return {Z3_mk_unary_minus(ctx, a.val), a.fin, a.nan, a.ninf, a.pinf}; }
  if (n->op == AND && n->k[1].isC() && n->k[1].v == (maskw(w) ^ sign)) { RV a = rx(n->k[0]); return {rAbs(a.val), a.fin, a.nan, O2(a.pinf, a.ninf), F()}; }
  if (n->op == CONCAT && n->k[0].isC() && n->k[0].w() == 1 && n->k[0].v == 0) {  // |x| in another form
    Node* m = n->k[1].isC() ? nullptr : n->k[1].n();
    if (m && m->op == EXTRACT && m->aux == 0 && m->k[0].w() == w) { RV a = rx(m->k[0]); return {rAbs(a.val), a.fin, a.nan, O2(a.pinf, a.ninf), F()}; }
  }
  if (n->op == ZEXT && n->k[0].w() == w - 1 && !n->k[0].isC() && n->k[0].n()->op == EXTRACT && n->k[0].n()->aux == 0 && n->k[0].n()->k[0].w() == w) { RV a = rx(n->k[0].n()->k[0]); return {rAbs(a.val), a.fin, a.nan, O2(a.pinf, a.ninf), F()}; }
  // a leaf: any bit pattern
  RV r{rFresh("x!"), bFresh("f!"), bFresh("n!"), bFresh("p!"), bFresh("m!")};
  Z3_ast b = tr(e);
  unsigned mb = w == 32 ? 23 : 52;
  Z3_ast ex = Z3_mk_extract(ctx, w - 2, mb, b), mt = Z3_mk_extract(ctx, mb - 1, 0, b), sg = Z3_mk_eq(ctx, Z3_mk_extract(ctx, w - 1, w - 1, b), num(1, 1));
  Z3_ast ones = Z3_mk_eq(ctx, ex, num(maskw(w - 1 - mb), w - 1 - mb)), mz = Z3_mk_eq(ctx, mt, num(0, mb));
  rxSide.push_back(Z3_mk_eq(ctx, r.fin, N(ones)));
  rxSide.push_back(Z3_mk_eq(ctx, r.nan, A2(ones, N(mz))));
  rxSide.push_back(Z3_mk_eq(ctx, r.pinf, A2(A2(ones, mz), N(sg))));
  rxSide.push_back(Z3_mk_eq(ctx, r.ninf, A2(A2(ones, mz), sg)));
  double mx = w == 32 ? (double)3.40282346638528859812e38f : 1.79769313486231570815e308;
  rxSide.push_back(A2(LE(r.val, rNum(mx)), LE(rNum(-mx), r.val)));
  rxSide.push_back(IMP(r.fin, IMP(sg, LE(r.val, rNum(0)))));
  rxSide.push_back(IMP(r.fin, IMP(N(sg), LE(rNum(0), r.val))));
  rxSide.push_back(IMP(r.fin, Z3_mk_eq(ctx, Z3_mk_eq(ctx, r.val, rNum(0)), A2(Z3_mk_eq(ctx, ex, num(0, w - 1 - mb)), mz))));
  if (concatOfSyms(e)) rxLeaves.push_back({e, r.val});
  return r;
}
static RV rx(const Ex& e) {
  if (e.isC()) return rxMake(e);
  auto it = rxVal.find(e.n());
  if (it != rxVal.end()) return it->second;
  RV r = rxMake(e);
  rxVal[e.n()] = r;
  return r;
}
static Z3_ast rxCmp(Node* n) {
  RV a = rx(n->k[0]);
  if (n->op == FUNO) return a.nan;
  RV b = rx(n->k[1]);
  Z3_ast ok = A2(N(a.nan), N(b.nan)), bf = A2(a.fin, b.fin), v, inf;
  if (n->op == FOEQ) { v = Z3_mk_eq(ctx, a.val, b.val); inf = O2(A2(a.pinf, b.pinf), A2(a.ninf, b.ninf)); }
  else if (n->op == FOLT) { v = LT(a.val, b.val); inf = O2(A2(a.ninf, N(b.ninf)), A2(b.pinf, N(a.pinf))); }
  else { v = LE(a.val, b.val); inf = O2(a.ninf, b.pinf); }
  return A2(ok, Z3_mk_ite(ctx, bf, v, inf));
}
static Z3_ast rxOpaque(Node* n) {
  Z3_ast r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("o!" + std::to_string(n->id)).c_str()), bv(n->w));
  return r;
}
// link the integer result of a float-to-int conversion with its operand
static void rxFtoi(Z3_ast q, Node* n) {
  if (n->op != FTOSI || n->w < 32) return;
  RV a = rx(n->k[0]);
  const Ex& k = n->k[0];
  Node* kn = k.isC() ? nullptr : k.n();
  if (kn && kn->op == SYM && G.absDef.count(kn->aux)) kn = G.absDef[kn->aux].n();
  Z3_ast qr = rFresh("z!");
  double top = std::ldexp(1.0, n->w - 1);
  Z3_ast inr = A2(a.fin, A2(LT(a.val, rNum(top)), n->w == 32 ? LT(rNum(-top - 1), a.val) : LE(rNum(-top), a.val)));
  rxSide.push_back(IMP(N(inr), Z3_mk_eq(ctx, q, num(1ull << (n->w - 1), n->w))));
  if (kn && kn->op == FRND) rxSide.push_back(IMP(inr, Z3_mk_eq(ctx, qr, a.val)));
  else { Z3_ast d = rSub(qr, a.val); rxSide.push_back(IMP(inr, A2(A2(LT(d, rNum(1)), LT(rNum(-1), d)), LE(rAbs(qr), rAbs(a.val))))); }
  for (unsigned k2 = 0; k2 < n->w - 1; k2++) {
    double p = std::ldexp(1.0, k2);
    rxSide.push_back(IMP(inr, Z3_mk_eq(ctx, LE(rNum(p), qr), Z3_mk_bvsge(ctx, q, num(1ull << k2, n->w)))));
    rxSide.push_back(IMP(inr, Z3_mk_eq(ctx, LE(qr, rNum(-p)), Z3_mk_bvsle(ctx, q, num(0 - (1ull << k2), n->w)))));
  }
  rxSide.push_back(IMP(inr, Z3_mk_eq(ctx, Z3_mk_eq(ctx, qr, rNum(0)), Z3_mk_eq(ctx, q, num(0, n->w)))));
  rxInts.push_back({q, n->w, qr, inr});
}
static double ratToDouble(Z3_ast v) {
  const char* s = Z3_get_numeral_decimal_string(ctx, v, 40);
  return s ? atof(s) : 0;
}
static Res rxRun(const std::vector<Ex>& cs, const std::vector<uint32_t>& syms, const Model& base, Model& cand, std::vector<std::pair<uint32_t, uint64_t>>& mo);

// all 256 values of one 8-bit symbol for which a unary constraint holds
static std::bitset<256>& byteset(Node* n, uint32_t sym) {
  auto it = G.bsets.find(n);
  if (it != G.bsets.end()) return *it->second;
  auto* b = new std::bitset<256>();
  Model m;
  Ex e; e.t = (uintptr_t)n;
  for (int v = 0; v < 256; v++) { m.set(sym, v); if (eval(e, m)) b->set(v); }
  G.bsets[n] = b;
  return *b;
}
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
}
static Res runZ3(const std::vector<Ex>& cs, bool fp, const std::vector<uint32_t>& syms, std::vector<std::pair<uint32_t, uint64_t>>& mo) {
  init();
  auto t0 = std::chrono::steady_clock::now();
  Res res = UNKNOWN;
  {
    Z3_solver s;
    if (fp) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
    else {
      static Z3_tactic chain = nullptr;
      if (!chain) for (auto* n : {"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "aig", "sat"}) {
        Z3_tactic x = Z3_mk_tactic(ctx, n);
        Z3_tactic_inc_ref(ctx, x);
        chain = chain ? Z3_tactic_and_then(ctx, chain, x) : x;
        Z3_tactic_inc_ref(ctx, chain);
      }
      s = Z3_mk_solver_from_tactic(ctx, chain);
    }
    Z3_solver_inc_ref(ctx, s);
    setTimeout(s, gQueryTimeoutMs);
    for (auto& c : cs) Z3_solver_assert(ctx, s, trBool(c));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE) res = UNSAT;
    else if (r == Z3_L_TRUE) {
      res = SAT;
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (auto sy : syms) {
        Z3_ast v;
        Ex se = G.raw(SYM, G.symtab[sy].w, sy);
        uint64_t x = 0;
        if (Z3_model_eval(ctx, m, tr(se), true, &v)) Z3_get_numeral_uint64(ctx, v, &x);
        mo.push_back({sy, x});
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_dec_ref(ctx, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SS.queries++;
  SS.seconds += dt;
  SS.maxSeconds = std::max(SS.maxSeconds, dt);
  if (getenv("CSE_SLOW") && dt > atof(getenv("CSE_SLOW"))) {
    fprintf(stderr, "slow query %.2fs res=%d fp=%d n=%zu syms=%zu\n", dt, res, fp, cs.size(), syms.size());
    if (getenv("CSE_SLOW_DUMP")) for (auto& c : cs) fprintf(stderr, "   %s\n", str(c, 14).c_str());
  }
  if (res == SAT) SS.sat++; else if (res == UNSAT) SS.unsat++; else SS.unknown++;
  return res;
}

static Res rxRun(const std::vector<Ex>& cs, const std::vector<uint32_t>& syms, const Model& base, Model& cand, std::vector<std::pair<uint32_t, uint64_t>>& mo) {
  init();
  auto t0 = std::chrono::steady_clock::now();
  RX = true;
  rxBv.clear(); rxBool.clear(); rxVal.clear(); rxSide.clear(); rxInts.clear(); rxSi.clear(); rxLeaves.clear();
  std::vector<Z3_ast> as;
  for (auto& c : cs) as.push_back(trBool(c));
  for (auto s : syms) { auto it = G.absDef.find(s); if (it != G.absDef.end()) rxFtoi(tr(G.raw(SYM, G.symtab[s].w, s)), it->second.n()); }
  auto sx = [&](Z3_ast b, unsigned w) { return w < 64 ? Z3_mk_sign_ext(ctx, 64 - w, b) : b; };
  for (size_t i = 0; i < rxSi.size(); i++) for (auto& q : rxInts) rxSide.push_back(IMP(A2(q.ok, Z3_mk_eq(ctx, sx(rxSi[i].bv, rxSi[i].w), sx(q.bv, q.w))), Z3_mk_eq(ctx, rxSi[i].real, q.real)));
  Z3_solver s = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  setTimeout(s, std::min(gQueryTimeoutMs, 10000u));
  for (auto a : rxSide) Z3_solver_assert(ctx, s, a);
  for (auto a : as) Z3_solver_assert(ctx, s, a);
  Z3_lbool lr = Z3_solver_check(ctx, s);
  Res r = lr == Z3_L_FALSE ? UNSAT : lr == Z3_L_TRUE ? SAT : UNKNOWN;
  if (r == UNKNOWN && getenv("CSE_RXDEBUG")) { fprintf(stderr, "relaxed UNKNOWN %s\n", Z3_solver_get_reason_unknown(ctx, s)); if (getenv("CSE_RXDUMP")) fprintf(stderr, "%s\n", Z3_solver_to_string(ctx, s)); }
  if (r == SAT) {
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    if (getenv("CSE_RXDEBUG")) {
      auto show = [&](const char* n, Z3_ast a) { Z3_ast v; if (Z3_model_eval(ctx, m, a, true, &v)) fprintf(stderr, "  %s = %s\n", n, Z3_ast_to_string(ctx, v)); };
      fprintf(stderr, "relaxed SAT\n");
      for (auto& c : cs) fprintf(stderr, "   %s\n", str(c, 14).substr(0, 300).c_str());
      for (auto& q : rxInts) { show("q", q.bv); show("q.real", q.real); show("q.inrange", q.ok); }
      for (auto& q : rxSi) { show("s", q.bv); show("s.real", q.real); }
      for (auto& [n, v] : rxVal) { fprintf(stderr, " node %s\n", str(Ex{(uintptr_t)n, 0}, 5).substr(0, 100).c_str()); show("val", v.val); show("fin", v.fin); show("nan", v.nan); }
    }
    cand = base;
    cand.ov.clear();
    for (auto sy : syms) {
      Z3_ast v;
      uint64_t x = 0;
      if (Z3_model_eval(ctx, m, tr(G.raw(SYM, G.symtab[sy].w, sy)), true, &v)) Z3_get_numeral_uint64(ctx, v, &x);
      mo.push_back({sy, x});
      if (!G.absDef.count(sy)) cand.set(sy, x);
    }
    for (auto& [e, rv] : rxLeaves) {
      if (((eval(e, cand) >> (e.w() == 32 ? 23 : 52)) & (e.w() == 32 ? 0xFF : 0x7FF)) == (e.w() == 32 ? 0xFFu : 0x7FFu)) continue;
      Z3_ast v;
      if (!Z3_model_eval(ctx, m, rv, true, &v)) continue;
      double d = ratToDouble(v);
      uint64_t bits;
      if (e.w() == 32) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); bits = b; } else memcpy(&bits, &d, 8);
      std::function<void(const Ex&, uint64_t)> put = [&](const Ex& x, uint64_t b) {
        if (x.n()->op == SYM) cand.set(x.n()->aux, b & maskw(x.w()));
        else { unsigned lw = x.n()->k[1].w(); put(x.n()->k[1], b & maskw(lw)); put(x.n()->k[0], b >> lw); }
      };
      put(e, bits);
    }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_solver_dec_ref(ctx, s);
  RX = false;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SS.queries++; SS.relaxed++;
  SS.seconds += dt;
  SS.maxSeconds = std::max(SS.maxSeconds, dt);
  if (r == UNSAT) { SS.unsat++; SS.relaxedRefuted++; }
  if (getenv("CSE_SLOW") && dt > atof(getenv("CSE_SLOW"))) { fprintf(stderr, "slow relaxed query %.2fs res=%d n=%zu syms=%zu\n", dt, r, cs.size(), syms.size());
    if (getenv("CSE_SLOW_DUMP")) for (auto& c : cs) fprintf(stderr, "   %s\n", str(c, 14).c_str()); }
  return r;
}

// constraints of pc (and the seeds) connected to `syms` through shared symbols; extends syms
static std::vector<uint32_t> mark;
static uint32_t markEpoch = 0;
static void closure(const PC& pc, std::vector<uint32_t>& syms, std::vector<Ex>& cs) {
  std::vector<PCNode*> rest;
  for (PCNode* p = pc.get(); p; p = p->prev.get()) rest.push_back(p);
  bool changed = true;
  while (changed) {
    changed = false;
    size_t j = 0;
    for (size_t i = 0; i < rest.size(); i++) {
      bool hit = false;
      for (auto s : *symsOf(rest[i]->c)) if (mark[s] == markEpoch) { hit = true; break; }
      if (hit) {
        size_t before = syms.size();
        for (auto s : *symsOf(rest[i]->c)) if (mark[s] != markEpoch) { mark[s] = markEpoch; syms.push_back(s); }
        cs.push_back(rest[i]->c);
        if (syms.size() != before) changed = true;
      } else rest[j++] = rest[i];
    }
    rest.resize(j);
  }
}
static void newMarks() { mark.resize(G.symtab.size() + 1, 0); markEpoch++; }
static std::vector<uint32_t> absSyms(const std::vector<uint32_t>& syms) {
  std::vector<uint32_t> r;
  if (!G.absDef.empty()) for (auto s : syms) if (G.absDef.count(s)) r.push_back(s);
  return r;
}
static bool anyFp(const std::vector<Ex>& cs) { for (auto& c : cs) if (!c.isC() && c.n()->hasfp) return true; return false; }
// functional congruence between abstracted applications of the same operation
static void congruence(const std::vector<uint32_t>& ab, std::vector<Ex>& cs) {
  for (size_t i = 0; i < ab.size(); i++) for (size_t j = i + 1; j < ab.size(); j++) {
    Node *x = G.absDef[ab[i]].n(), *y = G.absDef[ab[j]].n();
    if (x->op != y->op || x->w != y->w || x->aux != y->aux || x->nk != y->nk) continue;
    Ex same = C(1, 1);
    for (int k = 0; k < x->nk; k++) { if (x->k[k].w() != y->k[k].w()) { same = C(0, 1); break; } same = land(same, eq(x->k[k], y->k[k])); }
    if (same.isFalse()) continue;
    Ex l = lor(lnot(same), eq(G.raw(SYM, x->w, ab[i]), G.raw(SYM, y->w, ab[j])));
    if (!l.isC()) cs.push_back(l);
  }
}
static Res cachedRun(std::vector<Ex>& cs, const std::vector<uint32_t>& syms, const Model& base, std::vector<std::pair<uint32_t, uint64_t>>& mo) {
  std::vector<uint32_t> key;
  for (auto& c : cs) key.push_back(c.n()->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it == cache.end()) {
    CacheEnt ce;
    ce.r = runZ3(cs, anyFp(cs), syms, ce.m);
    it = cache.emplace(std::move(key), std::move(ce)).first;
    if (it->second.r == SAT) {  // validate the model with the concrete evaluator
      Model t = base;
      for (auto& [s, v] : it->second.m) { if (G.absDef.count(s)) t.ov[s] = v; else t.set(s, v); }
      for (auto& c : cs) if (!eval(c, t)) {
        if (getenv("CSE_DEBUG")) fprintf(stderr, "model mismatch on %s\n", str(c, 5).c_str());
        it->second.r = UNKNOWN; SS.unknown++; break;
      }
    }
  } else SS.cacheHits++;
  mo = it->second.m;
  return it->second.r;
}
// guided random repair of a model: cheap when the abstracted operation is a hash or a rounding
static bool repair(const std::vector<Ex>& cs, const std::vector<uint32_t>& syms, Model& m, int tries) {
  static uint64_t rng = 88172645463325252ull;
  auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  std::vector<uint32_t> base;
  for (auto s : syms) if (!G.absDef.count(s)) base.push_back(s);
  auto score = [&](const Model& x) { size_t k = 0; for (auto& c : cs) k += eval(c, x) != 0; return k; };
  Model cur = m;
  size_t sc = score(cur);
  if (sc == cs.size()) return true;
  for (int it = 0; it < tries && !base.empty(); it++) {
    Model y = cur;
    for (int k = 1 + rnd() % 2; k-- > 0;) { auto s = base[rnd() % base.size()]; unsigned w = G.symtab[s].w; y.set(s, (rnd() & 1 ? y.get(s) ^ (1ull << rnd() % w) : rnd()) & maskw(w)); }
    size_t s2 = score(y);
    if (s2 == cs.size()) { m = y; return true; }
    if (s2 >= sc) { cur = y; sc = s2; }
  }
  return false;
}
Res exactify(const PC& pc, const Ex& extra, Model& m) {
  if (m.ov.empty()) return SAT;
  newMarks();
  std::vector<uint32_t> syms;
  std::vector<Ex> cs;
  for (auto& o : m.ov) for (auto s : *symsOf(G.raw(SYM, G.symtab[o.first].w, o.first))) if (mark[s] != markEpoch) { mark[s] = markEpoch; syms.push_back(s); }
  PC full = extra.valid() && !extra.isC() ? pcPush(pc, extra) : pc;
  closure(full, syms, cs);
  Model t = m;
  t.ov.clear();
  bool ok = true;
  for (auto& c : cs) if (!eval(c, t)) { ok = false; break; }
  if (ok) { m = t; return SAT; }
  SS.refinements++;
  bool fpAbs = false;
  auto ab = absSyms(syms);
  if (gRelax) for (auto s : ab) if (G.absDef[s].n()->op >= FADD) { fpAbs = true; break; }
  Model rep = t;
  if (fpAbs) {
    std::vector<Ex> c2 = cs;
    congruence(ab, c2);
    std::vector<std::pair<uint32_t, uint64_t>> m2;
    Model cand;
    Res r = rxRun(c2, syms, t, cand, m2);
    if (r == UNSAT) return UNSAT;
    if (r == SAT) rep = cand;
  }
  if (repair(cs, syms, rep, 4000)) { m = rep; return SAT; }
  std::vector<Ex> defs;
  for (auto s : absSyms(syms)) defs.push_back(G.raw(EQ, 1, 0, G.raw(SYM, G.symtab[s].w, s), G.absDef[s]));
  for (auto& d : defs) cs.push_back(d);
  std::vector<std::pair<uint32_t, uint64_t>> mo;
  Res r = cachedRun(cs, syms, t, mo);
  if (r == SAT) { for (auto& [s, v] : mo) if (!G.absDef.count(s)) t.set(s, v); m = t; }
  return r;
}

Res checkSat(const PC& pc, const Ex& extra, const Model& base, Model& out) {
  if (extra.isTrue()) { out = base; SS.syntactic++; return SAT; }
  if (extra.isFalse()) { SS.syntactic++; return UNSAT; }
  if (eval(extra, base)) { out = base; SS.modelHits++; return SAT; }
  Ex neg = lnot(extra);
  for (PCNode* p = pc.get(); p; p = p->prev.get()) if (p->c == neg) { SS.syntactic++; return UNSAT; }
  // independence slicing: constraints sharing symbols (transitively) with `extra`
  newMarks();
  std::vector<uint32_t> syms;
  for (auto s : *symsOf(extra)) if (mark[s] != markEpoch) { mark[s] = markEpoch; syms.push_back(s); }
  std::vector<Ex> cs{extra};
  closure(pc, syms, cs);
  if (syms.size() == 1 && G.symtab[syms[0]].w == 8) {  // complete decision over the byte domain
    std::bitset<256> b;
    b.set();
    for (auto& c : cs) b &= byteset(c.n(), syms[0]);
    SS.domainDecided++;
    if (b.none()) return UNSAT;
    out = base;
    out.set(syms[0], b._Find_first());
    return SAT;
  }
  auto ab = absSyms(syms);
  size_t nc = cs.size();
  if (!ab.empty()) congruence(ab, cs);
  std::vector<std::pair<uint32_t, uint64_t>> mo;
  Res r = UNKNOWN;
  bool fpAbs = false;
  if (gRelax) for (auto s : ab) if (G.absDef[s].n()->op >= FADD) { fpAbs = true; break; }
  if (fpAbs) {
    std::vector<uint32_t> key;
    for (auto& c : cs) key.push_back(c.n()->id);
    std::sort(key.begin(), key.end());
    key.push_back(~0u);
    auto it = cache.find(key);
    Model cand;
    std::vector<std::pair<uint32_t, uint64_t>> m2;
    if (it != cache.end()) { r = it->second.r; SS.cacheHits++; }
    else {
      r = rxRun(cs, syms, base, cand, m2);
      cache[key] = {r, {}};
      if (r == SAT) {
        bool ok = true;
        for (size_t i = 0; i < nc && ok; i++) ok = eval(cs[i], cand);
        if (ok) { SS.sat++; out = cand; return SAT; }
        if (repair(std::vector<Ex>(cs.begin(), cs.begin() + nc), syms, cand, 300)) { SS.sat++; out = cand; return SAT; }
      }
    }
    if (r == UNSAT) { SS.abstractRefuted++; return UNSAT; }
  }
  r = cachedRun(cs, syms, base, mo);
  if (r == UNSAT && !ab.empty()) SS.abstractRefuted++;
  if (r == SAT) {
    Model t = base;
    for (auto& [s, v] : mo) if (G.absDef.count(s)) t.ov.erase(s); else t.set(s, v);
    if (!ab.empty()) {
      bool ok = true;
      for (size_t i = 0; i < nc && ok; i++) ok = eval(cs[i], t);
      if (!ok) for (auto& [s, v] : mo) if (G.absDef.count(s)) t.ov[s] = v;
    }
    out = t;
  }
  return r;
}
}  // namespace cse
