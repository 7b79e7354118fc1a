// Symbolic interpreter for LLVM bitcode of the code under test.
#include "exec.h"
#include <cxxabi.h>
#include <cstdarg>
#include <cstdio>
#include <fstream>
#include <sstream>
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
namespace cse {
using Ctl = int;
enum { NEXT = 0, STAY = 1 };
struct PathEnd { std::string why; };

static std::map<std::string, long long> params;
static std::map<std::string, std::string> sparams;
static const Module* M;
static const DataLayout* DL;
static std::unordered_map<const Function*, DFunc*> fns;
static std::unordered_map<uint64_t, DFunc*> faddr;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, const GlobalVariable*> gvByAddr;
static std::list<std::string> names;
static std::vector<State*> work;
static double maxSeconds = 600;
static uint64_t maxPaths = 1000000, maxSteps = 400000000ull, maxLive = 20000;
static bool wantRace = false;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ---- results ---------------------------------------------------------------------------------------------
struct InDump { char kind; std::string name; std::vector<uint8_t> bytes; uint64_t val; };
struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::vector<InDump> in; std::vector<int> sched; std::vector<std::string> notes; };
struct Sample { std::vector<InDump> in; std::vector<std::pair<std::string, std::string>> sinks; std::vector<int> sched; };
static struct Stats {
  uint64_t paths = 0, completed = 0, assumed = 0, violated = 0, aborted = 0, instrs = 0, branches = 0, forks = 0, maxDepth = 0;
  std::map<std::string, uint64_t> incomplete;
  struct Chk { uint64_t evals = 0, trivial = 0, proved = 0, failed = 0, unknown = 0; };
  std::map<std::string, Chk> checks;
  std::map<std::string, uint64_t> reach;
  std::map<std::string, uint64_t> notes;
  uint64_t memChecks = 0, schedPoints = 0, spurious = 0, redundant = 0;
} ST;
static std::vector<Violation> viols;
static std::map<std::string, int> violCount;
static std::vector<Sample> samples;
static uint64_t sampleStride = 1;
static size_t maxSamples = 24;

static std::string demangle(const std::string& n) {
  int st = 0;
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  if (!d) return n;
  std::string r = d;
  free(d);
  return r;
}
static std::vector<InDump> dumpInputs(const State& s, const Model& m) {
  std::vector<InDump> v;
  for (InRec* r = s.in.get(); r; r = r->prev.get()) {
    InDump d{r->kind, r->name, {}, r->val};
    for (auto& e : r->bytes) d.bytes.push_back((uint8_t)eval(e, m));
    v.push_back(d);
  }
  std::reverse(v.begin(), v.end());
  return v;
}
static std::vector<int> dumpSched(const State& s) {
  std::vector<int> v;
  for (SchedRec* r = s.sched.get(); r; r = r->prev.get()) if (!r->atomic) v.push_back(r->tid);  // a replay cannot stop at atomic accesses
  std::reverse(v.begin(), v.end());
  return v;
}
static std::vector<std::string> stackOf(const State& s) {
  std::vector<std::string> v;
  if (s.cur >= 0 && s.cur < (int)s.th.size()) for (size_t i = s.th[s.cur].st.size(); i-- > 0;) v.push_back(s.th[s.cur].st[i].f->name);
  if (v.size() > 16) v.resize(16);
  return v;
}
static void report(State& s, const Model& m0, const std::string& kind, const std::string& msg, const Ex& extra = Ex()) {
  Model m = m0;
  if (!m.ov.empty()) {
    Res r = exactify(s.pc, extra, m);
    if (r == UNSAT) { ST.spurious++; return; }
    if (r == UNKNOWN) { ST.incomplete["no exact model for a possible violation: " + kind + ": " + msg]++; return; }
  }
  std::string where;
  auto stk = stackOf(s);
  for (auto& f : stk) { where = f; if (f.find("Cloudini") != std::string::npos || f.find("nanocdr") != std::string::npos || f.find("cldn") != std::string::npos) break; }
  std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : where);
  if (++violCount[key] > 6) return;
  Violation v{kind, msg, where, stk, dumpInputs(s, m), dumpSched(s), s.ctxNotes};
  viols.push_back(v);
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) {
  report(s, s.model, kind, msg);
  throw PathEnd{"violation"};
}
[[noreturn]] static void incomplete(const std::string& why) {
  ST.incomplete[why]++;
  throw PathEnd{"incomplete"};
}

// ---- symbols for uninitialised bytes ---------------------------------------------------------------------
static std::unordered_map<std::string, Ex> symByName;
static Ex namedSym(const std::string& n, unsigned w) {
  auto it = symByName.find(n);
  if (it != symByName.end()) return it->second;
  Ex e = mkSym(n, w);
  symByName[n] = e;
  return e;
}
Ex Mem::uninit(uint32_t id, uint64_t off) { return namedSym("u" + std::to_string(id) + "_" + std::to_string(off), 8); }

// ---- types -----------------------------------------------------------------------------------------------
static unsigned scalarW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static Value constant(const Constant* c);
static Value zeroOf(Type* t) {
  if (unsigned w = scalarW(t)) return w <= 64 ? Value(C(0, w)) : Value(mkC(APInt(w, 0)));
  size_t n = 0;
  if (auto* v = dyn_cast<FixedVectorType>(t)) n = v->getNumElements();
  else if (auto* a = dyn_cast<ArrayType>(t)) n = a->getNumElements();
  else if (auto* st = dyn_cast<StructType>(t)) n = st->getNumElements();
  else { std::string s; raw_string_ostream o(s); t->print(o); incomplete("unsupported type " + o.str()); }
  Value r = Value::agg(n);
  for (size_t i = 0; i < n; i++) (*r.a)[i] = zeroOf(isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType());
  return r;
}
static uint64_t addrOfGlobal(const GlobalValue* g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  incomplete("address of unknown global " + g->getName().str());
}
static Value constant(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) return Value(mkC(i->getValue()));
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    if (!f->getType()->isFloatTy() && !f->getType()->isDoubleTy()) return Value();  // unsupported width; never silently used
    return Value(mkC(f->getValueAPF().bitcastToAPInt()));
  }
  if (isa<ConstantPointerNull>(c)) return Value(C(0, 64));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) return constant(ga->getAliasee());
    return Value(C(addrOfGlobal(g), 64));
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    Value r = Value::agg(d->getNumElements());
    for (unsigned i = 0; i < d->getNumElements(); i++) (*r.a)[i] = constant(d->getElementAsConstant(i));
    return r;
  }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) {
    Value r = Value::agg(a->getNumOperands());
    for (unsigned i = 0; i < a->getNumOperands(); i++) (*r.a)[i] = constant(a->getOperand(i));
    return r;
  }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(e)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off)) return Value(add(constant(cast<Constant>(g->getPointerOperand())).e, C(off.getZExtValue(), 64)));
    }
    switch (e->getOpcode()) {
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
        Ex x = constant(e->getOperand(0)).e; unsigned w = scalarW(e->getType());
        if (x.valid() && w) return Value(x.w() >= w ? trunc(x, w) : zext(x, w));
        break; }
      case Instruction::Add: return Value(add(constant(e->getOperand(0)).e, constant(e->getOperand(1)).e));
      case Instruction::Sub: return Value(sub(constant(e->getOperand(0)).e, constant(e->getOperand(1)).e));
      case Instruction::Trunc: return Value(trunc(constant(e->getOperand(0)).e, scalarW(e->getType())));
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  incomplete("unsupported constant " + o.str().substr(0, 80));
}

// ---- decoding --------------------------------------------------------------------------------------------
static int builtinId(const std::string& n);
static DFunc* getFn(const Function* F) {
  auto it = fns.find(F);
  return it == fns.end() ? nullptr : it->second;
}
static void decodeFn(DFunc* d) {
  d->decoded = true;
  const Function* F = d->F;
  std::unordered_map<const llvm::Value*, int> reg;
  std::unordered_map<const BasicBlock*, int> bidx;
  int nr = 0;
  for (auto& a : F->args()) reg[&a] = nr++;
  for (auto& b : *F) {
    bidx[&b] = bidx.size() - 0;
    for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = nr++;
  }
  { int k = 0; for (auto& b : *F) bidx[&b] = k++; }
  d->nregs = nr;
  auto op = [&](const llvm::Value* v) {
    Opnd o;
    if (auto* c = dyn_cast<Constant>(v)) { try { o.c = constant(c); } catch (PathEnd&) { o.c = Value(); } }
    else { auto it = reg.find(v); if (it != reg.end()) o.reg = it->second; }
    return o;
  };
  for (auto& b : *F) {
    d->blocks.emplace_back();
    DBlock& db = d->blocks.back();
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      DInst x;
      x.I = &i; x.op = i.getOpcode(); x.ty = i.getType();
      if (!i.getType()->isVoidTy()) { x.dst = reg[&i]; x.w = scalarW(i.getType()); }
      if (auto* ph = dyn_cast<PHINode>(&i)) {
        db.nphi++;
        for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { x.o.push_back(op(ph->getIncomingValue(k))); x.succ.push_back(bidx[ph->getIncomingBlock(k)]); }
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        x.o.push_back(op(g->getPointerOperand()));
        uint64_t off = 0;
        for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
          const llvm::Value* idx = ti.getOperand();
          if (StructType* st = ti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else {
            uint64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) off += sz * (uint64_t)ci->getSExtValue();
            else { x.o.push_back(op(idx)); x.scales.push_back(sz); }
          }
        }
        x.aux = off;
      } else if (auto* al = dyn_cast<AllocaInst>(&i)) {
        x.aux = DL->getTypeAllocSize(al->getAllocatedType());
        x.o.push_back(op(al->getArraySize()));
      } else if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) x.o.push_back(op(br->getCondition()));
        for (unsigned k = 0; k < br->getNumSuccessors(); k++) x.succ.push_back(bidx[br->getSuccessor(k)]);
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        x.o.push_back(op(sw->getCondition()));
        x.succ.push_back(bidx[sw->getDefaultDest()]);
        for (auto& c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]});
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) { if (isa<MetadataAsValue>(a.get())) { x.o.push_back({}); continue; } x.o.push_back(op(a.get())); }
        x.o.push_back(op(cb->getCalledOperand()));
        const llvm::Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto* cf = dyn_cast<Function>(cv)) x.callee = getFn(cf);
        if (auto* iv = dyn_cast<InvokeInst>(&i)) { x.succ.push_back(bidx[iv->getNormalDest()]); x.succ.push_back(bidx[iv->getUnwindDest()]); }
      } else {
        for (auto& o : i.operands()) if (!isa<BasicBlock>(o.get())) x.o.push_back(op(o.get()));
        if (auto* c = dyn_cast<CmpInst>(&i)) x.aux = c->getPredicate();
      }
      x.at = i.isAtomic() && !isa<FenceInst>(i);
      db.ins.push_back(std::move(x));
    }
  }
}

// ---- memory ----------------------------------------------------------------------------------------------
static Frame& top(State& s) { return s.th[s.cur].st.back(); }
static bool gInAtomic = false;  // atomic accesses do not race
static void race(State& s, uint32_t id, uint64_t off, uint64_t n, bool wr) {
  if (!wantRace || !s.sawThreads || gInAtomic) return;
  auto& t = s.th[s.cur];
  auto& so = s.shadow[id];
  if (!so) so = std::make_shared<ShadowObj>();
  else if (so.use_count() > 1) so = std::make_shared<ShadowObj>(*so);
  auto hb = [&](int tid, uint32_t clk) { return tid == s.cur || (tid < (int)t.vc.size() && clk <= t.vc[tid]); };
  for (uint64_t k = off; k < off + n; k++) {
    Acc& a = (*so)[k];
    bool bad = a.wt >= 0 && !hb(a.wt, a.wc);
    if (wr && !bad) for (auto& r : a.rd) if (!hb(r.first, r.second)) bad = true;
    if (bad) { const Obj* o = s.mem.get(id); fail(s, "race", std::string("data race (") + (wr ? "write" : "read") + ") on " + (o && o->name ? *o->name : "?")); }
    if (wr) { a.wt = s.cur; a.wc = t.vc[s.cur]; a.rd.clear(); }
    else {
      bool f = false;
      for (auto& r : a.rd) if (r.first == s.cur) { r.second = t.vc[s.cur]; f = true; }
      if (!f) a.rd.push_back({s.cur, t.vc[s.cur]});
    }
  }
}
static State* cloneState(State& s) { ST.forks++; auto* c = new State(s); work.push_back(c); return c; }
static void addC(State& s, const Ex& c) { if (!c.isC()) s.pc = pcPush(s.pc, c); }
static void noteUnknown() { ST.incomplete["solver returned unknown"]++; }

// the value of an expression whose symbols all have one value left on this path
static Ex fold(State& s, const Ex& e) {
  if (s.fixed.empty() || e.isC() || e.w() > 64) return e;
  for (auto y : *symsOf(e)) if (std::find(s.fixed.begin(), s.fixed.end(), y) == s.fixed.end()) return e;
  return C(eval(e, s.model), e.w());
}
// fork so that the current state has `e` fixed to one value (its model's); returns the value
static bool forkPtr = false;
static uint64_t concretize(State& s, const Ex& e0, const char* what) {
  const Ex e = fold(s, e0);
  if (e.isC()) return e.v;
  if (forkPtr && strcmp(what, "allocation size") && e.n()->op != SYM && e.w() <= 64) {  // one path per value of every symbol of the address
    std::vector<uint32_t> todo;
    for (auto y : *symsOf(e)) if (std::find(s.fixed.begin(), s.fixed.end(), y) == s.fixed.end()) todo.push_back(y);
    for (auto y : todo) concretize(s, G.raw(SYM, G.symtab[y].w, y), what);
    return eval(e, s.model);
  }
  for (auto& k : s.known) if (k.first == e.n()) return k.second;
  uint64_t v = eval(e, s.model);
  Ex same = eq(e, C(v, e.w()));
  Model m2;
  Res r = checkSat(s.pc, lnot(same), s.model, m2);
  if (r == UNKNOWN) noteUnknown();
  if (r == SAT) {
    if (work.size() > maxLive) incomplete(std::string("too many pending states while concretizing ") + what);
    State* o = cloneState(s);
    o->model = m2;
    addC(*o, lnot(same));
  }
  addC(s, same);
  if (forkPtr && e.n()->op == SYM) s.fixed.push_back(e.n()->aux);
  else s.known.push_back({e.n(), v});
  return v;
}
// fork on a boolean: returns its value in the current state, the other side (if feasible) is queued to re-execute
static bool decide(State& s, const Ex& c0) {
  const Ex c = fold(s, c0);
  if (c.isC()) return c.v;
  bool v = eval(c, s.model);
  Ex cur = v ? c : lnot(c), oth = v ? lnot(c) : c;
  Model m2;
  Res r = checkSat(s.pc, oth, s.model, m2);
  if (r == UNKNOWN) noteUnknown();
  if (r == SAT) { State* o = cloneState(s); o->model = m2; addC(*o, oth); addC(s, cur); }
  return v;
}
static std::string objName(const Obj* o) { return o && o->name ? *o->name : std::string("object"); }
// find an ITE inside a pointer expression whose arms point to different objects under the two models
static bool findPtrIte(const Ex& e, const Model& a, const Model& b, Ex& cond, int depth = 0) {
  if (e.isC() || depth > 12) return false;
  Node* n = e.n();
  if (n->op == ITE && n->w == 64) {
    bool ca = eval(n->k[0], a), cb = eval(n->k[0], b);
    if (ca != cb) { cond = n->k[0]; return true; }
    return findPtrIte(ca ? n->k[1] : n->k[2], a, b, cond, depth + 1);
  }
  if (n->op == ADD || n->op == SUB || n->op == OR || n->op == CONCAT) for (int i = 0; i < n->nk; i++) if (findPtrIte(n->k[i], a, b, cond, depth + 1)) return true;
  return false;
}
struct Loc { uint32_t id; uint64_t off; Ex sym; };  // sym valid: symbolic offset
static void flushLog(State& s, uint32_t id);
static Loc resolve1(State& s, const Ex& addr0, uint64_t n, bool wr, const char* what);
static Loc resolve(State& s, const Ex& addr0, uint64_t n, bool wr, const char* what) {
  Loc l = resolve1(s, fold(s, addr0), n, wr, what);
  if (n && s.mem.get(l.id)->log) flushLog(s, l.id);
  return l;
}
static Loc resolve2(State& s, const Ex& addr0, uint64_t n, bool wr, const char* what);
static Loc resolve1(State& s, const Ex& addr0, uint64_t n, bool wr, const char* what) {
  Loc l = resolve2(s, fold(s, addr0), n, wr, what);
  if (l.sym.valid() && forkPtr) l = {l.id, concretize(s, l.sym, "address"), {}};
  return l;
}
static Loc resolve2(State& s, const Ex& addr0, uint64_t n, bool wr, const char* what) {
  ST.memChecks++;
  Ex addr = addr0;
  if (!addr.isC()) for (auto& k : s.known) if (k.first == addr.n()) { addr = C(k.second, 64); break; }
  auto bad = [&](State& st, const Model& m, uint64_t a, bool die, const Ex& extra = Ex()) {
    uint32_t id = idOf(a);
    const Obj* o = st.mem.get(id);
    std::string msg;
    if (a < (1ull << SLOT)) msg = std::string(wr ? "write" : "read") + " through a null/invalid pointer";
    else if (!o) msg = std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes in released or unmapped memory";
    else msg = std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + objName(o) + " (" + (o->kind == HEAP ? "heap" : o->kind == STACK ? "stack" : "global") + ")";
    report(st, m, "memory", msg, extra);
    if (die) throw PathEnd{"violation"};
  };
  if (addr.isC()) {
    uint32_t id = idOf(addr.v);
    const Obj* o = addr.v < (1ull << SLOT) ? nullptr : s.mem.get(id);
    uint64_t off = addr.v - baseOf(id);
    if (!o || off > o->size || n > o->size - off || o->kind == FUNC || (wr && o->ro)) bad(s, s.model, addr.v, true);
    return {id, off, {}};
  }
  for (int guard = 0; guard < 64; guard++) {
    uint64_t a = eval(addr, s.model);
    uint32_t id = idOf(a);
    const Obj* o = a < (1ull << SLOT) ? nullptr : s.mem.get(id);
    Model m2;
    if (!o || o->size < n || a - baseOf(id) > o->size - n || (wr && o->ro)) { 
      // the current model itself is out of bounds: report, then continue on a legal model if there is one
      bad(s, s.model, a, true);
    }
    Ex off = sub(addr, C(baseOf(id), 64));
    Ex inb = ule(off, C(o->size - n, 64));
    Res r = checkSat(s.pc, lnot(inb), s.model, m2);
    if (r == UNKNOWN) noteUnknown();
    if (r != SAT) { addC(s, inb.isC() ? inb : C(1, 1)); return off.isC() ? Loc{id, off.v, {}} : Loc{id, 0, off}; }
    Ex c;
    if (findPtrIte(addr, s.model, m2, c)) { decide(s, c); continue; }
    bad(s, m2, eval(addr, m2), false, lnot(inb));
    addC(s, inb);
    return off.isC() ? Loc{id, off.v, {}} : Loc{id, 0, off};
  }
  incomplete("pointer resolution did not converge");
}
static Ex readAt(State& s, uint32_t id, uint64_t off, unsigned n) {
  const Obj* o = s.mem.get(id);
  if (n == 0) return C(0, 8);
  if (n <= 8) { uint64_t v; if (Mem::readConc(o, off, n, v)) return C(v, 8 * n); }
  Ex r = s.mem.readByte(id, o, off);
  for (unsigned k = 1; k < n; k++) { o = s.mem.get(id); r = concat(s.mem.readByte(id, o, off + k), r); }
  return r;
}
static void writeAt(State& s, uint32_t id, uint64_t off, const Ex& v) {
  Obj* o = s.mem.getW(id);
  unsigned n = (v.w() + 7) / 8;
  if (v.isC()) { Mem::writeConc(o, off, n, v.v); return; }
  if (v.w() == 8) { Mem::writeByte(o, off, v); return; }
  for (unsigned k = 0; k < n; k++) Mem::writeByte(o, off + k, extract(v, 8 * k, 8));
}
static unsigned tzKnown(const Ex& e) {
  uint64_t kz, ko; kbits(e, kz, ko);
  uint64_t x = ~kz;
  return x ? __builtin_ctzll(x) : 63;
}
static bool aligned(const Loc& l, unsigned n) {
  if (n & (n - 1)) return false;
  if (!l.sym.valid()) return l.off % n == 0;
  return (1ull << std::min(tzKnown(l.sym), 12u)) >= n;
}
static Ex offOf(const Loc& l) { return l.sym.valid() ? l.sym : C(l.off, 64); }
static void flushLog(State& s, uint32_t id) {
  std::vector<const LogNode*> es;
  auto keep = s.mem.get(id)->log;
  for (const LogNode* p = keep.get(); p; p = p->prev.get()) es.push_back(p);
  unsigned n = keep->n;
  uint64_t size = s.mem.get(id)->size, cnt = size / n;
  if (cnt > 80) for (auto* e : es) if (!e->off.isC()) concretize(s, e->off, "store address");
  s.mem.getW(id)->log.reset();
  for (size_t i = es.size(); i-- > 0;) {
    Ex off = es[i]->off;
    if (!off.isC()) for (auto& k : s.known) if (k.first == off.n()) { off = C(k.second, 64); break; }
    if (off.isC()) { writeAt(s, id, off.v, es[i]->val); continue; }
    for (uint64_t k = 0; k < cnt; k++) { Ex old = readAt(s, id, k * n, n); writeAt(s, id, k * n, ite(eq(off, C(k * n, 64)), es[i]->val, old)); }
  }
}
static Ex readSym(State& s, uint32_t id, const Ex& off, unsigned n, uint64_t stride, uint64_t cnt) {
  std::vector<Ex> v(cnt);
  std::unordered_map<uint64_t, unsigned> freq;
  uint64_t best = 0; unsigned bestn = 0;
  for (uint64_t k = 0; k < cnt; k++) {
    v[k] = readAt(s, id, k * stride, n);
    uint64_t h = v[k].t * 0x9E3779B97F4A7C15ull ^ v[k].v;
    unsigned f = ++freq[h];
    if (f > bestn) { bestn = f; best = k; }
  }
  Ex r = v[best];
  for (uint64_t k = cnt; k-- > 0;) if (v[k] != v[best]) r = ite(eq(off, C(k * stride, 64)), v[k], r);
  return r;
}
static Ex loadScalar(State& s, const Ex& addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Loc l = resolve1(s, addr, n, false, "load");
  if (s.mem.get(l.id)->log && !(s.mem.get(l.id)->log->n == n && aligned(l, n))) flushLog(s, l.id);
  Ex r;
  if (!l.sym.valid()) { race(s, l.id, l.off, n, false); r = readAt(s, l.id, l.off, n); }
  else {
    const Obj* o = s.mem.get(l.id);
    uint64_t stride = 1ull << std::min(tzKnown(l.sym), 12u);
    uint64_t cnt = (o->size - n) / stride + 1;
    if (cnt > 1100) {
      uint64_t off = concretize(s, l.sym, "load address");
      race(s, l.id, off, n, false);
      l.sym = Ex(); l.off = off;
      r = readAt(s, l.id, off, n);
    } else {
      race(s, l.id, 0, o->size, false);
      r = readSym(s, l.id, l.sym, n, stride, cnt);
    }
  }
  if (auto lg = s.mem.get(l.id)->log) {
    std::vector<const LogNode*> es;
    for (const LogNode* p = lg.get(); p; p = p->prev.get()) { es.push_back(p); if (eq(p->off, offOf(l)).isTrue()) break; }
    for (size_t i = es.size(); i-- > 0;) r = ite(eq(es[i]->off, offOf(l)), es[i]->val, r);
  }
  return w == r.w() ? r : trunc(r, w);
}
static void storeScalar(State& s, const Ex& addr, Ex v) {
  if (!v.valid()) incomplete("store of an unsupported value");
  if (v.w() % 8) v = zext(v, (v.w() + 7) / 8 * 8);
  unsigned n = v.w() / 8;
  Loc l = resolve1(s, addr, n, true, "store");
  bool al = aligned(l, n);
  if (s.mem.get(l.id)->log && !(s.mem.get(l.id)->log->n == n && al && s.mem.get(l.id)->log->depth < 200)) flushLog(s, l.id);
  if (!l.sym.valid() && !s.mem.get(l.id)->log) { race(s, l.id, l.off, n, true); writeAt(s, l.id, l.off, v); return; }
  const Obj* o = s.mem.get(l.id);
  if (al && o->size % n == 0 && o->size / n <= 8192) {
    if (l.sym.valid()) race(s, l.id, 0, o->size, true); else race(s, l.id, l.off, n, true);
    auto e = std::make_shared<LogNode>();
    e->prev = o->log; e->off = offOf(l); e->val = v; e->n = n; e->depth = o->log ? o->log->depth + 1 : 1;
    s.mem.getW(l.id)->log = e;
    return;
  }
  if (o->log) { flushLog(s, l.id); o = s.mem.get(l.id); }
  if (!l.sym.valid()) { race(s, l.id, l.off, n, true); writeAt(s, l.id, l.off, v); return; }
  uint64_t stride = 1ull << std::min(tzKnown(l.sym), 12u);
  uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt > 80) {
    uint64_t off = concretize(s, l.sym, "store address");
    race(s, l.id, off, n, true);
    writeAt(s, l.id, off, v);
    return;
  }
  race(s, l.id, 0, o->size, true);
  for (uint64_t k = 0; k < cnt; k++) { Ex old = readAt(s, l.id, k * stride, n); writeAt(s, l.id, k * stride, ite(eq(l.sym, C(k * stride, 64)), v, old)); }
}
static Value loadTy(State& s, const Ex& addr, Type* t) {
  if (unsigned w = scalarW(t)) return Value(loadScalar(s, addr, w));
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = scalarW(v->getElementType());
    if (ew % 8) incomplete("sub-byte vector load");
    Value r = Value::agg(v->getNumElements());
    for (unsigned i = 0; i < v->getNumElements(); i++) (*r.a)[i] = Value(loadScalar(s, add(addr, C(i * (ew / 8), 64)), ew));
    return r;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    Value r = Value::agg(st->getNumElements());
    for (unsigned i = 0; i < st->getNumElements(); i++) (*r.a)[i] = loadTy(s, add(addr, C(DL->getStructLayout(st)->getElementOffset(i), 64)), st->getElementType(i));
    return r;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    Value r = Value::agg(at->getNumElements());
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) (*r.a)[i] = loadTy(s, add(addr, C(i * sz, 64)), at->getElementType());
    return r;
  }
  incomplete("unsupported load type");
}
static void storeTy(State& s, const Ex& addr, const Value& v, Type* t) {
  if (scalarW(t)) { storeScalar(s, addr, v.e); return; }
  if (!v.a) incomplete("store of unsupported aggregate");
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = scalarW(vt->getElementType());
    if (ew % 8) incomplete("sub-byte vector store");
    for (unsigned i = 0; i < vt->getNumElements(); i++) storeScalar(s, add(addr, C(i * (ew / 8), 64)), (*v.a)[i].e);
  } else if (auto* st = dyn_cast<StructType>(t)) {
    for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, add(addr, C(DL->getStructLayout(st)->getElementOffset(i), 64)), (*v.a)[i], st->getElementType(i));
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(s, add(addr, C(i * sz, 64)), (*v.a)[i], at->getElementType());
  } else incomplete("unsupported store type");
}
static uint64_t newObj(State& s, uint64_t size, ObjKind k, const std::string* name, uint8_t fam = 0) {
  uint32_t id = s.mem.alloc(size, k, name);
  if (fam) s.mem.getW(id)->afam = fam;
  return baseOf(id);
}
static std::string readCStr(State& s, const Ex& p) {
  std::string r;
  Ex a = p;
  for (int i = 0; i < 4096; i++) { Ex c = loadScalar(s, a, 8); if (!c.isC()) return r + "?"; if (!c.v) break; r += (char)c.v; a = add(a, C(1, 64)); }
  return r;
}

// ---- control flow ----------------------------------------------------------------------------------------
static inline const Value& get(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.r[o.reg] : o.c; }
static void jump(State& s, Frame& f, int to) {
  DBlock& b = f.f->blocks[to];
  int from = f.blk;
  if (b.nphi) {
    std::vector<Value> tmp(b.nphi);
    for (size_t i = 0; i < b.nphi; i++) {
      DInst& x = b.ins[i];
      size_t k = 0;
      while (k < x.succ.size() && x.succ[k] != from) k++;
      if (k < x.succ.size()) tmp[i] = get(f, x.o[k]);
    }
    for (size_t i = 0; i < b.nphi; i++) f.r[b.ins[i].dst] = std::move(tmp[i]);
  }
  f.prev = from;
  f.blk = to;
  f.ip = b.nphi;
}
static void popFrame(State& s) {
  auto& t = s.th[s.cur];
  for (auto id : t.st.back().allocas) s.mem.release(id);
  t.st.pop_back();
}
static void finishCall(State& s, const Value& v) {  // the top frame is the caller, positioned on the call
  Frame& f = top(s);
  DInst& x = f.f->blocks[f.blk].ins[f.ip];
  if (x.dst >= 0) f.r[x.dst] = v;
  if (x.op == Instruction::Invoke) jump(s, f, x.succ[0]);
  else f.ip++;
}
static void pushCall(State& s, DFunc* d, const std::vector<Value>& args) {
  if (!d->decoded) decodeFn(d);
  d->calls++;
  auto& t = s.th[s.cur];
  if (t.st.size() > 400) fail(s, "recursion", "call depth exceeds 400 frames in " + d->name);
  t.st.emplace_back();
  Frame& f = t.st.back();
  f.f = d;
  f.r.resize(d->nregs);
  size_t na = d->F->arg_size();
  for (size_t i = 0; i < na && i < args.size(); i++) {
    f.r[i] = args[i];
    // byval arguments are copied
    if (d->F->getArg(i)->hasByValAttr()) {
      Type* bt = d->F->getParamByValType(i);
      uint64_t n = DL->getTypeAllocSize(bt);
      static std::string nm = "byval";
      uint64_t a = newObj(s, n, STACK, &nm);
      top(s).allocas.push_back(idOf(a));
      for (uint64_t k = 0; k < n; k++) storeScalar(s, C(a + k, 64), loadScalar(s, add(args[i].e, C(k, 64)), 8));
      top(s).r[i] = Value(C(a, 64));
    }
  }
  for (size_t i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
}
// typeinfo walk: is `t` (thrown) the same as or derived from `c`?
static bool tiMatch(State& s, uint64_t t, uint64_t c, int depth = 0) {
  if (t == c) return true;
  if (depth > 10 || !s.mem.get(idOf(t))) return false;
  const Obj* o = s.mem.get(idOf(t));
  if (o->size == 24) {  // __si_class_type_info { vptr, name, base }
    Ex b = readAt(s, idOf(t), 16, 8);
    return b.isC() && tiMatch(s, b.v, c, depth + 1);
  }
  if (o->size > 24) {  // __vmi_class_type_info { vptr, name, flags, count, {base, off}* }
    Ex cnt = readAt(s, idOf(t), 20, 4);
    for (uint64_t i = 0; i < cnt.v; i++) { Ex b = readAt(s, idOf(t), 24 + 16 * i, 8); if (b.isC() && tiMatch(s, b.v, c, depth + 1)) return true; }
  }
  return false;
}
static uint32_t selOf(uint64_t ti) { return ti ? idOf(ti) + 2 : 1; }
static std::string tiName(uint64_t ti) {
  auto it = gvByAddr.find(ti);
  if (it == gvByAddr.end()) return "?";
  return demangle(it->second->getName().str());
}
static void unwind(State& s, uint64_t obj) {
  auto& t = s.th[s.cur];
  uint64_t ti = s.excType.count(obj) ? s.excType[obj] : 0;
  for (bool first = true;; first = false) {
    if (!first) popFrame(s);  // the throw itself may be an invoke of the current frame
    if (t.st.empty()) fail(s, "uncaught", "uncaught exception of type " + tiName(ti));
    Frame& f = top(s);
    DInst& x = f.f->blocks[f.blk].ins[f.ip];
    if (x.op != Instruction::Invoke) continue;
    int lp = x.succ[1];
    DBlock& b = f.f->blocks[lp];
    DInst* l = nullptr;
    for (auto& i : b.ins) if (i.op == Instruction::LandingPad) { l = &i; break; }
    if (!l) incomplete("unwind destination without landingpad");
    auto* L = cast<LandingPadInst>(l->I);
    bool enter = L->isCleanup();
    uint32_t sel = 0;
    for (unsigned k = 0; k < L->getNumClauses(); k++) {
      if (L->isCatch(k)) {
        uint64_t c = l->o[k].c.e.v;
        if (c == 0 || tiMatch(s, ti, c)) { enter = true; sel = selOf(c); break; }
      } else { enter = true; sel = 0xffffffffu; break; }  // filter (exception specification)
    }
    if (!enter) continue;
    t.excObj = obj;
    t.excSel = sel;
    jump(s, f, lp);
    return;
  }
}
static void throwBadAlloc(State& s) {
  const Function* F = M->getFunction("vp_rt_throw_bad_alloc");
  if (!F) incomplete("runtime lacks vp_rt_throw_bad_alloc");
  pushCall(s, getFn(F), {});
}
#include "builtins.inc"

// ---- instruction semantics -------------------------------------------------------------------------------
static Ex binop(State& s, unsigned op, const Ex& a, const Ex& b, const Instruction* I) {
  unsigned w = a.w();
  switch (op) {
    case Instruction::Add: return add(a, b);
    case Instruction::Sub: return sub(a, b);
    case Instruction::Mul: return mk(MUL, w, 0, a, b);
    case Instruction::And: return mk(AND, w, 0, a, b);
    case Instruction::Or: return mk(OR, w, 0, a, b);
    case Instruction::Xor: return mk(XOR, w, 0, a, b);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Ex sh = b;
      if (!sh.isC() && w <= 64 && (w & (w - 1)) == 0) sh = mk(AND, w, 0, b, C(w - 1, w));  // hardware masks the amount
      else if (sh.isC() && sh.v >= w) sh = C(sh.v & (w - 1), w);
      return mk(op == Instruction::Shl ? SHL : op == Instruction::LShr ? LSHR : ASHR, w, 0, a, sh);
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Ex z = w <= 64 ? eq(b, C(0, w)) : eq(b, mkC(APInt(w, 0)));
      if (z.isTrue()) fail(s, "arith", "integer division by zero");
      if (!z.isC()) {
        Model m2;
        Res r = checkSat(s.pc, z, s.model, m2);
        if (r == UNKNOWN) noteUnknown();
        if (r == SAT) {
          report(s, m2, "arith", "integer division by zero", z);
          if (eval(z, s.model)) { Model m3; if (checkSat(s.pc, lnot(z), m2, m3) != SAT) throw PathEnd{"violation"}; s.model = m3; }
          addC(s, lnot(z));
        }
      }
      return mk(op == Instruction::UDiv ? UDIV : op == Instruction::SDiv ? SDIV : op == Instruction::URem ? UREM : SREM, w, 0, a, b);
    }
    case Instruction::FAdd: return mk(FADD, w, 0, a, b);
    case Instruction::FSub: return mk(FSUB, w, 0, a, b);
    case Instruction::FMul: return mk(FMUL, w, 0, a, b);
    case Instruction::FDiv: return mk(FDIV, w, 0, a, b);
    default: break;
  }
  std::string t; raw_string_ostream o(t); I->print(o);
  incomplete("unsupported binary op " + o.str());
}
static Ex icmp(unsigned p, const Ex& a, const Ex& b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return eq(a, b);
    case CmpInst::ICMP_NE: return lnot(eq(a, b));
    case CmpInst::ICMP_ULT: return mk(ULT, 1, 0, a, b);
    case CmpInst::ICMP_ULE: return mk(ULE, 1, 0, a, b);
    case CmpInst::ICMP_UGT: return mk(ULT, 1, 0, b, a);
    case CmpInst::ICMP_UGE: return mk(ULE, 1, 0, b, a);
    case CmpInst::ICMP_SLT: return mk(SLT, 1, 0, a, b);
    case CmpInst::ICMP_SLE: return mk(SLE, 1, 0, a, b);
    case CmpInst::ICMP_SGT: return mk(SLT, 1, 0, b, a);
    default: return mk(SLE, 1, 0, b, a);
  }
}
static Ex isNan(const Ex& a) {
  unsigned w = a.w();
  if (!a.isC() && !(a.n()->op >= FADD)) {  // plain bits: stay in the bit-vector theory
    Ex mag = extract(a, 0, w - 1);
    return mk(ULT, 1, 0, C(w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, w - 1), mag);
  }
  return mk(FUNO, 1, 0, a);
}
static Ex fcmp(unsigned p, const Ex& a, const Ex& b) {
  auto uno = [&] { return a == b ? isNan(a) : lor(isNan(a), isNan(b)); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return C(0, 1);
    case CmpInst::FCMP_TRUE: return C(1, 1);
    case CmpInst::FCMP_OEQ: return mk(FOEQ, 1, 0, a, b);
    case CmpInst::FCMP_OGT: return mk(FOLT, 1, 0, b, a);
    case CmpInst::FCMP_OGE: return mk(FOLE, 1, 0, b, a);
    case CmpInst::FCMP_OLT: return mk(FOLT, 1, 0, a, b);
    case CmpInst::FCMP_OLE: return mk(FOLE, 1, 0, a, b);
    case CmpInst::FCMP_ONE: return land(lnot(uno()), lnot(mk(FOEQ, 1, 0, a, b)));
    case CmpInst::FCMP_ORD: return lnot(uno());
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return lor(uno(), mk(FOEQ, 1, 0, a, b));
    case CmpInst::FCMP_UGT: return lnot(mk(FOLE, 1, 0, a, b));
    case CmpInst::FCMP_UGE: return lnot(mk(FOLT, 1, 0, a, b));
    case CmpInst::FCMP_ULT: return lnot(mk(FOLE, 1, 0, b, a));
    case CmpInst::FCMP_ULE: return lnot(mk(FOLT, 1, 0, b, a));
    default: return lnot(mk(FOEQ, 1, 0, a, b));
  }
}
static Ex castop(unsigned op, const Ex& a, unsigned w, bool dstFp) {
  switch (op) {
    case Instruction::Trunc: return trunc(a, w);
    case Instruction::ZExt: return zext(a, w);
    case Instruction::SExt: return sext(a, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a.w() >= w ? trunc(a, w) : zext(a, w);
    case Instruction::FPToSI: return mk(FTOSI, w, 0, a);
    case Instruction::FPToUI: return mk(FTOUI, w, 0, a);
    case Instruction::SIToFP: return mk(SITOF, w, 0, a);
    case Instruction::UIToFP: return mk(UITOF, w, 0, a);
    case Instruction::FPTrunc: case Instruction::FPExt: return mk(FCVT, w, 0, a);
    default: return {};
  }
}
static Value selectv(const Ex& c, const Value& a, const Value& b) {
  if (c.isC()) return c.v ? a : b;
  if (!a.a) { if (!a.e.valid() || !b.e.valid()) incomplete("select of unsupported values"); return Value(ite(c, a.e, b.e)); }
  Value r = Value::agg(a.a->size());
  for (size_t i = 0; i < a.a->size(); i++) (*r.a)[i] = selectv(c, (*a.a)[i], (*b.a)[i]);
  return r;
}
static Ex flatten(const Value& v) {
  if (!v.a) return v.e;
  Ex r = flatten((*v.a)[0]);
  for (size_t i = 1; i < v.a->size(); i++) r = concat(flatten((*v.a)[i]), r);
  return r;
}
static Value unflatten(const Ex& e, Type* t) {
  if (scalarW(t)) return Value(e);
  auto* v = cast<FixedVectorType>(t);
  unsigned ew = scalarW(v->getElementType());
  Value r = Value::agg(v->getNumElements());
  for (unsigned i = 0; i < v->getNumElements(); i++) (*r.a)[i] = Value(extract(e, i * ew, ew));
  return r;
}

static void execCall(State& s, Frame& f, DInst& x) {
  DFunc* d = x.callee;
  if (!d) {
    const Value& cv = get(f, x.o.back());
    if (!cv.e.valid()) incomplete("call of unsupported target");
    uint64_t a = concretize(s, cv.e, "call target");
    auto it = faddr.find(a);
    if (it == faddr.end()) fail(s, "memory", "call through an invalid function pointer");
    d = it->second;
  }
  size_t na = x.o.size() - 1;
  std::vector<Value> args(na);
  for (size_t i = 0; i < na; i++) args[i] = get(f, x.o[i]);
  if (d->builtin == -1) d->builtin = builtinId(d->F->getName().str());
  if (d->builtin >= 0) {
    Value ret;
    d->calls++;
    Ctl c = builtins[d->builtin].fn(s, x, args, ret);
    if (c == NEXT) finishCall(s, ret);
    return;
  }
  if (d->F->isDeclaration()) {
    if (d->F->isIntrinsic()) {
      Value ret;
      if (intrinsic(s, x, d, args, ret)) { finishCall(s, ret); return; }
    }
    incomplete("call to external function " + demangle(d->F->getName().str()));
  }
  pushCall(s, d, args);
}

// atomic accesses are scheduling points (sequentially consistent interleavings); the ordering decides what they synchronise
struct AtomicScope { AtomicScope() { gInAtomic = true; } ~AtomicScope() { gInAtomic = false; } };
static void stepPlain(State& s);
static void step(State& s) {
  Frame& f = top(s);
  DInst& x = f.f->blocks[f.blk].ins[f.ip];
  if (x.at && s.th.size() > 1) {
    const uint64_t p = concretize(s, get(top(s), x.o[x.op == Instruction::Store ? 1 : 0]).e, "atomic address") ^ (1ull << 63);
    auto* ld = dyn_cast<LoadInst>(x.I);
    const bool guard = ld && isa<GlobalVariable>(ld->getPointerOperand()->stripPointerCasts()) && ld->getPointerOperand()->stripPointerCasts()->getName().starts_with("_ZGV");
    // shared_ptr reads both of its counters at once; on an object no other thread has touched that is no scheduling point
    if (ld && x.w == 64 && wantRace) {
      auto it = s.shadow.find(idOf(p ^ (1ull << 63)));
      bool mine = true;
      if (it != s.shadow.end()) for (auto& kv : *it->second) { if (kv.second.wt >= 0 && kv.second.wt != s.cur) mine = false; for (auto& r : kv.second.rd) if (r.first != s.cur) mine = false; }
      if (mine) { AtomicScope sc; stepPlain(s); return; }
    }
    if (!guard && !visible(s, "atomic access", 'A', p)) return;
    AtomicOrdering o = AtomicOrdering::SequentiallyConsistent;
    if (auto* l = dyn_cast<LoadInst>(x.I)) o = l->getOrdering();
    else if (auto* t = dyn_cast<StoreInst>(x.I)) o = t->getOrdering();
    else if (auto* r = dyn_cast<AtomicRMWInst>(x.I)) o = r->getOrdering();
    if (x.op != Instruction::Store && isAcquireOrStronger(o)) vcAcquire(s, p);
    AtomicScope sc;
    stepPlain(s);
    if (x.op != Instruction::Load && isReleaseOrStronger(o)) vcRelease(s, p);
    return;
  }
  stepPlain(s);
}
// executes one instruction of the current thread
static void stepPlain(State& s) {
  Frame& f = top(s);
  DInst& x = f.f->blocks[f.blk].ins[f.ip];
  s.steps++;
  f.f->instrs++;
  switch (x.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      const Value &a = get(f, x.o[0]), &b = get(f, x.o[1]);
      if (!a.a) {
        if (!a.e.valid() || !b.e.valid()) incomplete("arithmetic on unsupported type");
        f.r[x.dst].e = binop(s, x.op, a.e, b.e, x.I);
      } else {
        Value r = Value::agg(a.a->size());
        for (size_t i = 0; i < a.a->size(); i++) (*r.a)[i] = Value(binop(s, x.op, (*a.a)[i].e, (*b.a)[i].e, x.I));
        f.r[x.dst] = r;
      }
      f.ip++;
      return;
    }
    case Instruction::FNeg: {
      auto neg = [](const Ex& e) { return mk(XOR, e.w(), 0, e, C(1ull << (e.w() - 1), e.w())); };
      const Value& a = get(f, x.o[0]);
      if (!a.a) { Ex r = neg(a.e); f.r[x.dst] = Value(r); }
      else { Value r = Value::agg(a.a->size()); for (size_t i = 0; i < a.a->size(); i++) (*r.a)[i] = Value(neg((*a.a)[i].e)); f.r[x.dst] = r; }
      f.ip++;
      return;
    }
    case Instruction::ICmp: case Instruction::FCmp: {
      const Value &a = get(f, x.o[0]), &b = get(f, x.o[1]);
      auto cmp = [&](const Ex& p, const Ex& q) { if (!p.valid() || !q.valid()) incomplete("comparison of unsupported type"); return x.op == Instruction::ICmp ? icmp(x.aux, p, q) : fcmp(x.aux, p, q); };
      if (!a.a) f.r[x.dst].e = cmp(a.e, b.e);
      else { Value r = Value::agg(a.a->size()); for (size_t i = 0; i < a.a->size(); i++) (*r.a)[i] = Value(cmp((*a.a)[i].e, (*b.a)[i].e)); f.r[x.dst] = r; }
      f.ip++;
      return;
    }
    case Instruction::Load: f.r[x.dst] = x.w ? Value(fold(s, loadScalar(s, get(f, x.o[0]).e, x.w))) : loadTy(s, get(f, x.o[0]).e, x.ty); top(s).ip++; return;
    case Instruction::Store: storeTy(s, get(f, x.o[1]).e, get(f, x.o[0]), x.I->getOperand(0)->getType()); top(s).ip++; return;
    case Instruction::GetElementPtr: {
      const Value& b = get(f, x.o[0]);
      if (!b.e.valid()) incomplete("vector getelementptr");
      Ex r = add(b.e, C(x.aux, 64));
      for (size_t i = 1; i < x.o.size(); i++) {
        Ex idx = get(f, x.o[i]).e;
        if (!idx.valid()) incomplete("vector getelementptr");
        if (idx.w() < 64) idx = sext(idx, 64); else if (idx.w() > 64) idx = trunc(idx, 64);
        r = add(r, mk(MUL, 64, 0, idx, C(x.scales[i - 1], 64)));
      }
      f.r[x.dst].e = r;
      f.ip++;
      return;
    }
    case Instruction::Alloca: {
      uint64_t n = concretize(s, get(f, x.o[0]).e, "alloca size");
      static std::unordered_map<const Instruction*, const std::string*> nm;
      auto& p = nm[x.I];
      if (!p) { names.push_back("local '" + x.I->getName().str() + "' of " + f.f->name); p = &names.back(); }
      uint64_t a = newObj(s, x.aux * n, STACK, p);
      f.allocas.push_back(idOf(a));
      f.r[x.dst] = Value(C(a, 64));
      f.ip++;
      return;
    }
    case Instruction::Br: {
      if (x.succ.size() == 1) { jump(s, f, x.succ[0]); return; }
      const Ex c = fold(s, get(f, x.o[0]).e);
      if (c.isC()) { jump(s, f, x.succ[c.v ? 0 : 1]); return; }
      s.branches++;
      ST.branches++;
      bool v = eval(c, s.model);
      Ex cur = v ? c : lnot(c), oth = v ? lnot(c) : c;
      Model m2;
      Res r = checkSat(s.pc, oth, s.model, m2);
      if (r == UNKNOWN) noteUnknown();
      if (r == SAT) {
        State* o = cloneState(s);
        o->model = std::move(m2);
        addC(*o, oth);
        jump(*o, top(*o), x.succ[v ? 1 : 0]);
        addC(s, cur);
      }
      jump(s, f, x.succ[v ? 0 : 1]);
      return;
    }
    case Instruction::Switch: {
      const Ex c = fold(s, get(f, x.o[0]).e);
      if (c.isC()) {
        int to = x.succ[0];
        for (auto& k : x.cases) if (k.first == c.v) { to = k.second; break; }
        jump(s, f, to);
        return;
      }
      ST.branches++; s.branches++;
      // the case the current model takes
      uint64_t v = eval(c, s.model);
      int to = x.succ[0];
      Ex cond = C(1, 1);
      bool hit = false;
      // group constraint by destination of the concrete value: either equality with one case or none of them
      for (auto& k : x.cases) if (k.first == v) { to = k.second; cond = eq(c, C(v, c.w())); hit = true; break; }
      if (!hit) for (auto& k : x.cases) cond = land(cond, lnot(eq(c, C(k.first, c.w()))));
      Model m2;
      Res r = checkSat(s.pc, lnot(cond), s.model, m2);
      if (r == UNKNOWN) noteUnknown();
      if (r == SAT) { State* o = cloneState(s); o->model = std::move(m2); addC(*o, lnot(cond)); addC(s, cond); }
      jump(s, f, to);
      return;
    }
    case Instruction::Call: execCall(s, f, x); return;
    case Instruction::Invoke: execCall(s, f, x); return;
    case Instruction::Ret: {
      Value v;
      if (!x.o.empty()) v = get(f, x.o[0]);
      popFrame(s);
      if (s.th[s.cur].st.empty()) { s.th[s.cur].stat = T_DONE; return; }
      finishCall(s, v);
      return;
    }
    case Instruction::Select: {
      const Value &c = get(f, x.o[0]), &a = get(f, x.o[1]), &b = get(f, x.o[2]);
      if (!c.a) { Value r = selectv(c.e, a, b); f.r[x.dst] = r; }
      else { Value r = Value::agg(c.a->size()); for (size_t i = 0; i < c.a->size(); i++) (*r.a)[i] = selectv((*c.a)[i].e, (*a.a)[i], (*b.a)[i]); f.r[x.dst] = r; }
      f.ip++;
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
      const Value& a = get(f, x.o[0]);
      if (!a.a) {
        if (!a.e.valid() || !x.w) incomplete("cast involving an unsupported type");
        f.r[x.dst].e = castop(x.op, a.e, x.w, false);
      } else {
        unsigned w = scalarW(cast<FixedVectorType>(x.ty)->getElementType());
        Value r = Value::agg(a.a->size());
        for (size_t i = 0; i < a.a->size(); i++) (*r.a)[i] = Value(castop(x.op, (*a.a)[i].e, w, false));
        f.r[x.dst] = r;
      }
      f.ip++;
      return;
    }
    case Instruction::BitCast: {
      const Value& a = get(f, x.o[0]);
      if (!a.a && x.w) f.r[x.dst] = a;
      else { Value r = unflatten(flatten(a), x.ty); f.r[x.dst] = r; }
      f.ip++;
      return;
    }
    case Instruction::Freeze: f.r[x.dst] = get(f, x.o[0]); f.ip++; return;
    case Instruction::ExtractValue: {
      Value v = get(f, x.o[0]);
      for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) { Value t = (*v.a)[i]; v = t; }
      f.r[x.dst] = v;
      f.ip++;
      return;
    }
    case Instruction::InsertValue: {
      Value v = get(f, x.o[0]);
      std::function<Value(const Value&, ArrayRef<unsigned>)> ins = [&](const Value& a, ArrayRef<unsigned> ix) -> Value {
        if (ix.empty()) return get(f, x.o[1]);
        Value r; r.a = std::make_shared<std::vector<Value>>(*a.a);
        (*r.a)[ix[0]] = ins((*a.a)[ix[0]], ix.drop_front());
        return r;
      };
      f.r[x.dst] = ins(v, cast<InsertValueInst>(x.I)->getIndices());
      f.ip++;
      return;
    }
    case Instruction::ExtractElement: {
      uint64_t i = concretize(s, get(f, x.o[1]).e, "vector index");
      Value v = get(f, x.o[0]);
      if (i >= v.a->size()) incomplete("vector index out of range");
      f.r[x.dst] = (*v.a)[i];
      f.ip++;
      return;
    }
    case Instruction::InsertElement: {
      uint64_t i = concretize(s, get(f, x.o[2]).e, "vector index");
      Value r; r.a = std::make_shared<std::vector<Value>>(*get(f, x.o[0]).a);
      if (i >= r.a->size()) incomplete("vector index out of range");
      (*r.a)[i] = get(f, x.o[1]);
      f.r[x.dst] = r;
      f.ip++;
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(x.I);
      auto &a = *get(f, x.o[0]).a, &b = *get(f, x.o[1]).a;
      auto mask = sv->getShuffleMask();
      Value r = Value::agg(mask.size());
      for (size_t i = 0; i < mask.size(); i++) {
        if (mask[i] < 0) (*r.a)[i] = zeroOf(cast<FixedVectorType>(x.ty)->getElementType());
        else (*r.a)[i] = (size_t)mask[i] < a.size() ? a[mask[i]] : b[mask[i] - a.size()];
      }
      f.r[x.dst] = r;
      f.ip++;
      return;
    }
    case Instruction::LandingPad: {
      Value v = Value::agg(2);
      (*v.a)[0] = Value(C(s.th[s.cur].excObj, 64));
      (*v.a)[1] = Value(C(s.th[s.cur].excSel, 32));
      f.r[x.dst] = v;
      f.ip++;
      return;
    }
    case Instruction::Resume: {
      const Value& v = get(f, x.o[0]);
      unwind(s, (*v.a)[0].e.v);
      return;
    }
    case Instruction::Unreachable: fail(s, "trap", "reached code the compiler considers unreachable");
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
      auto* a = cast<AtomicRMWInst>(x.I);
      Ex p = get(f, x.o[0]).e, v = get(f, x.o[1]).e, old = loadScalar(s, p, x.w), nv;
      switch (a->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = add(old, v); break;
        case AtomicRMWInst::Sub: nv = sub(old, v); break;
        case AtomicRMWInst::And: nv = mk(AND, x.w, 0, old, v); break;
        case AtomicRMWInst::Or: nv = mk(OR, x.w, 0, old, v); break;
        case AtomicRMWInst::Xor: nv = mk(XOR, x.w, 0, old, v); break;
        default: incomplete("unsupported atomicrmw");
      }
      storeScalar(s, p, nv);
      top(s).r[x.dst] = Value(old);
      top(s).ip++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      Ex p = get(f, x.o[0]).e, cmp = get(f, x.o[1]).e, nv = get(f, x.o[2]).e, old = loadScalar(s, p, cmp.w());
      Ex ok = eq(old, cmp);
      storeScalar(s, p, ite(ok, nv, old));
      Value v = Value::agg(2);
      (*v.a)[0] = Value(old); (*v.a)[1] = Value(ok);
      top(s).r[x.dst] = v;
      top(s).ip++;
      return;
    }
    case Instruction::VAArg: incomplete("va_arg");
    default: {
      std::string t; raw_string_ostream o(t); x.I->print(o);
      incomplete("unsupported instruction " + o.str().substr(0, 80));
    }
  }
}

// ---- path loop -------------------------------------------------------------------------------------------
static void takeSample(State& s) {
  if (!s.model.ov.empty() && (ST.completed % sampleStride == 0)) {
    Model m = s.model;
    Res r = exactify(s.pc, Ex(), m);
    if (r == UNSAT) { ST.spurious++; ST.completed--; return; }
    if (r == UNKNOWN) { ST.notes["no exact model for a completed path"]++; return; }
    s.model = m;
  }
  if (samples.size() >= maxSamples) { // thin out: keep every other one
    std::vector<Sample> keep;
    for (size_t i = 0; i < samples.size(); i += 2) keep.push_back(samples[i]);
    samples.swap(keep);
    sampleStride *= 2;
  }
  if (ST.completed % sampleStride) return;
  Sample sm;
  sm.in = dumpInputs(s, s.model);
  sm.sched = dumpSched(s);
  std::vector<SinkRec*> rs;
  for (SinkRec* r = s.sink.get(); r; r = r->prev.get()) rs.push_back(r);
  std::reverse(rs.begin(), rs.end());
  for (auto* r : rs) {
    std::string h;
    for (auto& e : r->bytes) {
      bool ext = false;  // depends on something other than harness inputs?
      for (auto sy : *symsOf(e)) if (G.symtab[sy].name[0] != 'i') ext = true;
      char b[4];
      if (ext) h += "??";
      else { snprintf(b, 4, "%02x", (unsigned)eval(e, s.model)); h += b; }
    }
    sm.sinks.push_back({r->label, h});
  }
  samples.push_back(std::move(sm));
}
static void runState(State& s) {
  try {
    while (true) {
      auto& t = s.th[s.cur];
      if (t.stat == T_DONE) {
        if (s.cur == 0) {
          for (size_t i = 1; i < s.th.size(); i++) if (s.th[i].stat != T_DONE) fail(s, "threads", "harness finished while a thread is still running");
          ST.completed++;
          takeSample(s);
          return;
        }
        scheduleAny(s, "thread finished");
        continue;
      }
      for (int k = 0; k < 4096; k++) {
        step(s);
        auto& tt = s.th[s.cur];
        if (tt.stat == T_DONE) break;
        if (k % 32 == 31 && elapsed() > maxSeconds) break;
      }
      if (s.steps > maxSteps) {
        report(s, s.model, "steps", "path exceeds the step limit (possible non-termination)");
        throw PathEnd{"violation"};
      }
      if (elapsed() > maxSeconds) { ST.incomplete["time budget exhausted"]++; throw PathEnd{"incomplete"}; }
    }
  } catch (PathEnd& e) {
    if (e.why == "redundant") return;
    if (e.why == "assume") ST.assumed++;
    else if (e.why == "violation") ST.violated++;
    else ST.aborted++;
  }
}

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string jin(const std::vector<InDump>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) {
    r += (i ? "," : "");
    r += std::string("[\"") + v[i].kind + "\"," + jstr(v[i].name) + ",";
    if (v[i].kind == 'S') { r += "\""; for (auto b : v[i].bytes) { char t[4]; snprintf(t, 4, "%02x", b); r += t; } r += "\"]"; }
    else r += std::to_string(v[i].val) + "]";
  }
  return r + "]";
}
static std::string jints(const std::vector<int>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
static std::string jmap(const std::map<std::string, uint64_t>& m) { std::string r = "{"; bool f = true; for (auto& k : m) { r += (f ? "" : ",") + jstr(k.first) + ":" + std::to_string(k.second); f = false; } return r + "}"; }

static void writeOut(const std::string& path) {
  std::ofstream o(path);
  o << "{\"paths\":" << ST.paths << ",\"completed\":" << ST.completed << ",\"assumed_away\":" << ST.assumed << ",\"violated\":" << ST.violated << ",\"aborted\":" << ST.aborted
    << ",\"instructions\":" << ST.instrs << ",\"branches\":" << ST.branches << ",\"forks\":" << ST.forks << ",\"mem_checks\":" << ST.memChecks << ",\"sched_points\":" << ST.schedPoints
    << ",\"redundant_schedules\":" << ST.redundant << ",\"infeasible_after_refinement\":" << ST.spurious << ",\"max_path_constraints\":" << ST.maxDepth << ",\"seconds\":" << elapsed() << ",\n\"solver\":{\"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"unknown\":" << SS.unknown
    << ",\"cache_hits\":" << SS.cacheHits << ",\"refinements\":" << SS.refinements << ",\"relaxed\":" << SS.relaxed << ",\"relaxed_refuted\":" << SS.relaxedRefuted << ",\"abstract_refuted\":" << SS.abstractRefuted << ",\"byte_domain_decided\":" << SS.domainDecided << ",\"model_hits\":" << SS.modelHits << ",\"seconds\":" << SS.seconds << ",\"max_seconds\":" << SS.maxSeconds << "},\n";
  o << "\"incomplete\":" << jmap(ST.incomplete) << ",\"reach\":" << jmap(ST.reach) << ",\"notes\":" << jmap(ST.notes) << ",\n\"checks\":{";
  bool first = true;
  for (auto& c : ST.checks) { o << (first ? "" : ",") << jstr(c.first) << ":{\"evaluated\":" << c.second.evals << ",\"trivial\":" << c.second.trivial << ",\"proved\":" << c.second.proved << ",\"failed\":" << c.second.failed << ",\"unknown\":" << c.second.unknown << "}"; first = false; }
  o << "},\n\"violations\":[";
  for (size_t i = 0; i < viols.size(); i++) {
    auto& v = viols[i];
    o << (i ? ",\n" : "") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"stack\":[";
    for (size_t k = 0; k < v.stack.size(); k++) o << (k ? "," : "") << jstr(v.stack[k]);
    o << "],\"inputs\":" << jin(v.in) << ",\"sched\":" << jints(v.sched) << "}";
  }
  o << "],\n\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) {
    auto& v = samples[i];
    o << (i ? ",\n" : "") << "{\"inputs\":" << jin(v.in) << ",\"sched\":" << jints(v.sched) << ",\"sinks\":[";
    for (size_t k = 0; k < v.sinks.size(); k++) o << (k ? "," : "") << "[" << jstr(v.sinks[k].first) << "," << jstr(v.sinks[k].second) << "]";
    o << "]}";
  }
  o << "],\n\"functions\":{";
  first = true;
  for (auto& k : fns) if (k.second->calls && !k.second->F->isDeclaration()) {
    auto& n = k.second->name;
    if (n.find("Cloudini") == std::string::npos && n.find("nanocdr") == std::string::npos && n.find("cldn") == std::string::npos && n.find("anonymous") == std::string::npos) continue;
    o << (first ? "" : ",\n") << jstr(n) << ":[" << k.second->calls << "," << k.second->instrs << "]";
    first = false;
  }
  o << "}}\n";
}

static void initGlobals(State& s) {
  for (auto& F : *M) {
    auto* d = new DFunc();
    d->F = &F;
    d->name = demangle(F.getName().str());
    fns[&F] = d;
    static std::string fnm = "function";
    d->addr = newObj(s, 1, FUNC, &fnm);
    faddr[d->addr] = d;
    gaddr[&F] = d->addr;
  }
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    names.push_back("global " + demangle(g.getName().str()));
    uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
    if (g.isDeclaration() && n < 64) n = 64;
    uint64_t a = newObj(s, n, GLOBAL, &names.back());
    gaddr[&g] = a;
    gvByAddr[a] = &g;
  }
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    if (g.hasInitializer()) {
      // large zero initialisers quickly
      uint64_t a = gaddr[&g];
      Obj* o = s.mem.getW(idOf(a));
      for (uint64_t i = 0; i < o->pg.size(); i++) { Page* p = Mem::pageW(o, i); memset(p->st, 1, PG); }
      if (!isa<ConstantAggregateZero>(g.getInitializer())) {
        try { storeTy(s, C(a, 64), constant(g.getInitializer()), g.getValueType()); }
        catch (PathEnd&) { }
      }
      if (g.isConstant()) s.mem.getW(idOf(a))->ro = true;
    } else {  // external variable: zero filled
      Obj* o = s.mem.getW(idOf(gaddr[&g]));
      for (uint64_t i = 0; i < o->pg.size(); i++) { Page* p = Mem::pageW(o, i); memset(p->st, 1, PG); }
    }
  }
  ST.incomplete.clear();
}
static int mainEngine(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now();
  std::string bc, out = "/dev/stdout", fnName = "vp_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--param") { auto p = nxt(); auto k = p.find('='); params[p.substr(0, k)] = strtoll(p.c_str() + k + 1, nullptr, 0); sparams[p.substr(0, k)] = p.substr(k + 1); }
    else if (a == "--out") out = nxt();
    else if (a == "--fn") fnName = nxt();
    else if (a == "--time") maxSeconds = atof(nxt().c_str());
    else if (a == "--paths") maxPaths = strtoull(nxt().c_str(), nullptr, 0);
    else if (a == "--steps") maxSteps = strtoull(nxt().c_str(), nullptr, 0);
    else if (a == "--qtimeout") gQueryTimeoutMs = atoi(nxt().c_str());
    else if (a == "--samples") maxSamples = std::max(2, atoi(nxt().c_str()));
    else if (a == "--race") wantRace = true;
    else if (a == "--abs") G.absMask = atoi(nxt().c_str());
    else bc = a;
  }
  forkPtr = params.count("fork_ptr") && params["fork_ptr"];
  static LLVMContext C0;
  SMDiagnostic err;
  static auto mod = parseIRFile(bc, err, C0);
  if (!mod) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 2; }
  M = mod.get();
  DL = &mod->getDataLayout();
  State init;
  init.th.resize(1);
  init.th[0].vc = {1};
  try { initGlobals(init); } catch (PathEnd& e) { for (auto& k : ST.incomplete) fprintf(stderr, "init: %s\n", k.first.c_str()); return 2; }
  const Function* F = M->getFunction(fnName);
  if (!F) { fprintf(stderr, "no function %s\n", fnName.c_str()); return 2; }
  // global constructors in priority order, then the harness
  std::vector<std::pair<uint64_t, const Function*>> ctors;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer())
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) {
      auto* st = cast<ConstantStruct>(o);
      if (auto* cf = dyn_cast<Function>(st->getOperand(1))) ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cf});
    }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) {
    pushCall(init, getFn(c.second), {});
    try {
      while (init.th[0].stat != T_DONE) step(init);
    } catch (PathEnd& e) { fprintf(stderr, "global constructor %s failed (%s)\n", getFn(c.second)->name.c_str(), e.why.c_str()); for (auto& k : ST.incomplete) fprintf(stderr, "  %s\n", k.first.c_str()); ST.incomplete["global constructor not executed"]++; while (!init.th[0].st.empty()) popFrame(init); }
    init.th[0].stat = T_RUN;
  }
  pushCall(init, getFn(F), {});
  work.push_back(new State(init));
  while (!work.empty()) {
    if (elapsed() > maxSeconds) { ST.incomplete["time budget exhausted"] += work.size(); break; }
    if (ST.paths >= maxPaths) { ST.incomplete["path budget exhausted"] += work.size(); break; }
    if (viols.size() >= 40) { ST.notes["stopped after 40 counterexamples"]++; break; }
    State* s = work.back();
    work.pop_back();
    ST.paths++;
    uint64_t before = s->steps;
    runState(*s);
    ST.instrs += s->steps - before;
    if (s->pc) ST.maxDepth = std::max<uint64_t>(ST.maxDepth, s->pc->depth);
    delete s;
  }
  writeOut(out);
  return 0;
}
}  // namespace cse
int main(int argc, char** argv) { return cse::mainEngine(argc, argv); }
