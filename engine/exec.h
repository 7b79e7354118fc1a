#pragma once
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "memory.h"
#include "solver.h"

namespace cse {
struct Value {
  Ex e;
  std::shared_ptr<std::vector<Value>> a;
  Value() {}
  Value(const Ex& x) : e(x) {}
  static Value agg(size_t n) { Value v; v.a = std::make_shared<std::vector<Value>>(n); return v; }
};
struct Opnd { int reg = -1; Value c; };
struct DFunc;
struct DInst {
  unsigned op = 0;
  int dst = -1;
  const llvm::Instruction* I = nullptr;
  std::vector<Opnd> o;
  llvm::Type* ty = nullptr;
  unsigned w = 0;          // scalar width of the result / accessed value (0: not a scalar)
  uint64_t aux = 0;        // predicate, gep constant offset, alloca size, ...
  std::vector<uint64_t> scales;
  std::vector<int> succ;   // block indexes
  DFunc* callee = nullptr;
  int builtin = -1;
  bool at = false;         // atomic access
  std::vector<std::pair<uint64_t, int>> cases;
};
struct DBlock { std::vector<DInst> ins; size_t nphi = 0; };
struct DFunc {
  const llvm::Function* F = nullptr;
  bool decoded = false;
  std::vector<DBlock> blocks;
  unsigned nregs = 0;
  uint64_t calls = 0, instrs = 0;
  std::string name;
  int builtin = -1;
  bool at = false;         // atomic access
  uint64_t addr = 0;
};
struct Frame {
  DFunc* f = nullptr;
  std::vector<Value> r;
  int blk = 0, prev = -1;
  size_t ip = 0;
  std::vector<uint32_t> allocas;
  std::vector<Value> varargs;
};
enum TStat : uint8_t { T_RUN, T_LOCK, T_WAIT, T_JOIN, T_DONE };
struct Thread {
  std::vector<Frame> st;
  TStat stat = T_RUN;
  bool atVisible = false;   // stopped at a scheduling point
  char opk = 0;             // the visible operation it stopped at (L lock, W re-lock after wait, E enter wait, N notify, A atomic, J join, T other)
  uint64_t opo = 0;         // the object of that operation
  uint64_t obj = 0;         // mutex / condvar / thread it is blocked on
  uint64_t mtx = 0;
  bool signaled = false;
  int spurious = 0;
  bool timed = false;       // waits with a time limit
  int timeouts = 1;         // how often it may time out while others could run
  uint64_t excObj = 0; uint32_t excSel = 0;
  std::vector<uint64_t> caught;
  std::vector<uint32_t> vc;
};
struct InRec { std::shared_ptr<InRec> prev; char kind; std::string name; std::vector<Ex> bytes; uint64_t val; };
struct SinkRec { std::shared_ptr<SinkRec> prev; std::string label; std::vector<Ex> bytes; };
struct SchedRec { std::shared_ptr<SchedRec> prev; int tid; bool atomic = false; };
struct Shadow { std::map<uint64_t, int> d; };
struct Acc { int wt = -1; uint32_t wc = 0; std::vector<std::pair<int, uint32_t>> rd; };
using ShadowObj = std::unordered_map<uint64_t, Acc>;
struct State {
  Mem mem;
  PC pc;
  Model model;
  std::vector<Thread> th;
  int cur = 0, grant = -1;
  uint32_t sleep = 0;  // threads whose next transition is covered by another path (sleep sets)
  std::map<std::pair<int, uint64_t>, uint64_t> tls;
  std::shared_ptr<InRec> in;
  std::shared_ptr<SinkRec> sink;
  std::shared_ptr<SchedRec> sched;
  std::map<uint64_t, int> mtxOwner, mtxDepth;
  std::map<uint64_t, std::vector<uint32_t>> mtxVC;
  std::map<uint32_t, std::shared_ptr<ShadowObj>> shadow;
  std::map<uint64_t, uint64_t> excType;
  std::vector<std::pair<Node*, uint64_t>> known;
  std::vector<uint32_t> fixed;  // symbols with one value left on this path (only with the parameter fork_ptr)
  std::vector<std::pair<Ex, Ex>> defs;  // terms introduced by contract together with their value
  std::vector<std::string> ctxNotes;
  uint64_t steps = 0, branches = 0;
  unsigned nin = 0, nfresh = 0, nstart = 0;
  bool sawThreads = false;
};
}  // namespace cse
