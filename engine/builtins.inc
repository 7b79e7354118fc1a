// Models of the harness API, the C/C++ runtime, threads and compiler intrinsics.  Included by exec.cpp.
struct Builtin { const char* name; Ctl (*fn)(State&, DInst&, std::vector<Value>&, Value&); };
#define B(nm) static Ctl nm(State& s, DInst& x, std::vector<Value>& a, Value& ret)
#define A(i) a[i].e
static uint64_t cz(State& s, const Ex& e, const char* w) { return concretize(s, e, w); }
static bool gAtomic = false;

// ---- threads / scheduling --------------------------------------------------------------------------------
// parameter one_schedule: follow a single schedule (for properties that are not about threads)
static bool oneSchedule() { static const bool o = params.count("one_schedule") && params["one_schedule"]; return o; }
static bool runnable(State& s, int i) {
  Thread& t = s.th[i];
  switch (t.stat) {
    case T_RUN: return true;
    case T_LOCK: return !s.mtxOwner.count(t.obj);
    case T_WAIT: return (t.signaled || t.spurious > 0 || (t.timed && t.timeouts > 0)) && !s.mtxOwner.count(t.mtx);
    case T_JOIN: return s.th[t.obj].stat == T_DONE;
    default: return false;
  }
}
static void switchTo(State& s, int i) {
  if (s.th.size() > 1 && !oneSchedule()) { auto r = std::make_shared<SchedRec>(); r->prev = s.sched; r->tid = i; r->atomic = s.th[i].atVisible && s.th[i].opk == 'A'; s.sched = r; }
  s.cur = i;
  s.grant = s.th[i].atVisible ? i : -1;
}
// whether the next transitions of two threads commute: different synchronisation objects (the code in between is free of
// data races, or the run with race detection reports one)
static bool commute(State& s, int i, int j) {
  Thread &a = s.th[i], &b = s.th[j];
  if (!a.atVisible || !b.atVisible) return true;  // a new thread running up to its first visible operation
  if (a.opk == 'T' || b.opk == 'T') return false;
  auto mtx = [](Thread& t) { return t.opk == 'L' ? t.opo : t.opk == 'W' ? t.mtx : 0; };
  if (mtx(a) && mtx(a) == mtx(b)) return false;
  for (int k = 0; k < 2; k++) {
    Thread &x = k ? b : a, &y = k ? a : b;
    if (x.opk == 'N' && (y.opk == 'N' || y.opk == 'E' || (y.opk == 'W' && !y.signaled)) && x.opo == y.opo) return false;
  }
  return !(a.opk == 'A' && b.opk == 'A' && a.opo == b.opo);
}
static void scheduleAny(State& s, const char* why) {
  std::vector<int> R;
  if (runnable(s, s.cur)) R.push_back(s.cur);
  for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && runnable(s, i)) R.push_back(i);
  if (R.empty())  // then time passes
    for (int i = 0; i < (int)s.th.size(); i++)
      if (s.th[i].stat == T_WAIT && s.th[i].timed && !s.mtxOwner.count(s.th[i].mtx)) { s.th[i].timeouts++; s.sleep &= ~(1u << i); R.push_back(i); break; }
  if (R.empty()) fail(s, "deadlock", std::string("no thread can make progress: ") + why);
  ST.schedPoints++;
  if (oneSchedule()) { switchTo(s, R[0]); return; }
  std::vector<int> c;
  for (int i : R) if (!(s.sleep >> i & 1)) c.push_back(i);
  if (c.empty()) { ST.redundant++; throw PathEnd{"redundant"}; }  // every continuation is equivalent to one explored elsewhere
  uint32_t before = s.sleep;
  for (size_t k = 0; k < c.size(); k++) {
    uint32_t sl = 0;
    for (int i = 0; i < (int)s.th.size(); i++) if ((before >> i & 1) && i != c[k] && commute(s, i, c[k])) sl |= 1u << i;
    before |= 1u << c[k];
    if (k + 1 < c.size()) { State* o = cloneState(s); o->sleep = sl; switchTo(*o, c[k]); }
    else { s.sleep = sl; switchTo(s, c[k]); }
  }
}
// called by the current thread in front of a visible operation (its status already says what it waits for)
static bool visible(State& s, const char* why, char opk, uint64_t obj) {
  static const bool dbgS = getenv("CSE_SCHED"); if (dbgS && s.grant != s.cur && s.th.size() > 1) fprintf(stderr, "visible t%d %s %llx in %s\n", s.cur, why, (unsigned long long)obj, demangle(top(s).f->F->getName().str()).c_str());
  if (s.grant == s.cur) { s.grant = -1; s.th[s.cur].atVisible = false; return true; }
  bool alone = true;
  for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && s.th[i].stat != T_DONE) alone = false;
  if (alone && s.th[s.cur].stat == T_WAIT && s.th[s.cur].timed && !runnable(s, s.cur)) s.th[s.cur].timeouts++;
  if (alone) { if (!runnable(s, s.cur)) fail(s, "deadlock", std::string("no thread can make progress: ") + why); return true; }
  s.th[s.cur].atVisible = true;
  s.th[s.cur].opk = opk;
  s.th[s.cur].opo = obj;
  scheduleAny(s, why);
  return false;
}
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcRelease(State& s, uint64_t m) { auto& t = s.th[s.cur]; vcJoin(s.mtxVC[m], t.vc); t.vc[s.cur]++; }
static void vcAcquire(State& s, uint64_t m) { auto it = s.mtxVC.find(m); if (it != s.mtxVC.end()) vcJoin(s.th[s.cur].vc, it->second); }

// a mutex of the recursive kind (glibc keeps the kind in the mutex) that the thread already holds
static bool relock(State& s, uint64_t m) {
  auto it = s.mtxOwner.find(m);
  if (it == s.mtxOwner.end() || it->second != s.cur) return false;
  gInAtomic = true;
  const uint64_t kind = cz(s, loadScalar(s, C(m + 16, 64), 32), "mutex kind");
  gInAtomic = false;
  if ((kind & 3) != 1) return false;
  s.mtxDepth[m]++;
  return true;
}
B(mutex_lock) {
  uint64_t m = cz(s, A(0), "mutex");
  resolve(s, C(m, 64), 1, false, "mutex");
  if (s.th[s.cur].stat == T_RUN && relock(s, m)) { ret = Value(C(0, 32)); return NEXT; }
  Thread* t = &s.th[s.cur];
  if (t->stat == T_RUN) { t->stat = T_LOCK; t->obj = m; }
  if (!visible(s, "waiting for a mutex", 'L', m)) return STAY;
  t = &s.th[s.cur];
  s.mtxOwner[m] = s.cur; t->stat = T_RUN;
  vcAcquire(s, m);
  ret = Value(C(0, 32));
  return NEXT;
}
B(mutex_trylock) {
  uint64_t m = cz(s, A(0), "mutex");
  if (relock(s, m)) { ret = Value(C(0, 32)); return NEXT; }
  if (!visible(s, "trylock", 'T', 0)) return STAY;
  if (s.mtxOwner.count(m)) { ret = Value(C(16, 32)); return NEXT; }
  s.mtxOwner[m] = s.cur; vcAcquire(s, m);
  ret = Value(C(0, 32));
  return NEXT;
}
static void doUnlock(State& s, uint64_t m) {
  auto it = s.mtxOwner.find(m);
  if (it == s.mtxOwner.end() || it->second != s.cur) fail(s, "threads", "unlock of a mutex the thread does not hold");
  auto d = s.mtxDepth.find(m);
  if (d != s.mtxDepth.end() && d->second > 0) { d->second--; return; }
  s.mtxOwner.erase(it);
  vcRelease(s, m);
}
B(mutex_unlock) { doUnlock(s, cz(s, A(0), "mutex")); ret = Value(C(0, 32)); return NEXT; }
// guards of function-local statics: a mutex per guard, plus the byte the compiled code reads first (acquire, not a scheduling point)
static uint64_t guardKey(uint64_t g) { return g ^ (1ull << 63); }
B(guard_acquire) {
  uint64_t g = cz(s, A(0), "guard");
  Thread* t = &s.th[s.cur];
  if (t->stat == T_RUN) { t->stat = T_LOCK; t->obj = g; }
  if (!visible(s, "waiting for the initialisation of a static", 'L', g)) return STAY;
  s.th[s.cur].stat = T_RUN;
  gInAtomic = true;
  const bool done = cz(s, loadScalar(s, A(0), 8), "guard") != 0;
  gInAtomic = false;
  vcAcquire(s, guardKey(g));
  if (!done) s.mtxOwner[g] = s.cur;
  ret = Value(C(done ? 0 : 1, 32));
  return NEXT;
}
B(guard_release) {
  uint64_t g = cz(s, A(0), "guard");
  gInAtomic = true;
  storeScalar(s, A(0), C(1, 8));
  gInAtomic = false;
  s.mtxOwner.erase(g);
  vcRelease(s, guardKey(g));
  return NEXT;
}
B(guard_abort) { uint64_t g = cz(s, A(0), "guard"); s.mtxOwner.erase(g); vcRelease(s, guardKey(g)); return NEXT; }
static Ctl waitOn(State& s, uint64_t cv, const Ex& mp, bool timed, Value& ret) {
  Thread* t = &s.th[s.cur];
  if (t->stat == T_RUN) {
    if (!visible(s, "entering wait", 'E', cv)) return STAY;
    t = &s.th[s.cur];
    resolve(s, C(cv, 64), 1, false, "condvar");
    uint64_t m = cz(s, mp, "mutex");
    doUnlock(s, m);
    t->stat = T_WAIT; t->obj = cv; t->mtx = m; t->signaled = false; t->timed = timed;
  }
  if (!visible(s, "waiting on a condition variable", 'W', cv)) return STAY;
  t = &s.th[s.cur];
  if (!t->signaled) { if (timed && t->timeouts > 0) t->timeouts--; else t->spurious--; }
  s.mtxOwner[t->mtx] = s.cur; t->stat = T_RUN;
  vcAcquire(s, t->mtx);
  ret = Value(C(t->signaled ? 0 : 110, 32));
  return NEXT;
}
B(cv_wait) { Value v; return waitOn(s, cz(s, A(0), "condvar"), s.th[s.cur].stat == T_RUN ? loadScalar(s, A(1), 64) : C(0, 64), false, v); }
B(cond_wait) { Ctl c = waitOn(s, cz(s, A(0), "condvar"), A(1), false, ret); ret = Value(C(0, 32)); return c; }
B(cond_timedwait) { return waitOn(s, cz(s, A(0), "condvar"), A(1), true, ret); }
B(self_id) { ret = Value(C(s.cur + 1, x.w)); return NEXT; }
B(cv_notify_all) {
  uint64_t cv = cz(s, A(0), "condvar");
  if (!visible(s, "notify", 'N', cv)) return STAY;
  resolve(s, C(cv, 64), 1, false, "condvar");
  for (auto& t : s.th) if (t.stat == T_WAIT && t.obj == cv) t.signaled = true;
  return NEXT;
}
B(cv_notify_one) {
  uint64_t cv = cz(s, A(0), "condvar");
  if (!visible(s, "notify", 'N', cv)) return STAY;
  resolve(s, C(cv, 64), 1, false, "condvar");
  std::vector<int> w;
  for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].stat == T_WAIT && s.th[i].obj == cv && !s.th[i].signaled) w.push_back(i);
  if (!oneSchedule())
    for (size_t k = 1; k < w.size(); k++) { State* o = cloneState(s); o->th[w[k]].signaled = true; finishCall(*o, Value()); }
  if (!w.empty()) s.th[w[0]].signaled = true;
  return NEXT;
}
B(thread_start) {
  uint64_t self = cz(s, A(0), "thread"), up = cz(s, A(1), "thread state");
  uint64_t st = cz(s, loadScalar(s, C(up, 64), 64), "thread state");
  uint64_t vt = cz(s, loadScalar(s, C(st, 64), 64), "vtable");
  uint64_t fnp = cz(s, loadScalar(s, C(vt + 16, 64), 64), "vtable slot");
  if (params.count("thread_start_fails") && params["thread_start_fails"] == ++s.nstart) {  // the k-th creation fails
    const Function* F = M->getFunction("vp_rt_throw_thread");
    if (!F) incomplete("runtime lacks vp_rt_throw_thread");
    pushCall(s, getFn(F), {});
    return STAY;
  }
  storeScalar(s, C(up, 64), C(0, 64));
  auto it = faddr.find(fnp);
  if (it == faddr.end()) incomplete("thread entry not resolved");
  int id = s.th.size();
  if (id > 8) incomplete("more than 8 threads");
  s.th.emplace_back();
  Thread& t = s.th[id];
  t.vc = s.th[s.cur].vc;
  t.vc.resize(id + 1, 0);
  t.vc[id] = 1;
  t.spurious = params.count("spurious") ? params["spurious"] : 0;
  t.timeouts = 1;
  s.th[s.cur].vc[s.cur]++;
  s.sawThreads = true;
  if (auto* g = M->getGlobalVariable("__libc_single_threaded")) {  // shared_ptr counts atomically from now on
    gInAtomic = true;
    storeScalar(s, C(gaddr[g], 64), C(0, 8));
    gInAtomic = false;
  }
  storeScalar(s, C(self, 64), C(id + 1, 64));
  int c = s.cur;
  s.cur = id;
  pushCall(s, it->second, {Value(C(st, 64))});
  s.cur = c;
  return NEXT;
}
B(thread_join) {
  uint64_t self = cz(s, A(0), "thread");
  uint64_t id = cz(s, loadScalar(s, C(self, 64), 64), "thread id");
  if (!id || id > s.th.size()) fail(s, "threads", "join of a thread that is not joinable");
  Thread* t = &s.th[s.cur];
  if (t->stat == T_RUN) { t->stat = T_JOIN; t->obj = id - 1; }
  if (!visible(s, "join", 'J', id)) return STAY;
  t = &s.th[s.cur];
  t->stat = T_RUN;
  vcJoin(t->vc, s.th[id - 1].vc);
  storeScalar(s, C(self, 64), C(0, 64));
  return NEXT;
}
B(nop) { if (x.w) ret = Value(C(0, x.w)); return NEXT; }

// ---- harness API -----------------------------------------------------------------------------------------
static void addIn(State& s, char kind, const std::string& nm, std::vector<Ex> b, uint64_t v) {
  auto r = std::make_shared<InRec>();
  r->prev = s.in; r->kind = kind; r->name = nm; r->bytes = std::move(b); r->val = v;
  s.in = r;
}
B(vp_make_symbolic) {
  uint64_t p = cz(s, A(0), "address"), n = cz(s, A(1), "size");
  std::string nm = readCStr(s, A(2));
  std::vector<Ex> b;
  unsigned k = s.nin++;
  for (uint64_t i = 0; i < n; i++) {
    Ex e = namedSym("i" + std::to_string(k) + "." + std::to_string(i), 8);
    b.push_back(e);
    storeScalar(s, C(p + i, 64), e);
  }
  addIn(s, 'S', nm, b, 0);
  return NEXT;
}
B(vp_choose) {
  uint64_t n = cz(s, A(0), "count");
  std::string nm = readCStr(s, A(1));
  if (n == 0) throw PathEnd{"assume"};
  for (uint64_t k = n; k-- > 1;) { State* o = cloneState(s); addIn(*o, 'C', nm, {}, k); finishCall(*o, Value(C(k, x.w))); }
  addIn(s, 'C', nm, {}, 0);
  ret = Value(C(0, x.w));
  return NEXT;
}
static Ex nonzero(const Ex& e) { return e.w() == 1 ? e : lnot(eq(e, C(0, e.w()))); }
B(vp_assume) {
  Ex c = nonzero(A(0));
  if (c.isTrue()) return NEXT;
  if (c.isFalse()) throw PathEnd{"assume"};
  Model m2;
  Res r = checkSat(s.pc, c, s.model, m2);
  if (r == UNKNOWN) incomplete("solver unknown on an assumption");
  if (r == UNSAT) throw PathEnd{"assume"};
  s.model = m2;
  addC(s, c);
  return NEXT;
}
static void doCheck(State& s, const Ex& c, const std::string& msg) {
  auto& k = ST.checks[msg];
  k.evals++;
  if (c.isTrue()) { k.trivial++; return; }
  if (c.isFalse()) { k.failed++; fail(s, "check", msg); }
  Model m2;
  Res r = checkSat(s.pc, lnot(c), s.model, m2);
  if (r == UNSAT) { k.proved++; return; }
  if (r == UNKNOWN) { k.unknown++; ST.incomplete["solver unknown on check: " + msg]++; return; }
  if (!m2.ov.empty()) {
    r = exactify(s.pc, lnot(c), m2);
    if (r == UNSAT) { k.proved++; return; }
    if (r == UNKNOWN) { k.unknown++; ST.incomplete["solver unknown on check: " + msg]++; return; }
  }
  k.failed++;
  report(s, m2, "check", msg, lnot(c));
  Model m3;
  if (checkSat(s.pc, c, s.model, m3) != SAT) throw PathEnd{"violation"};
  s.model = m3;
  addC(s, c);
}
B(vp_check) { doCheck(s, nonzero(A(0)), readCStr(s, A(1))); return NEXT; }
B(vp_check_mem) {
  uint64_t p = cz(s, A(0), "address"), q = cz(s, A(1), "address"), n = cz(s, A(2), "size");
  Ex c = C(1, 1);
  for (uint64_t i = 0; i < n; i++) c = land(eq(loadScalar(s, C(p + i, 64), 8), loadScalar(s, C(q + i, 64), 8)), c);
  doCheck(s, c, readCStr(s, A(3)));
  return NEXT;
}
B(vp_reach) { ST.reach[readCStr(s, A(0))]++; return NEXT; }
B(vp_param) {
  std::string nm = readCStr(s, A(0));
  ret = params.count(nm) ? Value(C((uint64_t)params[nm], x.w)) : Value(A(1));
  return NEXT;
}
B(vp_sparam) {  // copies a string parameter into the buffer, returns its length
  std::string nm = readCStr(s, A(0)), v = sparams.count(nm) ? sparams[nm] : "";
  uint64_t p = cz(s, A(1), "address"), n = cz(s, A(2), "size");
  uint64_t k = 0;
  for (; k + 1 < n && k < v.size(); k++) storeScalar(s, C(p + k, 64), C((uint8_t)v[k], 8));
  if (n) storeScalar(s, C(p + k, 64), C(0, 8));
  ret = Value(C(k, x.w));
  return NEXT;
}
B(vp_sink) {
  uint64_t p = cz(s, A(0), "address"), n = cz(s, A(1), "size");
  auto r = std::make_shared<SinkRec>();
  r->prev = s.sink; r->label = readCStr(s, A(2));
  for (uint64_t i = 0; i < n && i < 4096; i++) r->bytes.push_back(loadScalar(s, C(p + i, 64), 8));
  s.sink = r;
  return NEXT;
}
B(vp_engine) { ret = Value(C(1, x.w)); return NEXT; }
B(vp_concretize) { ret = Value(C(cz(s, A(0), "requested value"), x.w)); return NEXT; }
B(vp_is_symbolic) {  // is any of the n bytes symbolic?
  uint64_t p = cz(s, A(0), "address"), n = cz(s, A(1), "size");
  bool any = false;
  for (uint64_t i = 0; i < n; i++) any |= !loadScalar(s, C(p + i, 64), 8).isC();
  ret = Value(C(any, x.w));
  return NEXT;
}
B(vp_fresh) {  // contract value: nondeterministic bytes that are not harness inputs
  uint64_t p = cz(s, A(0), "address"), n = cz(s, A(1), "size");
  for (uint64_t i = 0; i < n; i++) storeScalar(s, C(p + i, 64), namedSym("c" + std::to_string(s.nfresh) + "." + std::to_string(i), 8));
  s.nfresh++;
  return NEXT;
}
B(vp_digits) {  // the k decimal digits of a value known to have k of them: fresh characters, constrained by vp_define
  uint64_t p = cz(s, A(0), "address"), n = cz(s, A(1), "size");
  uint64_t v = eval(A(2), s.model);
  std::vector<Ex> d;
  for (uint64_t i = 0; i < n; i++) {
    Ex e = namedSym("c" + std::to_string(s.nfresh) + "." + std::to_string(i), 8);
    d.push_back(e);
    storeScalar(s, C(p + i, 64), e);
  }
  for (uint64_t i = n; i--; v /= 10) s.model.set(d[i].n()->aux, '0' + v % 10);
  for (uint64_t i = 0; i < n; i++) { addC(s, ule(C(i == 0 && n > 1 ? '1' : '0', 8), d[i])); addC(s, ule(d[i], C('9', 8))); }
  s.nfresh++;
  return NEXT;
}
B(vp_define) {  // value (over fresh symbols) equals v by construction
  Ex h = A(0), v = A(1);
  if (h.isC() && v.isC()) return NEXT;
  if (eval(h, s.model) != eval(v, s.model)) { incomplete("inconsistent definition"); throw PathEnd{"assume"}; }
  addC(s, eq(h, v));
  s.defs.push_back({h, v});
  return NEXT;
}
B(vp_known) {
  Ex h = A(0);
  if (!h.isC()) for (auto& d : s.defs) if (d.first == h) { ret = Value(d.second); return NEXT; }
  ret = Value(h);
  return NEXT;
}
B(vp_uninit) {  // make the bytes uninitialised again
  uint64_t p = cz(s, A(0), "address"), n = cz(s, A(1), "size");
  for (uint64_t i = 0; i < n; i++) storeScalar(s, C(p + i, 64), namedSym("w" + std::to_string(s.nfresh) + "." + std::to_string(i), 8));
  s.nfresh++;
  return NEXT;
}
B(vp_prune) { throw PathEnd{"assume"}; }
B(vp_unsupported) { incomplete("harness: " + readCStr(s, A(0))); }
B(vp_fail) { fail(s, "check", readCStr(s, A(0))); }
B(vp_dbg) {
  if (getenv("CSE_DEBUG")) fprintf(stderr, "DBG %s: %s\n", readCStr(s, A(0)).c_str(), A(1).isC() ? std::to_string((int64_t)A(1).v).c_str() : str(A(1), 6).c_str());
  return NEXT;
}
B(vp_setmode) { return NEXT; }

// ---- allocation ------------------------------------------------------------------------------------------
static std::string nmNew = "new", nmNewA = "new[]", nmMalloc = "malloc", nmExc = "exception";
static uint64_t allocLimit() { return params.count("alloc_limit") ? params["alloc_limit"] : (1ull << 31); }
static int allocCommon(State& s, const Ex& sz, const std::string* nm, int fam, uint64_t& addr) {  // 0 ok, 1 failed
  uint64_t symLimit = params.count("sym_alloc_limit") ? params["sym_alloc_limit"] : 65536;
  if (!sz.isC()) {
    bool known = false;
    for (auto& k : s.known) if (k.first == sz.n()) known = true;
    if (!known) {
      Ex big = ult(C(symLimit, 64), sz);
      if (decide(s, big)) { ST.notes["allocation of symbolic size above the limit modelled as bad_alloc"]++; return 1; }
    }
  }
  uint64_t n = concretize(s, sz, "allocation size");
  if (n > allocLimit()) { ST.notes["allocation above the limit modelled as bad_alloc"]++; return 1; }
  addr = newObj(s, n, HEAP, nm, fam);
  return 0;
}
B(op_new) { uint64_t p; if (allocCommon(s, A(0), &nmNew, 1, p)) { throwBadAlloc(s); return STAY; } ret = Value(C(p, 64)); return NEXT; }
B(op_newa) { uint64_t p; if (allocCommon(s, A(0), &nmNewA, 2, p)) { throwBadAlloc(s); return STAY; } ret = Value(C(p, 64)); return NEXT; }
B(op_new_nt) { uint64_t p; if (allocCommon(s, A(0), &nmNew, 1, p)) p = 0; ret = Value(C(p, 64)); return NEXT; }
B(c_malloc) { uint64_t p; if (allocCommon(s, A(0), &nmMalloc, 3, p)) p = 0; ret = Value(C(p, 64)); return NEXT; }
static void doSet(State& s, uint64_t p, const Ex& v, uint64_t n);
B(c_calloc) {
  uint64_t n = cz(s, A(0), "calloc") * cz(s, A(1), "calloc"), p;
  if (allocCommon(s, C(n, 64), &nmMalloc, 3, p)) p = 0; else doSet(s, p, C(0, 8), n);
  ret = Value(C(p, 64));
  return NEXT;
}
static void doFree(State& s, uint64_t p, int fam) {
  if (!p) return;
  uint32_t id = idOf(p);
  const Obj* o = p < (1ull << SLOT) ? nullptr : s.mem.get(id);
  if (!o) fail(s, "memory", "release of memory that is not allocated (double free or wild pointer)");
  if (o->kind != HEAP || p != baseOf(id)) fail(s, "memory", "release of a pointer that is not the start of a heap block");
  if (o->afam && o->afam != fam) fail(s, "memory", "mismatched allocation and release functions");
  race(s, id, 0, o->size, true);
  s.mem.release(id);
}
B(op_del) { doFree(s, cz(s, A(0), "delete"), 1); return NEXT; }
B(op_dela) { doFree(s, cz(s, A(0), "delete[]"), 2); return NEXT; }
B(c_free) { doFree(s, cz(s, A(0), "free"), 3); return NEXT; }

// ---- memory functions ------------------------------------------------------------------------------------
static void doSet(State& s, uint64_t p, const Ex& v, uint64_t n) {
  if (!n) return;
  Loc l = resolve(s, C(p, 64), n, true, "memset");
  race(s, l.id, l.off, n, true);
  Obj* o = s.mem.getW(l.id);
  for (uint64_t i = 0; i < n;) {
    uint64_t off = l.off + i;
    unsigned k = off % PG, m = std::min<uint64_t>(PG - k, n - i);
    if (v.isC()) { Page* pg = Mem::pageW(o, off / PG); memset(pg->st + k, 1, m); memset(pg->c + k, (int)v.v, m); }
    else for (unsigned j = 0; j < m; j++) Mem::writeByte(o, off + j, v);
    i += m;
  }
}
static void doCopy(State& s, uint64_t d, uint64_t src, uint64_t n, bool overlapOk) {
  if (!n) return;
  Loc ls = resolve(s, C(src, 64), n, false, "memcpy"), ld = resolve(s, C(d, 64), n, true, "memcpy");
  if (!overlapOk && ls.id == ld.id && src != d && ls.off < ld.off + n && ld.off < ls.off + n) fail(s, "memory", "memcpy with overlapping ranges");
  race(s, ls.id, ls.off, n, false);
  race(s, ld.id, ld.off, n, true);
  std::vector<uint8_t> st(n), c(n);
  std::vector<std::pair<uint64_t, Ex>> sy;
  {
    const Obj* o = s.mem.get(ls.id);
    for (uint64_t i = 0; i < n;) {
      uint64_t off = ls.off + i;
      unsigned k = off % PG, m = std::min<uint64_t>(PG - k, n - i);
      const Page* pg = o->pg[off / PG].get();
      if (!pg) memset(&st[i], 0, m);
      else { memcpy(&st[i], pg->st + k, m); memcpy(&c[i], pg->c + k, m); for (unsigned j = 0; j < m; j++) if (pg->st[k + j] == 2) sy.push_back({i + j, pg->s[k + j]}); }
      i += m;
    }
  }
  if (n <= 4096) for (uint64_t i = 0; i < n; i++) if (st[i] == 0) { Ex e = s.mem.readByte(ls.id, s.mem.get(ls.id), ls.off + i); st[i] = 2; sy.push_back({i, e}); }
  Obj* o = s.mem.getW(ld.id);
  for (uint64_t i = 0; i < n;) {
    uint64_t off = ld.off + i;
    unsigned k = off % PG, m = std::min<uint64_t>(PG - k, n - i);
    Page* pg = Mem::pageW(o, off / PG);
    memcpy(pg->st + k, &st[i], m);
    memcpy(pg->c + k, &c[i], m);
    i += m;
  }
  for (auto& e : sy) Mem::writeByte(o, ld.off + e.first, e.second);
}
B(c_memcpy) { uint64_t n = cz(s, A(2), "memcpy size"), d = cz(s, A(0), "memcpy dst"), p = cz(s, A(1), "memcpy src"); doCopy(s, d, p, n, false); ret = Value(C(d, 64)); return NEXT; }
B(c_memmove) { uint64_t n = cz(s, A(2), "memmove size"), d = cz(s, A(0), "memmove dst"), p = cz(s, A(1), "memmove src"); doCopy(s, d, p, n, true); ret = Value(C(d, 64)); return NEXT; }
B(c_memset) { uint64_t n = cz(s, A(2), "memset size"), d = cz(s, A(0), "memset dst"); doSet(s, d, trunc(A(1), 8), n); ret = Value(C(d, 64)); return NEXT; }
B(c_bcmp) {
  uint64_t n = cz(s, A(2), "bcmp size"), p = cz(s, A(0), "bcmp"), q = cz(s, A(1), "bcmp");
  Ex c = C(1, 1);
  for (uint64_t i = 0; i < n; i++) { Ex e = eq(loadScalar(s, C(p + i, 64), 8), loadScalar(s, C(q + i, 64), 8)); if (e.isFalse()) { c = e; break; } c = land(e, c); }
  ret = Value(ite(c, C(0, 32), C(1, 32)));
  return NEXT;
}
B(c_memcmp) {
  uint64_t n = cz(s, A(2), "memcmp size"), p = cz(s, A(0), "memcmp"), q = cz(s, A(1), "memcmp");
  std::vector<std::pair<Ex, Ex>> v;
  for (uint64_t i = 0; i < n; i++) {
    v.push_back({loadScalar(s, C(p + i, 64), 8), loadScalar(s, C(q + i, 64), 8)});
    if (v.back().first.isC() && v.back().second.isC() && v.back().first.v != v.back().second.v) break;
  }
  Ex r = C(0, 32);
  for (size_t i = v.size(); i-- > 0;) r = ite(eq(v[i].first, v[i].second), r, ite(ult(v[i].first, v[i].second), C(0xffffffffu, 32), C(1, 32)));
  ret = Value(r);
  return NEXT;
}

// ---- exceptions ------------------------------------------------------------------------------------------
B(cxa_alloc) { ret = Value(C(newObj(s, cz(s, A(0), "exception size"), HEAP, &nmExc), 64)); return NEXT; }
B(cxa_free) { return NEXT; }
B(cxa_throw) { uint64_t o = cz(s, A(0), "exception"); s.excType[o] = cz(s, A(1), "typeinfo"); unwind(s, o); return STAY; }
B(cxa_rethrow) { auto& t = s.th[s.cur]; if (t.caught.empty()) fail(s, "terminate", "rethrow without an active exception"); unwind(s, t.caught.back()); return STAY; }
B(cxa_begin) { uint64_t o = cz(s, A(0), "exception"); s.th[s.cur].caught.push_back(o); ret = Value(C(o, 64)); return NEXT; }
B(cxa_end) { auto& t = s.th[s.cur]; if (!t.caught.empty()) t.caught.pop_back(); return NEXT; }
B(cur_exc) { auto& t = s.th[s.cur]; storeScalar(s, A(0), C(t.caught.empty() ? 0 : t.caught.back(), 64)); return NEXT; }
B(rethrow_eptr) { uint64_t o = cz(s, loadScalar(s, A(0), 64), "exception"); if (!o) fail(s, "terminate", "rethrow of a null exception_ptr"); unwind(s, o); return STAY; }
B(eptr_copy) { storeScalar(s, A(0), loadScalar(s, A(1), 64)); ret = a[0]; return NEXT; }
B(eptr_null) { storeScalar(s, A(0), C(0, 64)); return NEXT; }
B(uncaught) { ret = Value(C(0, x.w)); return NEXT; }
B(terminate) { fail(s, "terminate", "std::terminate called"); }
B(c_abort) { fail(s, "terminate", "abort called"); }
B(c_assert) { fail(s, "terminate", "assertion failed"); }
B(purev) { fail(s, "terminate", "pure virtual function called"); }
B(c_errno) {
  auto& e = s.tls[{s.cur, 0}];  // one per thread
  if (!e) { static std::string n = "errno"; e = newObj(s, 4, GLOBAL, &n); storeScalar(s, C(e, 64), C(0, 32)); }
  ret = Value(C(e, 64));
  return NEXT;
}

// ---- numbers ---------------------------------------------------------------------------------------------
static Ex absInt(const Ex& v) { unsigned w = v.w(); return ite(eq(extract(v, w - 1, 1), C(1, 1)), sub(C(0, w), v), v); }
template <int R> static Value rndv(const Value& v) { return Value(mk(FRND, v.e.w(), R, v.e)); }
B(m_round) { ret = rndv<RNA>(a[0]); return NEXT; }
B(m_floor) { ret = rndv<RTN>(a[0]); return NEXT; }
B(m_ceil) { ret = rndv<RTP>(a[0]); return NEXT; }
B(m_trunc) { ret = rndv<RTZ>(a[0]); return NEXT; }
B(m_rint) { ret = rndv<RNE>(a[0]); return NEXT; }
B(m_lround) { ret = Value(mk(FTOSI, 64, 0, mk(FRND, A(0).w(), RNA, A(0)))); return NEXT; }
B(m_lrint) { ret = Value(mk(FTOSI, 64, 0, mk(FRND, A(0).w(), RNE, A(0)))); return NEXT; }
B(m_fabs) { ret = Value(mk(AND, A(0).w(), 0, A(0), C(maskw(A(0).w() - 1), A(0).w()))); return NEXT; }
B(m_sqrt) { ret = Value(mk(FSQRT, A(0).w(), 0, A(0))); return NEXT; }
B(vp_rt_bits_f32) { ret = a[0]; return NEXT; }
// vp_rt_strto(text, which, out double bits, err) -> consumed chars; text must be concrete up to its end
B(vp_rt_strtod) {
  std::string t;
  uint64_t p = cz(s, A(0), "address");
  bool sym = false;
  for (int i = 0; i < 4096; i++) { Ex c = loadScalar(s, C(p + i, 64), 8); if (!c.isC()) { sym = true; break; } if (!c.v) break; t += (char)c.v; }
  if (sym) { ret = Value(C((uint64_t)-1, 64)); return NEXT; }
  char* end = nullptr;
  errno = 0;
  uint64_t bits;
  if (A(1).v == 32) bits = f2b(strtof(t.c_str(), &end)); else bits = d2b(strtod(t.c_str(), &end));
  storeScalar(s, A(2), C(bits, 64));
  storeScalar(s, A(3), C(errno, 32));
  ret = Value(C(end - t.c_str(), 64));
  return NEXT;
}
// vp_rt_fmt(double bits, precision, mode, buf, cap): concrete floating-point formatting (mode 'g','f','e' or 's' shortest float32)
B(vp_rt_fmt) {
  if (!A(0).isC()) { ret = Value(C((uint64_t)-1, 64)); return NEXT; }
  double d = b2d(A(0).v);
  char buf[512];
  int n;
  char mode = (char)A(2).v;
  if (mode == 's') { n = 0; for (int p = 1; p <= 9; p++) { n = snprintf(buf, sizeof buf, "%.*g", p, d); if (strtof(buf, nullptr) == (float)d) break; } }
  else if (mode == 'S') { n = 0; for (int p = 1; p <= 17; p++) { n = snprintf(buf, sizeof buf, "%.*g", p, d); if (strtod(buf, nullptr) == d) break; } }
  else { char f[8] = {'%', '.', '*', mode, 0}; n = snprintf(buf, sizeof buf, f, (int)A(1).v, d); }
  uint64_t p = cz(s, A(3), "address"), cap = cz(s, A(4), "capacity");
  for (int i = 0; i < n && i < (int)cap; i++) storeScalar(s, C(p + i, 64), C((uint8_t)buf[i], 8));
  ret = Value(C(n, 64));
  return NEXT;
}
// snprintf: the format and the numbers must be concrete (a symbolic floating value printed exactly becomes a token, as in
// the runtime's to_chars); the bytes of strings may be symbolic
static uint64_t fmtInto(State& s, uint64_t dst, uint64_t cap, std::vector<Value>& a, size_t ai) {
  std::vector<Ex> out;
  auto put = [&](const std::string& t) { for (char c : t) out.push_back(C((uint8_t)c, 8)); };
  uint64_t f = cz(s, a[ai++].e, "format");
  auto ch = [&](uint64_t p) { return (char)cz(s, loadScalar(s, C(p, 64), 8), "format"); };
  for (;; f++) {
    char c = ch(f);
    if (!c) break;
    if (c != '%') { put(std::string(1, c)); continue; }
    c = ch(++f);
    if (c == '%') { put("%"); continue; }
    std::string spec = "%";
    int prec = -1;
    auto num = [&] {
      if (c == '*') { int v = (int)cz(s, a.at(ai++).e, "width"); spec += std::to_string(v); c = ch(++f); return v; }
      int v = 0;
      while (isdigit(c)) { v = v * 10 + c - '0'; spec += c; c = ch(++f); }
      return v;
    };
    while (strchr("-+ #0", c)) { spec += c; c = ch(++f); }
    num();
    if (c == '.') { spec += c; c = ch(++f); prec = num(); }
    while (strchr("hlzjtq", c)) c = ch(++f);
    char buf[512];
    if (ai >= a.size()) fail(s, "memory", "printf format with too few arguments");
    const Ex v = a[ai++].e;
    if (strchr("diuxXoc", c)) {
      if (!v.isC()) incomplete("printf of a symbolic integer");
      long long w = c == 'c' || c == 'd' || c == 'i' ? (v.w() >= 64 ? (long long)v.v : (long long)(int32_t)(uint32_t)v.v) : (long long)v.v;
      snprintf(buf, sizeof buf, (spec + (c == 'c' ? "" : "ll") + c).c_str(), w);
      put(buf);
    } else if (strchr("eEfFgG", c)) {
      if (v.isC()) { snprintf(buf, sizeof buf, (spec + c).c_str(), b2d(v.v)); put(buf); continue; }
      if (prec < 9) incomplete("printf with limited precision of a symbolic value");
      const bool f32 = prec < 17;
      Ex b = f32 ? mk(FCVT, 32, 0, v) : v;
      put(f32 ? "0_f" : "0_d");
      for (unsigned i = 0; i < b.w() / 4; i++) out.push_back(add(C('A', 8), zext(extract(b, 4 * i, 4), 8)));
    } else if (c == 's') {
      uint64_t p = cz(s, v, "string");
      for (int i = 0; prec < 0 || i < prec; i++) {
        Ex e = loadScalar(s, C(p + i, 64), 8);
        if (e.isC() ? !e.v : cz(s, eq(e, C(0, 8)), "string end")) break;
        out.push_back(e);
      }
    } else if (c == 'p') put("0x0");
    else incomplete("printf conversion");
  }
  for (size_t i = 0; i < out.size() && i + 1 < cap; i++) storeScalar(s, C(dst + i, 64), out[i]);
  if (cap) storeScalar(s, C(dst + std::min<uint64_t>(out.size(), cap - 1), 64), C(0, 8));
  return out.size();
}
B(c_snprintf) { ret = Value(C(fmtInto(s, cz(s, A(0), "buffer"), cz(s, A(1), "size"), a, 2), 32)); return NEXT; }
B(c_sprintf) { ret = Value(C(fmtInto(s, cz(s, A(0), "buffer"), ~0ull, a, 1), 32)); return NEXT; }
B(c_fwrite) { ret = a[2]; return NEXT; }
B(vp_rt_is_conc) { ret = Value(C(A(0).isC(), x.w)); return NEXT; }

static std::vector<Builtin> builtins = {
  {"vp_make_symbolic", vp_make_symbolic}, {"vp_choose", vp_choose}, {"vp_assume", vp_assume}, {"vp_check", vp_check}, {"vp_check_mem", vp_check_mem},
  {"vp_reach", vp_reach}, {"vp_param", vp_param}, {"vp_sparam", vp_sparam}, {"vp_sink", vp_sink}, {"vp_engine", vp_engine}, {"vp_concretize", vp_concretize},
  {"vp_is_symbolic", vp_is_symbolic}, {"vp_fresh", vp_fresh}, {"vp_uninit", vp_uninit}, {"vp_digits", vp_digits}, {"vp_define", vp_define}, {"vp_known", vp_known}, {"vp_prune", vp_prune}, {"vp_unsupported", vp_unsupported}, {"vp_fail", vp_fail}, {"vp_dbg", vp_dbg},
  {"vp_rt_strtod", vp_rt_strtod}, {"vp_rt_fmt", vp_rt_fmt}, {"vp_rt_is_conc", vp_rt_is_conc}, {"vp_rt_is_conc32", vp_rt_is_conc},
  {"__cxa_guard_acquire", guard_acquire}, {"__cxa_guard_release", guard_release}, {"__cxa_guard_abort", guard_abort},
  {"pthread_cond_wait", cond_wait}, {"pthread_cond_clockwait", cond_timedwait}, {"pthread_cond_timedwait", cond_timedwait}, {"pthread_cond_signal", cv_notify_one}, {"pthread_cond_broadcast", cv_notify_all},
  {"pthread_cond_init", nop}, {"pthread_cond_destroy", nop}, {"pthread_self", self_id}, {"sched_yield", nop}, {"nanosleep", nop}, {"clock_nanosleep", nop}, {"usleep", nop},
  {"snprintf", c_snprintf}, {"sprintf", c_sprintf}, {"printf", nop}, {"fprintf", nop}, {"puts", nop}, {"fputs", nop}, {"putchar", nop}, {"fputc", nop}, {"putc", nop}, {"fflush", nop}, {"fwrite", c_fwrite},
  {"pthread_mutex_lock", mutex_lock}, {"pthread_mutex_unlock", mutex_unlock}, {"pthread_mutex_trylock", mutex_trylock}, {"pthread_mutex_init", nop}, {"pthread_mutex_destroy", nop},
  {"_ZNSt18condition_variableC1Ev", nop}, {"_ZNSt18condition_variableC2Ev", nop}, {"_ZNSt18condition_variableD1Ev", nop}, {"_ZNSt18condition_variableD2Ev", nop},
  {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", cv_wait}, {"_ZNSt18condition_variable10notify_oneEv", cv_notify_one}, {"_ZNSt18condition_variable10notify_allEv", cv_notify_all},
  {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", thread_start}, {"_ZNSt6thread4joinEv", thread_join},
  {"_ZNSt6thread6_StateD2Ev", nop}, {"_ZNSt6thread6_StateD1Ev", nop}, {"_ZNSt6thread6_StateD0Ev", nop},
  {"_Znwm", op_new}, {"_Znam", op_newa}, {"_ZnwmSt11align_val_t", op_new}, {"_ZnamSt11align_val_t", op_newa}, {"_ZnwmRKSt9nothrow_t", op_new_nt},
  {"_ZdlPv", op_del}, {"_ZdlPvm", op_del}, {"_ZdaPv", op_dela}, {"_ZdaPvm", op_dela}, {"_ZdlPvSt11align_val_t", op_del}, {"_ZdlPvmSt11align_val_t", op_del}, {"_ZdaPvSt11align_val_t", op_dela}, {"_ZdaPvmSt11align_val_t", op_dela},
  {"malloc", c_malloc}, {"calloc", c_calloc}, {"free", c_free},
  {"memcpy", c_memcpy}, {"memmove", c_memmove}, {"memset", c_memset}, {"bcmp", c_bcmp}, {"memcmp", c_memcmp},
  {"__cxa_allocate_exception", cxa_alloc}, {"__cxa_free_exception", cxa_free}, {"__cxa_throw", cxa_throw}, {"__cxa_rethrow", cxa_rethrow}, {"__cxa_begin_catch", cxa_begin}, {"__cxa_end_catch", cxa_end},
  {"_ZSt17current_exceptionv", cur_exc}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", rethrow_eptr},
  {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", nop}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", nop}, {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", eptr_copy}, {"_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", eptr_copy},
  {"_ZNSt15__exception_ptr13exception_ptraSERKS0_", eptr_copy}, {"_ZNSt15__exception_ptr13exception_ptrD1Ev", nop}, {"_ZNSt15__exception_ptr13exception_ptrD2Ev", nop}, {"_ZNSt15__exception_ptr13exception_ptrC1Ev", eptr_null},
  {"_ZSt18uncaught_exceptionv", uncaught}, {"_ZSt19uncaught_exceptionsv", uncaught}, {"_ZSt9terminatev", terminate}, {"abort", c_abort}, {"__assert_fail", c_assert}, {"__cxa_pure_virtual", purev}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", c_assert},
  {"__cxa_atexit", nop}, {"__errno_location", c_errno}, {"_ZNSt8ios_base4InitC1Ev", nop}, {"_ZNSt8ios_base4InitD1Ev", nop}, {"__gxx_personality_v0", nop},
  {"round", m_round}, {"roundf", m_round}, {"floor", m_floor}, {"floorf", m_floor}, {"ceil", m_ceil}, {"ceilf", m_ceil}, {"trunc", m_trunc}, {"truncf", m_trunc}, {"rint", m_rint}, {"rintf", m_rint}, {"nearbyint", m_rint}, {"nearbyintf", m_rint},
  {"lround", m_lround}, {"lroundf", m_lround}, {"llround", m_lround}, {"llroundf", m_lround}, {"lrint", m_lrint}, {"lrintf", m_lrint}, {"llrint", m_lrint}, {"llrintf", m_lrint}, {"fabs", m_fabs}, {"fabsf", m_fabs}, {"sqrt", m_sqrt}, {"sqrtf", m_sqrt},
};
static int builtinId(const std::string& n) {
  static std::unordered_map<std::string, int> m;
  if (m.empty()) for (size_t i = 0; i < builtins.size(); i++) m[builtins[i].name] = i;
  auto it = m.find(n);
  if (it == m.end()) return -2;
  return it->second;
}

// ---- intrinsics ------------------------------------------------------------------------------------------
static Ex popcnt(const Ex& v) { unsigned w = v.w(); Ex r = C(0, w); for (unsigned i = 0; i < w; i++) r = add(r, zext(extract(v, i, 1), w)); return r; }
static Ex cttz(const Ex& v) { unsigned w = v.w(); Ex r = C(w, w); for (unsigned i = w; i-- > 0;) r = ite(eq(extract(v, i, 1), C(1, 1)), C(i, w), r); return r; }
static Ex ctlz(const Ex& v) { unsigned w = v.w(); Ex r = C(w, w); for (unsigned i = 0; i < w; i++) r = ite(eq(extract(v, i, 1), C(1, 1)), C(w - 1 - i, w), r); return r; }
static Value map1(const Value& v, const std::function<Ex(const Ex&)>& f) {
  if (!v.a) return Value(f(v.e));
  Value r = Value::agg(v.a->size());
  for (size_t i = 0; i < v.a->size(); i++) (*r.a)[i] = Value(f((*v.a)[i].e));
  return r;
}
static Value map2(const Value& p, const Value& q, const std::function<Ex(const Ex&, const Ex&)>& f) {
  if (!p.a) return Value(f(p.e, q.e));
  Value r = Value::agg(p.a->size());
  for (size_t i = 0; i < p.a->size(); i++) (*r.a)[i] = Value(f((*p.a)[i].e, (*q.a)[i].e));
  return r;
}
static Value pairv(const Ex& p, const Ex& q) { Value v = Value::agg(2); (*v.a)[0] = Value(p); (*v.a)[1] = Value(q); return v; }
static bool intrinsic(State& s, DInst& x, DFunc* d, std::vector<Value>& a, Value& ret) {
  auto* I = dyn_cast<IntrinsicInst>(x.I);
  Intrinsic::ID id = I ? I->getIntrinsicID() : d->F->getIntrinsicID();
  auto fr = [&](int mode) { ret = map1(a[0], [&](const Ex& e) { return mk(FRND, e.w(), mode, e); }); return true; };
  auto roundImm = [&](uint64_t imm, const Ex& e) -> Ex {
    static const int md[4] = {RNE, RTN, RTP, RTZ};
    return mk(FRND, e.w(), (imm & 4) ? RNE : md[imm & 3], e);
  };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::vaend: return true;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: ret = Value(C(0, 64)); return true;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { uint64_t n = cz(s, A(2), "memcpy size"), dd = cz(s, A(0), "memcpy dst"), p = cz(s, A(1), "memcpy src"); doCopy(s, dd, p, n, true); return true; }
    case Intrinsic::memmove: { uint64_t n = cz(s, A(2), "memmove size"), dd = cz(s, A(0), "memmove dst"), p = cz(s, A(1), "memmove src"); doCopy(s, dd, p, n, true); return true; }
    case Intrinsic::memset: { uint64_t n = cz(s, A(2), "memset size"), dd = cz(s, A(0), "memset dst"); doSet(s, dd, A(1), n); return true; }
    case Intrinsic::abs: ret = map1(a[0], absInt); return true;
    case Intrinsic::umin: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(ult(q, p), q, p); }); return true;
    case Intrinsic::umax: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(ult(p, q), q, p); }); return true;
    case Intrinsic::smin: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(mk(SLT, 1, 0, q, p), q, p); }); return true;
    case Intrinsic::smax: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(mk(SLT, 1, 0, p, q), q, p); }); return true;
    case Intrinsic::ctpop: ret = map1(a[0], popcnt); return true;
    case Intrinsic::cttz: ret = map1(a[0], cttz); return true;
    case Intrinsic::ctlz: ret = map1(a[0], ctlz); return true;
    case Intrinsic::bswap: ret = map1(a[0], [](const Ex& e) { unsigned n = e.w() / 8; Ex r = extract(e, 0, 8); for (unsigned i = 1; i < n; i++) r = concat(r, extract(e, 8 * i, 8)); return r; }); return true;
    case Intrinsic::bitreverse: ret = map1(a[0], [](const Ex& e) { Ex r = extract(e, 0, 1); for (unsigned i = 1; i < e.w(); i++) r = concat(r, extract(e, i, 1)); return r; }); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = A(0).w();
      Ex cat = concat(A(0), A(1)), sh = mk(UREM, w, 0, A(2), C(w, w)), z = zext(sh, 2 * w);
      ret = id == Intrinsic::fshl ? Value(extract(mk(SHL, 2 * w, 0, cat, z), w, w)) : Value(extract(mk(LSHR, 2 * w, 0, cat, z), 0, w));
      return true; }
    case Intrinsic::uadd_with_overflow: { Ex r = add(A(0), A(1)); ret = pairv(r, ult(r, A(0))); return true; }
    case Intrinsic::usub_with_overflow: { ret = pairv(sub(A(0), A(1)), ult(A(0), A(1))); return true; }
    case Intrinsic::umul_with_overflow: { unsigned w = A(0).w(); Ex p = mk(MUL, 2 * w, 0, zext(A(0), 2 * w), zext(A(1), 2 * w)); Ex hi = extract(p, w, w); ret = pairv(extract(p, 0, w), lnot(eq(hi, C(0, w)))); return true; }
    case Intrinsic::sadd_with_overflow: { unsigned w = A(0).w(); Ex p = add(sext(A(0), w + 1), sext(A(1), w + 1)); Ex r = extract(p, 0, w); ret = pairv(r, lnot(eq(extract(p, w, 1), extract(p, w - 1, 1)))); return true; }
    case Intrinsic::ssub_with_overflow: { unsigned w = A(0).w(); Ex p = sub(sext(A(0), w + 1), sext(A(1), w + 1)); Ex r = extract(p, 0, w); ret = pairv(r, lnot(eq(extract(p, w, 1), extract(p, w - 1, 1)))); return true; }
    case Intrinsic::smul_with_overflow: { unsigned w = A(0).w(); Ex p = mk(MUL, 2 * w, 0, sext(A(0), 2 * w), sext(A(1), 2 * w)); ret = pairv(extract(p, 0, w), lnot(eq(sext(extract(p, 0, w), 2 * w), p))); return true; }
    case Intrinsic::usub_sat: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(ult(p, q), C(0, p.w()), sub(p, q)); }); return true;
    case Intrinsic::uadd_sat: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { Ex r = add(p, q); return ite(ult(r, p), C(maskw(p.w()), p.w()), r); }); return true;
    case Intrinsic::round: return fr(RNA);
    case Intrinsic::floor: return fr(RTN);
    case Intrinsic::ceil: return fr(RTP);
    case Intrinsic::trunc: return fr(RTZ);
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return fr(RNE);
    case Intrinsic::lround: case Intrinsic::llround: ret = Value(mk(FTOSI, x.w, 0, mk(FRND, A(0).w(), RNA, A(0)))); return true;
    case Intrinsic::lrint: case Intrinsic::llrint: ret = Value(mk(FTOSI, x.w, 0, mk(FRND, A(0).w(), RNE, A(0)))); return true;
    case Intrinsic::fabs: ret = map1(a[0], [](const Ex& e) { return mk(AND, e.w(), 0, e, C(maskw(e.w() - 1), e.w())); }); return true;
    case Intrinsic::sqrt: ret = map1(a[0], [](const Ex& e) { return mk(FSQRT, e.w(), 0, e); }); return true;
    case Intrinsic::copysign: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { unsigned w = p.w(); return concat(extract(q, w - 1, 1), extract(p, 0, w - 1)); }); return true;
    case Intrinsic::fma: ret = Value(mk(FFMA, x.w, 0, A(0), A(1), A(2))); return true;
    case Intrinsic::fmuladd: ret = Value(mk(FADD, x.w, 0, mk(FMUL, x.w, 0, A(0), A(1)), A(2))); return true;
    case Intrinsic::minnum: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(mk(FUNO, 1, 0, p), q, ite(mk(FUNO, 1, 0, q), p, ite(mk(FOLT, 1, 0, q, p), q, p))); }); return true;
    case Intrinsic::maxnum: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(mk(FUNO, 1, 0, p), q, ite(mk(FUNO, 1, 0, q), p, ite(mk(FOLT, 1, 0, p, q), q, p))); }); return true;
    case Intrinsic::is_fpclass: {
      uint64_t m = A(1).v; unsigned w = A(0).w(), mant = w == 32 ? 23 : 52;
      Ex ex = extract(A(0), mant, w - mant - 1), fr2 = extract(A(0), 0, mant), sg = extract(A(0), w - 1, 1);
      Ex exMax = eq(ex, C(maskw(w - mant - 1), w - mant - 1)), exZ = eq(ex, C(0, w - mant - 1)), frZ = eq(fr2, C(0, mant)), q = extract(A(0), mant - 1, 1), neg = sg;
      Ex r = C(0, 1);
      auto put = [&](unsigned b, const Ex& c) { if (m >> b & 1) r = lor(r, c); };
      Ex nan = land(exMax, lnot(frZ)), inf = land(exMax, frZ), zero = land(exZ, frZ), sub2 = land(exZ, lnot(frZ)), norm = land(lnot(exMax), lnot(exZ));
      put(0, land(nan, lnot(q))); put(1, land(nan, q)); put(2, land(inf, neg)); put(3, land(norm, neg)); put(4, land(sub2, neg)); put(5, land(zero, neg));
      put(6, land(zero, lnot(neg))); put(7, land(sub2, lnot(neg))); put(8, land(norm, lnot(neg))); put(9, land(inf, lnot(neg)));
      ret = Value(r);
      return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: ret = a[0]; return true;
    case Intrinsic::is_constant: ret = Value(C(0, 1)); return true;
    case Intrinsic::objectsize: ret = Value(C(maskw(x.w), x.w)); return true;
    case Intrinsic::threadlocal_address: {  // thread 0 uses the global itself, other threads a copy of its initial value
      ret = a[0];
      if (!s.cur || !a[0].e.isC()) return true;
      auto& p = s.tls[{s.cur, a[0].e.v}];
      if (!p) {
        auto* g = dyn_cast_or_null<GlobalVariable>(gvByAddr.count(a[0].e.v) ? gvByAddr[a[0].e.v] : nullptr);
        if (!g || !g->hasInitializer()) incomplete("thread-local variable not resolved");
        static std::string nm = "thread-local";
        p = newObj(s, DL->getTypeAllocSize(g->getValueType()), GLOBAL, &nm);
        storeTy(s, C(p, 64), constant(g->getInitializer()), g->getValueType());
      }
      ret = Value(C(p, 64));
      return true;
    }
    case Intrinsic::eh_typeid_for: ret = Value(C(selOf(A(0).v), 32)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "trap", "trap instruction reached");
    case Intrinsic::x86_sse2_cvtps2dq: ret = map1(a[0], [](const Ex& e) { return mk(FTOSI, 32, 0, mk(FRND, 32, RNE, e)); }); return true;
    case Intrinsic::x86_sse2_cvttps2dq: ret = map1(a[0], [](const Ex& e) { return mk(FTOSI, 32, 0, e); }); return true;
    case Intrinsic::x86_sse41_round_ps: case Intrinsic::x86_sse41_round_pd: { uint64_t imm = A(1).v; ret = map1(a[0], [&](const Ex& e) { return roundImm(imm, e); }); return true; }
    case Intrinsic::x86_sse_cvtss2si64: ret = Value(mk(FTOSI, 64, 0, mk(FRND, 32, RNE, (*a[0].a)[0].e))); return true;
    case Intrinsic::x86_sse_cvtss2si: ret = Value(mk(FTOSI, 32, 0, mk(FRND, 32, RNE, (*a[0].a)[0].e))); return true;
    case Intrinsic::x86_sse2_cvtsd2si64: ret = Value(mk(FTOSI, 64, 0, mk(FRND, 64, RNE, (*a[0].a)[0].e))); return true;
    case Intrinsic::x86_sse_min_ps: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(mk(FOLT, 1, 0, p, q), p, q); }); return true;
    case Intrinsic::x86_sse_max_ps: ret = map2(a[0], a[1], [](const Ex& p, const Ex& q) { return ite(mk(FOLT, 1, 0, q, p), p, q); }); return true;
    case Intrinsic::x86_sse41_blendvps: { ret = Value::agg(4); for (int i = 0; i < 4; i++) (*ret.a)[i] = Value(ite(eq(extract((*a[2].a)[i].e, 31, 1), C(1, 1)), (*a[1].a)[i].e, (*a[0].a)[i].e)); return true; }
    case Intrinsic::x86_sse_movmsk_ps: { Ex r = C(0, 32); for (int i = 0; i < 4; i++) r = mk(OR, 32, 0, r, mk(SHL, 32, 0, zext(extract((*a[0].a)[i].e, 31, 1), 32), C(i, 32))); ret = Value(r); return true; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
      Ex r = (*a[0].a)[0].e;
      for (size_t i = 1; i < a[0].a->size(); i++) {
        Ex v = (*a[0].a)[i].e;
        switch (id) {
          case Intrinsic::vector_reduce_add: r = add(r, v); break;
          case Intrinsic::vector_reduce_or: r = mk(OR, r.w(), 0, r, v); break;
          case Intrinsic::vector_reduce_and: r = mk(AND, r.w(), 0, r, v); break;
          case Intrinsic::vector_reduce_xor: r = mk(XOR, r.w(), 0, r, v); break;
          case Intrinsic::vector_reduce_umax: r = ite(ult(r, v), v, r); break;
          default: r = ite(ult(v, r), v, r); break;
        }
      }
      ret = Value(r);
      return true; }
    default: return false;
  }
}
#undef B
#undef A
