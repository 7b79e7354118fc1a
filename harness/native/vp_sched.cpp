// Deterministic scheduler of the native replay: one thread runs at a time, and the thread that goes on at each
// synchronisation operation is the one the engine's schedule names.  The rules mirror engine/builtins.inc; the
// operations are intercepted with --wrap in the objects built from /repo.
//   With -DVP_TSAN the hand-over is invisible to ThreadSanitizer (raw futexes, no instrumentation) and only the
//   program's own synchronisation is annotated, so that races show whatever the schedule.
#include "vp_sched.h"
#include <cerrno>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <linux/futex.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <stdexcept>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include "../vp.h"
#ifdef VP_TSAN
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#define ACQ(p) __tsan_acquire(p)
#define REL(p) __tsan_release(p)
#else
#define ACQ(p) (void)(p)
#define REL(p) (void)(p)
#endif
namespace {
enum St { RUN, LOCK, WAIT, JOIN, DONE };
struct T { St st; void* obj; void* mtx; bool signaled; int spurious; int sem; pthread_t pt; bool timed = false; int timeouts = 1; };
T th[16];
int nth = 0, cur = 0, starts = 0;
bool on = false;
const int* sch;
size_t nsch, pos;
thread_local int self = 0;
void* owned[64];
int owner[64], depth[64];
int nowned = 0;
long vpFail = 0, vpSpurious = 0;
void die(const char* m, int rc) { (void)!write(1, m, __builtin_strlen(m)); (void)!write(1, "\n", 1); _exit(rc); }
bool held(void* m) { for (int i = 0; i < nowned; i++) if (owned[i] == m) return true; return false; }
void take(void* m) { if (nowned == 64) die("SCHED too many mutexes", 4); owned[nowned] = m; owner[nowned] = self; depth[nowned++] = 0; }
// a mutex of the recursive kind that the thread already holds
bool relock(pthread_mutex_t* m) { for (int i = 0; i < nowned; i++) if (owned[i] == m && owner[i] == self && (m->__data.__kind & 3) == 1) { depth[i]++; return true; } return false; }
void drop(void* m) { for (int i = 0; i < nowned; i++) if (owned[i] == m) { if (depth[i]) { depth[i]--; return; } nowned--; owned[i] = owned[nowned]; owner[i] = owner[nowned]; depth[i] = depth[nowned]; return; } die("CHECK-FAILED unlock of a mutex that is not held", 10); }
void down(int* a) { while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, a, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_SEQ_CST); }
void up(int* a) { __atomic_store_n(a, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
bool runnable(int i) {
  T& t = th[i];
  switch (t.st) {
    case RUN: return true;
    case LOCK: return !held(t.obj);
    case WAIT: return (t.signaled || t.spurious > 0 || (t.timed && t.timeouts > 0)) && !held(t.mtx);
    case JOIN: return th[(long)t.obj].st == DONE;
    default: return false;
  }
}
// picks the next thread; returns when this one is to go on (never, when it is done)
bool timePasses() {
  bool any = false;
  for (int i = 0; i < nth; i++) any = any || runnable(i);
  for (int i = 0; !any && i < nth; i++) if (th[i].st == WAIT && th[i].timed && !held(th[i].mtx)) { th[i].timeouts++; return true; }
  return any;
}
void reschedule() {
  int n = -1;
  timePasses();
  if (pos < nsch) { n = sch[pos++]; if (n >= nth || !runnable(n)) die("SCHED diverged", 4); }
  else {
    if (runnable(cur)) n = cur;
    for (int i = 0; n < 0 && i < nth; i++) if (runnable(i)) n = i;
    if (n < 0) die("CHECK-FAILED deadlock: no thread can make progress", 10);
  }
  cur = n;
  if (n == self) return;
  up(&th[n].sem);
  if (th[self].st != DONE) down(&th[self].sem);
}
void visible() {
  bool alone = true;
  for (int i = 0; i < nth; i++) if (i != self && th[i].st != DONE) alone = false;
  if (alone) { if (!timePasses()) die("CHECK-FAILED deadlock: no thread can make progress", 10); return; }
  reschedule();
}
bool wait(void* cv, void* m, bool timed) {
  visible();
  REL(m);
  drop(m);
  T& t = th[self];
  t.st = WAIT; t.obj = cv; t.mtx = m; t.signaled = false; t.timed = timed;
  visible();
  if (!t.signaled) { if (timed && t.timeouts > 0) t.timeouts--; else t.spurious--; }
  t.st = RUN;
  take(m);
  ACQ(m);
  return t.signaled;
}
struct State { virtual ~State(); virtual void _M_run() = 0; };  // the layout of std::thread::_State
struct Start { State* st; int id; };
void* entry(void* p) {
  Start* s = (Start*)p;
  self = s->id;
  down(&th[self].sem);
  s->st->_M_run();
  delete s->st;
  th[self].st = DONE;
  reschedule();
  return nullptr;
}
}  // namespace
extern "C" {
void vp_sched_start(const int* s, size_t n) {
  sch = s; nsch = n; pos = 0; on = true;
  nth = 1; th[0] = T{RUN, nullptr, nullptr, false, 0, 0, pthread_self()};
  vpFail = vp_param("thread_start_fails", 0);
  vpSpurious = vp_param("spurious", 0);
}
// the harness is over: every thread it started must be, too
void vp_sched_end() {
  if (!on) return;
  for (int i = 1; i < nth; i++) if (th[i].st != DONE) die("CHECK-FAILED harness finished while a thread is still running", 10);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on) return __real_pthread_mutex_lock(m);
  if (relock(m)) return 0;
  th[self].st = LOCK; th[self].obj = m;
  visible();
  th[self].st = RUN;
  take(m);
  ACQ(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on) return __real_pthread_mutex_trylock(m);
  if (relock(m)) return 0;
  visible();
  if (held(m)) return 16;
  take(m);
  ACQ(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on) return __real_pthread_mutex_unlock(m);
  REL(m);
  drop(m);
  return 0;
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, void*);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, std::unique_lock<std::mutex>* l) {
  if (!on) return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, l);
  wait(cv, l->mutex()->native_handle(), false);
}
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  if (!on) return __real_pthread_cond_clockwait(cv, m, c, t);
  return wait(cv, m, true) ? 0 : ETIMEDOUT;
}
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* t) {
  if (!on) return __real_pthread_cond_timedwait(cv, m, t);
  return wait(cv, m, true) ? 0 : ETIMEDOUT;
}
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __wrap__ZNSt18condition_variable10notify_oneEv(void* cv) {
  if (!on) return __real__ZNSt18condition_variable10notify_oneEv(cv);
  visible();
  for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].obj == cv && !th[i].signaled) { th[i].signaled = true; return; }
}
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable10notify_allEv(void* cv) {
  if (!on) return __real__ZNSt18condition_variable10notify_allEv(cv);
  visible();
  for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].obj == cv) th[i].signaled = true;
}
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread*, void*, void (*)());
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t, State** st, void (*dep)()) {
  if (!on) return __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, st, dep);
  if (vpFail && ++starts == vpFail) throw std::runtime_error("thread: Resource temporarily unavailable");
  if (nth == 16) die("SCHED too many threads", 4);
  const int id = nth++;
  th[id] = T{RUN, nullptr, nullptr, false, (int)vpSpurious, 0, 0};
  Start* s = new Start{*st, id};
  *st = nullptr;
  if (pthread_create(&th[id].pt, nullptr, entry, s)) die("SCHED pthread_create", 4);
  *(uint64_t*)t = (uint64_t)id + 1;
}
void __real__ZNSt6thread4joinEv(std::thread*);
void __wrap__ZNSt6thread4joinEv(std::thread* t) {
  if (!on) return __real__ZNSt6thread4joinEv(t);
  const uint64_t id = *(uint64_t*)t;
  if (!id) die("CHECK-FAILED join of a thread that is not joinable", 10);
  th[self].st = JOIN; th[self].obj = (void*)(id - 1);
  visible();
  th[self].st = RUN;
  pthread_join(th[id - 1].pt, nullptr);
  *(uint64_t*)t = 0;
}
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!on) return __real___cxa_guard_acquire(g);
  th[self].st = LOCK; th[self].obj = g;
  visible();
  th[self].st = RUN;
  ACQ(g);
  if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) return 0;
  take(g);
  return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  if (!on) return __real___cxa_guard_release(g);
  REL(g);
  __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE);
  drop(g);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  if (!on) return __real___cxa_guard_abort(g);
  REL(g);
  drop(g);
}
}
#define VP_RWSYM "__wrap_"
#define VP_REAL(f, a) if (!on) return __real_##f a;
extern "C" {
int __real_pthread_rwlock_wrlock(void*);
int __real_pthread_rwlock_rdlock(void*);
int __real_pthread_rwlock_trywrlock(void*);
int __real_pthread_rwlock_tryrdlock(void*);
int __real_pthread_rwlock_unlock(void*);
int __real_pthread_once(int*, void (*)());
}
#include "rwlock.inc"
