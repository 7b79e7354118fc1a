// A reader-writer lock and one-time initialisation on top of mutexes and condition variables.  The engine executes this
// code as the runtime's, and the native schedule replay as its replacement of the real functions, so that both meet the
// same scheduling points.  VP_RWSYM is the prefix of the symbols, VP_REAL(name, args) passes a call on while the replay's
// scheduler is off; the state lives in the lock itself.
namespace {
struct VpRw { int readers, writer; char mtx[8], cv[8]; };
struct VpUl { void* m; bool owns; };
}
extern "C" {
void vp_cv_wait(void*, VpUl*) __asm__(VP_RWSYM "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE");
void vp_cv_all(void*) __asm__(VP_RWSYM "_ZNSt18condition_variable10notify_allEv");
int vp_rw_lock(void*) __asm__(VP_RWSYM "pthread_mutex_lock");
int vp_rw_unlock(void*) __asm__(VP_RWSYM "pthread_mutex_unlock");
int vp_rwl_wrlock(VpRw* l) __asm__(VP_RWSYM "pthread_rwlock_wrlock");
int vp_rwl_rdlock(VpRw* l) __asm__(VP_RWSYM "pthread_rwlock_rdlock");
int vp_rwl_tryw(VpRw* l) __asm__(VP_RWSYM "pthread_rwlock_trywrlock");
int vp_rwl_tryr(VpRw* l) __asm__(VP_RWSYM "pthread_rwlock_tryrdlock");
int vp_rwl_unlock(VpRw* l) __asm__(VP_RWSYM "pthread_rwlock_unlock");
int vp_once(int* o, void (*f)()) __asm__(VP_RWSYM "pthread_once");
static int vpRw(VpRw* l, bool write, bool wait) {
  vp_rw_lock(l->mtx);
  VpUl u{l->mtx, true};
  while (l->writer || (write && l->readers)) {
    if (!wait) { vp_rw_unlock(l->mtx); return 16; }
    vp_cv_wait(l->cv, &u);
  }
  if (write) l->writer = 1; else l->readers++;
  vp_rw_unlock(l->mtx);
  return 0;
}
int vp_rwl_wrlock(VpRw* l) { VP_REAL(pthread_rwlock_wrlock, (l)) return vpRw(l, true, true); }
int vp_rwl_rdlock(VpRw* l) { VP_REAL(pthread_rwlock_rdlock, (l)) return vpRw(l, false, true); }
int vp_rwl_tryw(VpRw* l) { VP_REAL(pthread_rwlock_trywrlock, (l)) return vpRw(l, true, false); }
int vp_rwl_tryr(VpRw* l) { VP_REAL(pthread_rwlock_tryrdlock, (l)) return vpRw(l, false, false); }
int vp_rwl_unlock(VpRw* l) {
  VP_REAL(pthread_rwlock_unlock, (l))
  vp_rw_lock(l->mtx);
  if (l->writer) l->writer = 0; else l->readers--;
  vp_cv_all(l->cv);
  vp_rw_unlock(l->mtx);
  return 0;
}
int vp_once(int* o, void (*f)()) {
  VP_REAL(pthread_once, (o, f))
  vp_rw_lock(o);
  if (*o != 2) {
    try { f(); } catch (...) { vp_rw_unlock(o); throw; }
    *o = 2;
  }
  vp_rw_unlock(o);
  return 0;
}
}
