// Harness API.  Under the symbolic engine these are built in; in the native replay they are implemented by
// native/vp_native.cpp, which feeds the recorded inputs back to the same harness compiled against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_make_symbolic(void* p, size_t n, const char* name);  // n fresh symbolic bytes (a harness input)
int vp_choose(int n, const char* name);                      // one path per value 0..n-1
void vp_assume(int c);                                       // restrict to inputs with c
void vp_check(int c, const char* msg);                       // assertion: decided for all inputs of this path
void vp_check_mem(const void* a, const void* b, size_t n, const char* msg);  // byte equality as one assertion
void vp_reach(const char* label);
long vp_param(const char* name, long dflt);
long vp_sparam(const char* name, char* buf, long cap);
void vp_sink(const void* p, size_t n, const char* label);  // value compared between the path's model and the native replay
int vp_engine(void);                                       // 1 in the engine, 0 natively
uint64_t vp_concretize(uint64_t v);                        // forks over the feasible values
int vp_is_symbolic(const void* p, size_t n);
void vp_fresh(void* p, size_t n);
void vp_uninit(void* p, size_t n);
void vp_prune(void);
void vp_unsupported(const char* msg);
void vp_fail(const char* msg);
void vp_dbg(const char* msg, long v);
void vp_main(void);
}
template <class T> static inline T vp_sym(const char* name) { T t; vp_make_symbolic(&t, sizeof t, name); return t; }
#define VP_CONCRETE_SIZE(v) (v)
