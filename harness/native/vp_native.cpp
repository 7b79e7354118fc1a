// Native side of the harness API: replays recorded inputs against the real code.
//   exit 0 finished, 10 check failed, 11 uncaught exception, 12 sanitizer report, 13 time limit, 3 diverged, 4 assumption false
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <typeinfo>
#include <vector>
#include <unistd.h>
#include "../vp.h"
#include "vp_sched.h"
namespace {
struct In { char kind; std::string name; std::string hex; long val; };
std::vector<In> ins;
size_t pos = 0;
bool failed = false;
std::map<std::string, std::string> params;
unsigned long allocLimit = 1ul << 31;
unsigned char hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
[[noreturn]] void quit(int code) { fflush(stdout); fflush(stderr); _exit(code); }
In& next(char kind, const char* name) {
  while (pos < ins.size() && ins[pos].kind == 'C' && ins[pos].name.rfind("rt:", 0) == 0) pos++;
  if (pos >= ins.size() && failed) quit(10);  // the engine ends the path at a check that cannot hold
  if (pos >= ins.size() || ins[pos].kind != kind || ins[pos].name != name) { printf("DIVERGED at input %zu (%s)\n", pos, name); quit(3); }
  return ins[pos++];
}
}  // namespace
extern "C" {
void vp_make_symbolic(void* p, size_t n, const char* name) {
  In& i = next('S', name);
  if (i.hex.size() != 2 * n) { printf("DIVERGED size of %s\n", name); quit(3); }
  for (size_t k = 0; k < n; k++) ((unsigned char*)p)[k] = (unsigned char)(hexv(i.hex[2 * k]) * 16 + hexv(i.hex[2 * k + 1]));
}
int vp_choose(int n, const char* name) { (void)n; return (int)next('C', name).val; }
void vp_assume(int c) { if (!c) { printf("ASSUMPTION-FALSE\n"); quit(failed ? 10 : 4); } }
void vp_check(int c, const char* msg) { if (!c) { printf("CHECK-FAILED %s\n", msg); failed = true; fflush(stdout); } }
void vp_check_mem(const void* a, const void* b, size_t n, const char* msg) { vp_check(n == 0 || memcmp(a, b, n) == 0, msg); }
void vp_reach(const char*) {}
long vp_param(const char* name, long d) { auto i = params.find(name); return i == params.end() ? d : strtol(i->second.c_str(), nullptr, 0); }
long vp_sparam(const char* name, char* buf, long cap) {
  std::string v = params.count(name) ? params[name] : "";
  long k = 0;
  for (; k + 1 < cap && k < (long)v.size(); k++) buf[k] = v[k];
  if (cap) buf[k] = 0;
  return k;
}
void vp_sink(const void* p, size_t n, const char* label) {
  printf("SINK %s ", label);
  for (size_t i = 0; i < n && i < 4096; i++) printf("%02x", ((const unsigned char*)p)[i]);
  printf("\n");
}
int vp_engine(void) { return 0; }
uint64_t vp_concretize(uint64_t v) { return v; }
int vp_is_symbolic(const void*, size_t) { return 0; }
void vp_fresh(void*, size_t) {}
void vp_uninit(void*, size_t) {}
void vp_prune(void) { printf("PRUNED\n"); quit(failed ? 10 : 4); }
void vp_unsupported(const char*) { quit(4); }
void vp_fail(const char* msg) { printf("CHECK-FAILED %s\n", msg); quit(10); }
void vp_dbg(const char* m, long v) { printf("DBG %s %ld\n", m, v); }
}
// allocation with the engine's limit, on top of (ASan's) malloc
static void* alloc(size_t n) { if (n > allocLimit) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static void onAlarm(int) { static const char m[] = "TIME-LIMIT\n"; (void)!write(1, m, sizeof m - 1); _exit(13); }
int main(int argc, char** argv) {
  FILE* f = argc > 1 ? fopen(argv[1], "r") : stdin;
  if (!f) return 2;
  char* line = nullptr;
  size_t cap = 0;
  std::vector<int> sched;
  bool haveSched = false;
  while (getline(&line, &cap, f) > 0) {
    std::string l = line;
    while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
    if (l.size() < 2) continue;
    std::string rest = l.substr(2);
    size_t t = rest.find('\t');
    if (l[0] == 'S') ins.push_back({'S', rest.substr(0, t), rest.substr(t + 1), 0});
    else if (l[0] == 'C') ins.push_back({'C', rest.substr(0, t), "", strtol(rest.c_str() + t + 1, nullptr, 10)});
    else if (l[0] == 'P') params[rest.substr(0, t)] = rest.substr(t + 1);
    else if (l[0] == 'T') { haveSched = true; const char* p = rest.c_str(); while (*p) { char* e; long v = strtol(p, &e, 10); if (e == p) break; sched.push_back((int)v); p = e; while (*p == ',' || *p == ' ') p++; } }
  }
  if (params.count("alloc_limit")) allocLimit = strtoul(params["alloc_limit"].c_str(), nullptr, 0);
  signal(SIGALRM, onAlarm);
  alarm(params.count("alarm") ? atoi(params["alarm"].c_str()) : 20);
  if (haveSched && vp_sched_start) vp_sched_start(sched.data(), sched.size());
  try {
    vp_main();
  } catch (const std::exception& e) {
    printf("UNCAUGHT %s: %s\n", typeid(e).name(), e.what());
    quit(11);
  } catch (...) {
    printf("UNCAUGHT\n");
    quit(11);
  }
  if (vp_sched_end) vp_sched_end();
  printf("FINISHED\n");
  quit(failed ? 10 : 0);
}
