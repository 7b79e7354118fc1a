// C and C++ runtime for the symbolic engine: the parts of libc/libstdc++ that are not in headers, as plain code
// the engine can execute.  Never linked into native binaries.

#include "../vp.h"
#include <cerrno>
#include <charconv>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <ios>
#include <list>
#include <locale>
#include <map>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <variant>
#include <unordered_map>

extern "C" {
long vp_rt_strtod(const char* t, int which, uint64_t* bits, int* err);
long vp_rt_fmt(uint64_t bits, int prec, int mode, char* buf, size_t cap);
int vp_rt_is_conc(uint64_t v);
uint64_t vp_known(uint64_t h);
void vp_rt_throw_bad_alloc() { throw std::bad_alloc(); }
void vp_rt_throw_thread() { throw std::runtime_error("thread: Resource temporarily unavailable"); }
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;
int64_t _ZNSt6chrono3_V212system_clock3nowEv() { int64_t t; vp_fresh(&t, 8); return t; }
int64_t _ZNSt6chrono3_V212steady_clock3nowEv() { int64_t t; vp_fresh(&t, 8); return t; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
void* __cxa_get_exception_ptr(void* p) { return p; }

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char* a, const char* b, size_t n) {
  for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
void* vp_memchr_impl(const void* p, int c, size_t n) __asm__("memchr");
void* vp_memchr_impl(const void* p, int c, size_t n) {
  const unsigned char* q = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i);
  return nullptr;
}
char* vp_strchr_impl(const char* s, int c) __asm__("strchr");
char* vp_strchr_impl(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

// strtol family, base 0/10/16 as plain loops
static unsigned long long vp_strtoX(const char* s, char** end, int base, bool sgn, unsigned bits) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0;
  bool any = false, over = false;
  int nd = 0;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = true;
    if (base == 10 && nd < 19) v = v * 10 + (unsigned)((unsigned char)*p - '0');  // cannot overflow
    else {
      unsigned __int128 t = (unsigned __int128)v * (unsigned)base + (unsigned)d;
      if (t >> 64) over = true;
      v = (unsigned long long)t;
    }
    nd++;
  }
  if (end) *end = (char*)(any ? p : s);
  if (!any) return 0;
  v = vp_known(v);
  if (sgn) {
    unsigned long long lim = (1ull << (bits - 1)) - (neg ? 0 : 1);
    if (over || v > lim) { errno = ERANGE; return neg ? ~((1ull << (bits - 1)) - 1) : lim; }
    return neg ? 0 - v : v;
  }
  if (over) { errno = ERANGE; return ~0ull; }
  return neg ? 0 - v : v;
}
long __isoc23_strtol(const char* s, char** e, int b) { return (long)vp_strtoX(s, e, b, true, 64); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long)vp_strtoX(s, e, b, true, 64); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return vp_strtoX(s, e, b, false, 64); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return vp_strtoX(s, e, b, false, 64); }
long vp_strtol_impl(const char* s, char** e, int b) __asm__("strtol");
long vp_strtol_impl(const char* s, char** e, int b) { return (long)vp_strtoX(s, e, b, true, 64); }
unsigned long vp_strtoul_impl(const char* s, char** e, int b) __asm__("strtoul");
unsigned long vp_strtoul_impl(const char* s, char** e, int b) { return vp_strtoX(s, e, b, false, 64); }
int vp_atoi_impl(const char* s) __asm__("atoi");
int vp_atoi_impl(const char* s) { return (int)(long)vp_strtoX(s, nullptr, 10, true, 64); }

// Floating text.  A symbolic float printed with enough digits to be recovered exactly is represented by a token
// "0.x<letters>..." (see vp_float_token); any other symbolic text is parsed by contract: it converts to nothing, is out
// of range, or yields any value.
size_t vp_token_parse(const char* p, uint64_t* bits);  // below
static double vp_strtoD(const char* s, char** end, int which) {
  uint64_t bits = 0;
  size_t tn = vp_token_parse(s, &bits);
  if (tn) {
    if (end) *end = (char*)s + tn;
    if (which == 32) { uint32_t b = (uint32_t)bits; float f; memcpy(&f, &b, 4); return f; }
    double d; memcpy(&d, &bits, 8);
    return d;
  }
  int err = 0;
  long n = vp_rt_strtod(s, which, &bits, &err);
  if (n < 0) {
    size_t len = strlen(s);
    int k = vp_choose(4, "rt:float-text");
    if (k == 0 || len == 0) { if (k) vp_prune(); if (end) *end = (char*)s; return 0; }
    if (which == 32) { uint32_t b; vp_fresh(&b, 4); float f; memcpy(&f, &b, 4); if (k == 3) errno = ERANGE; if (end) *end = (char*)s + (k == 2 && len > 1 ? 1 : len); return f; }
    vp_fresh(&bits, 8);
    if (k == 3) errno = ERANGE;
    if (end) *end = (char*)s + (k == 2 && len > 1 ? 1 : len);
    double d; memcpy(&d, &bits, 8);
    return d;
  }
  if (end) *end = (char*)s + n;
  if (err) errno = err;
  if (which == 32) { uint32_t b = (uint32_t)bits; float f; memcpy(&f, &b, 4); return f; }
  double d; memcpy(&d, &bits, 8);
  return d;
}
float strtof(const char* s, char** e) { return (float)vp_strtoD(s, e, 32); }
double strtod(const char* s, char** e) { return vp_strtoD(s, e, 64); }
double vp_atof_impl(const char* s) __asm__("atof");
double vp_atof_impl(const char* s) { return vp_strtoD(s, nullptr, 64); }
}  // extern "C"

// ---- exact float token: '~' kind, then 8/16 letters 'a'..'p' (nibbles), terminated by '~' -----------------------------
extern "C" size_t vp_token_parse(const char* p, uint64_t* bits) {
  if (!vp_rt_is_conc((unsigned char)p[0]) || p[0] != '0' ) return 0;
  if (!vp_rt_is_conc((unsigned char)p[1]) || p[1] != '_') return 0;
  int n = p[2] == 'f' ? 8 : 16;
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v |= (uint64_t)((unsigned char)(p[3 + i] - 'A') & 0xf) << (4 * i);
  *bits = v;
  return 3 + n;
}
extern "C" size_t vp_token_make(char* out, uint64_t bits, bool f32) {
  out[0] = '0'; out[1] = '_'; out[2] = f32 ? 'f' : 'd';
  int n = f32 ? 8 : 16;
  for (int i = 0; i < n; i++) out[3 + i] = (char)('A' + ((bits >> (4 * i)) & 0xf));
  return 3 + n;
}

namespace std {
// ---- exceptions ----
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dupMsg(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string(const std::string& s) { _M_p = dupMsg(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupMsg(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = dupMsg(o._M_p); return *this; }
__cow_string::~__cow_string() {}
#define EXC_BASE(T) \
  T::T(const string& s) : _M_msg(s) {} \
  T::T(const char* s) : _M_msg(s, strlen(s)) {} \
  T::~T() noexcept {} \
  const char* T::what() const noexcept { return _M_msg._M_p; } \
  T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
  T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; }
EXC_BASE(logic_error)
EXC_BASE(runtime_error)
#define EXC(T, B) \
  T::T(const string& s) : B(s) {} \
  T::T(const char* s) : B(s) {} \
  T::~T() noexcept {}
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- string ----
template void basic_string<char>::_M_replace_cold(char*, size_type, const char*, size_type, size_type);

// ---- red-black tree (structure only matters for order; balancing as in libstdc++ is not needed) ----
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  // plain unbalanced deletion
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    auto* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = h._M_right = &h; }
  else {
    auto* m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m;
    m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m;
  }
  return z;
}

// ---- hashing ----
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* q = (const unsigned char*)p;
  size_t h = seed + 14695981039346656037ull;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull;
  return h;
}
namespace __detail {
// growth policy: only the bucket count matters, not which primes are used
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize || bkt < elt + ins) { size_t b = _M_next_bkt(elt + ins > bkt * 2 ? elt + ins : bkt * 2); return {true, b}; }
  return {false, 0};
}
}  // namespace __detail

// ---- number formatting of floating point values ----
static to_chars_result fmtD(char* f, char* l, double d, int prec, char mode, bool f32) {
  uint64_t b; memcpy(&b, &d, 8);
  char buf[400];
  long n = vp_rt_fmt(b, prec, mode, buf, sizeof buf);
  if (n < 0) {
    if (mode != 's' && mode != 'S' && prec < (f32 ? 9 : 17)) vp_unsupported("to_chars with limited precision of a symbolic value");
    uint64_t x = b;
    if (f32) { float g = (float)d; uint32_t y; memcpy(&y, &g, 4); x = y; }
    n = (long)vp_token_make(buf, x, f32);
  }
  if (l - f < n) return {l, errc::value_too_large};
  for (long i = 0; i < n; i++) f[i] = buf[i];
  return {f + n, errc{}};
}
static char modeOf(chars_format c) { return c == chars_format::scientific ? 'e' : c == chars_format::fixed ? 'f' : 'g'; }
to_chars_result to_chars(char* f, char* l, float v) noexcept { return fmtD(f, l, v, 0, 's', true); }
to_chars_result to_chars(char* f, char* l, double v) noexcept { return fmtD(f, l, v, 0, 'S', false); }
to_chars_result to_chars(char* f, char* l, float v, chars_format) noexcept { return fmtD(f, l, v, 0, 's', true); }
to_chars_result to_chars(char* f, char* l, double v, chars_format) noexcept { return fmtD(f, l, v, 0, 'S', false); }
to_chars_result to_chars(char* f, char* l, float v, chars_format c, int p) noexcept { return fmtD(f, l, v, p, modeOf(c), true); }
to_chars_result to_chars(char* f, char* l, double v, chars_format c, int p) noexcept { return fmtD(f, l, v, p, modeOf(c), false); }
template <class T> static from_chars_result fcD(const char* f, const char* l, T& v, int which) {
  std::string s(f, l);
  if (!s.empty() && vp_rt_is_conc((unsigned char)s[0]) && (isspace((unsigned char)s[0]) || s[0] == '+')) return {f, errc::invalid_argument};
  char* e = nullptr;
  int old = errno;
  errno = 0;
  double d = vp_strtoD(s.c_str(), &e, which);
  int er = errno;
  errno = old;
  if (e == s.c_str()) return {f, errc::invalid_argument};
  if (er == ERANGE) return {f + (e - s.c_str()), errc::result_out_of_range};
  v = (T)d;
  return {f + (e - s.c_str()), errc{}};
}
from_chars_result from_chars(const char* f, const char* l, float& v, chars_format) noexcept { return fcD(f, l, v, 32); }
from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept { return fcD(f, l, v, 64); }

// ---- streams: the base class of the shim's streams ----
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { return *this; }
static locale vpClassic;
const locale& locale::classic() { return vpClassic; }
ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr),
      _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
}  // namespace std

// ---- lists ----
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this;
  f->_M_prev->_M_next = l;
  this->_M_prev->_M_next = f;
  auto* t = this->_M_prev;
  this->_M_prev = l->_M_prev;
  l->_M_prev = f->_M_prev;
  f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  const bool ex = x._M_next == &x, ey = y._M_next == &y;
  const _List_node_base tx = x, ty = y;
  if (ey) x._M_next = x._M_prev = &x; else { x = ty; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y; else { y = tx; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
}  // namespace __detail
// ---- error codes ----
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int i) const { string m = this->message(i); return __cow_string(m.c_str(), m.size()); }
}
namespace {
struct VpCategory final : error_category {
  const char* n;
  VpCategory(const char* n) : n(n) {}
  const char* name() const noexcept override { return n; }
  string message(int) const override { return "error"; }
};
VpCategory vpGeneric{"generic"}, vpSystem{"system"};
}
inline namespace _V2 {
const error_category& generic_category() noexcept { return vpGeneric; }
const error_category& system_category() noexcept { return vpSystem; }
}
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
// ---- call_once ----
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}  // namespace std
#define VP_RWSYM ""
#define VP_REAL(f, a)
#include "../native/rwlock.inc"

// thread::_State: its destructor is the key function
namespace std { unsigned int thread::hardware_concurrency() noexcept { return 4; } }
