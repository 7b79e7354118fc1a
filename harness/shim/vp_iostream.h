// iostreams for the symbolic engine: explicit specialisations of the char streams over a std::string, without locales
// and stream buffers.  Number formatting follows printf("%d" / "%g" with the stream's precision and floatfield).
// Symbolic integers are printed by contract: the digits are fresh values whose decimal value equals the number.
#ifndef VP_IOSTREAM_H
#define VP_IOSTREAM_H
#include <cstdint>
#include <ios>
#include <cstring>
#include <string>
#include <string_view>
extern "C" {
long vp_rt_fmt(uint64_t bits, int prec, int mode, char* buf, size_t cap);
int vp_rt_is_conc(uint64_t v);
void vp_fresh(void* p, size_t n);
void vp_digits(char* p, size_t n, uint64_t v);
void vp_define(uint64_t h, uint64_t v);
uint64_t vp_known(uint64_t h);
void vp_assume(int c);
void vp_unsupported(const char* msg);
size_t vp_token_make(char* out, uint64_t bits, bool f32);
float strtof(const char*, char**) noexcept;
double strtod(const char*, char**) noexcept;
int* __errno_location() noexcept;
}
namespace std {
template <> class basic_ios<char, char_traits<char>> : public ios_base {
 public:
  typedef char char_type; typedef int int_type; typedef streamoff off_type; typedef char_traits<char> traits_type;
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return vst; }
  void clear(iostate s = goodbit) { vst = s; if (vst & vexc) throw ios_base_failure_(); }
  void setstate(iostate s) { clear(vst | s); }
  bool good() const { return vst == 0; }
  bool eof() const { return (vst & eofbit) != 0; }
  bool fail() const { return (vst & (badbit | failbit)) != 0; }
  bool bad() const { return (vst & badbit) != 0; }
  iostate exceptions() const { return vexc; }
  void exceptions(iostate e) { vexc = e; clear(vst); }
  char fill() const { return vfill; }
  char fill(char c) { char o = vfill; vfill = c; return o; }
  int imbue(const locale&) { return 0; }
  struct ios_base_failure_ : std::exception {};
  std::string vbuf;
  size_t vpos = 0;
  iostate vst = goodbit, vexc = goodbit;
  char vfill = ' ';
  bool vnull = false;
 protected:
  basic_ios() {}
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char> {
 public:
  typedef char char_type; typedef char_traits<char> traits_type;
  basic_ostream() {}
  virtual ~basic_ostream() {}
  struct sentry { explicit sentry(basic_ostream&) {} operator bool() const { return true; } };
  basic_ostream& write(const char* p, streamsize n) { if (!vnull) vbuf.append(p, (size_t)n); return *this; }
  basic_ostream& put(char c) { if (!vnull) vbuf.push_back(c); return *this; }
  basic_ostream& flush() { return *this; }
  streamoff tellp() { return (streamoff)vbuf.size(); }
  void vpad(const char* p, size_t n) {
    size_t w = (size_t)width();
    width(0);
    if (vnull) return;
    bool left = (flags() & adjustfield) == ios_base::left;
    if (!left) for (size_t i = n; i < w; i++) vbuf.push_back(fill());
    vbuf.append(p, n);
    if (left) for (size_t i = n; i < w; i++) vbuf.push_back(fill());
  }
  void vuint(unsigned long long v, bool neg) {
    if (vnull) return;
    char t[70];
    int n = 0;
    unsigned base = (flags() & basefield) == ios_base::hex ? 16 : (flags() & basefield) == ios_base::oct ? 8 : 10;
    if (base != 10 || vp_rt_is_conc(v)) {
      char r[70];
      int k = 0;
      do { unsigned d = (unsigned)(v % base); r[k++] = (char)(d < 10 ? '0' + d : ((flags() & uppercase) ? 'A' : 'a') + d - 10); v /= base; } while (v);
      if (neg) t[n++] = '-';
      while (k) t[n++] = r[--k];
    } else {
      int k = 1;
      unsigned long long lim = 10;
      while (k < 20 && v >= lim) { k++; if (k < 20) lim *= 10; }
      if (neg) t[n++] = '-';
      // the digits are fresh characters; their value is written with the expression the readers use
      char* d = t + n;
      vp_digits(d, (size_t)k, v);
      unsigned long long h = 0;
      for (int i = 0; i < k; i++) h = h * 10 + (unsigned)((unsigned char)d[i] - '0');
      vp_define(h, v);
      n += k;
    }
    vpad(t, (size_t)n);
  }
  void vint(long long v) { if (v < 0 && (flags() & basefield) != ios_base::hex && (flags() & basefield) != ios_base::oct) vuint(0ull - (unsigned long long)v, true); else vuint((unsigned long long)v, false); }
  void vflt(double d, bool f32) {
    if (vnull) return;
    char t[400];
    uint64_t b;
    memcpy(&b, &d, 8);
    fmtflags ff = flags() & floatfield;
    int p = (int)precision();
    char mode = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : 'g';
    if (mode == 'g' && p == 0) p = 1;
    long n = vp_rt_fmt(b, p, mode, t, sizeof t);
    if (n < 0) {
      int need = f32 ? (mode == 'e' ? 8 : 9) : (mode == 'e' ? 16 : 17);
      uint64_t x = b;
      if (f32) { float g = (float)d; uint32_t y; memcpy(&y, &g, 4); x = y; }
      if (mode == 'f' || p < need) {  // not enough digits to identify the value: the text stands for some other value
        x = 0;
        vp_fresh(&x, f32 ? 4 : 8);
      }
      n = (long)vp_token_make(t, x, f32);
    }
    vpad(t, (size_t)n);
  }
  basic_ostream& operator<<(bool v) { vuint(v, false); return *this; }
  basic_ostream& operator<<(short v) { vint(v); return *this; }
  basic_ostream& operator<<(unsigned short v) { vuint(v, false); return *this; }
  basic_ostream& operator<<(int v) { vint(v); return *this; }
  basic_ostream& operator<<(unsigned v) { vuint(v, false); return *this; }
  basic_ostream& operator<<(long v) { vint(v); return *this; }
  basic_ostream& operator<<(unsigned long v) { vuint(v, false); return *this; }
  basic_ostream& operator<<(long long v) { vint(v); return *this; }
  basic_ostream& operator<<(unsigned long long v) { vuint(v, false); return *this; }
  basic_ostream& operator<<(float v) { vflt(v, true); return *this; }
  basic_ostream& operator<<(double v) { vflt(v, false); return *this; }
  basic_ostream& operator<<(const void*) { if (!vnull) vbuf += "0xptr"; return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<char>& (*f)(basic_ios<char>&)) { f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c) { o.vpad(&c, 1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, signed char c) { char x = (char)c; o.vpad(&x, 1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c) { char x = (char)c; o.vpad(&x, 1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s) { o.vpad(s, strlen(s)); return o; }
template <> inline basic_ostream<char>& __ostream_insert(basic_ostream<char>& o, const char* p, streamsize n) { o.vpad(p, (size_t)n); return o; }
template <class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template <class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template <class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }

template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char> {
 public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type;
  basic_istream() {}
  virtual ~basic_istream() {}
  size_t vgc = 0;
  struct sentry {
    bool ok;
    explicit sentry(basic_istream& s, bool noskip = false) : ok(s.vprep(noskip)) {}
    explicit operator bool() const { return ok; }
  };
  static bool vsp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool vprep(bool noskip) {
    if (!good()) { setstate(failbit); return false; }
    if (!noskip && (flags() & skipws)) {
      while (vpos < vbuf.size() && vsp(vbuf[vpos])) vpos++;
      if (vpos >= vbuf.size()) { setstate(eofbit | failbit); return false; }
    }
    return true;
  }
  template <class T> basic_istream& vnum(T& v) {
    if (!vprep(false)) return *this;
    const bool sgn = static_cast<T>(-1) < static_cast<T>(0);
    bool neg = false, any = false, over = false;
    if (vpos < vbuf.size() && (vbuf[vpos] == '-' || vbuf[vpos] == '+')) { neg = vbuf[vpos] == '-'; vpos++; }
    unsigned long long m = 0;
    int nd = 0;
    while (vpos < vbuf.size() && vbuf[vpos] >= '0' && vbuf[vpos] <= '9') {
      any = true;
      const unsigned dg = (unsigned)((unsigned char)vbuf[vpos] - '0');
      if (nd < 19) m = m * 10 + dg;  // cannot overflow
      else if (!over) { unsigned __int128 a = (unsigned __int128)m * 10 + dg; if (a >> 64) over = true; m = (unsigned long long)a; }
      nd++;
      vpos++;
    }
    m = vp_known(m);
    iostate st = goodbit;
    if (vpos >= vbuf.size()) st |= eofbit;
    const unsigned long long umax = sgn ? (1ull << (sizeof(T) * 8 - 1)) - 1 : (sizeof(T) == 8 ? ~0ull : (1ull << (sizeof(T) * 8)) - 1);
    if (!any) { v = 0; st |= failbit; }
    else if (sgn && neg) {
      if (over || m > umax + 1) { v = (T)(0 - umax - 1); st |= failbit; } else v = (T)(0 - m);
    } else if (over || m > umax) { v = (T)umax; st |= failbit; }
    else v = neg ? (T)(0 - m) : (T)m;
    if (st) setstate(st);
    return *this;
  }
  template <class T> basic_istream& vfl(T& v) {
    if (!vprep(false)) return *this;
    // longest prefix made of number characters, as num_get accumulates it
    size_t q = vpos;
    auto numch = [](char c) { return (c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-' || c == '_' || (c >= 'A' && c <= 'P') || c == 'd' || c == 'f'; };
    while (q < vbuf.size() && numch(vbuf[q])) q++;
    string t = vbuf.substr(vpos, q - vpos);
    char* e = nullptr;
    int old = *__errno_location();
    *__errno_location() = 0;
    T r = sizeof(T) == 4 ? (T)strtof(t.c_str(), &e) : (T)strtod(t.c_str(), &e);
    int er = *__errno_location();
    *__errno_location() = old;
    size_t used = (size_t)(e - t.c_str());
    vpos += used;
    iostate st = goodbit;
    if (vpos >= vbuf.size()) st |= eofbit;
    if (used == 0) { v = 0; st |= failbit; }
    else { v = r; if (er == 34) st |= failbit; }
    if (st) setstate(st);
    return *this;
  }
  basic_istream& operator>>(bool& v) { unsigned short x = 0; vnum(x); v = x != 0; return *this; }
  basic_istream& operator>>(short& v) { return vnum(v); }
  basic_istream& operator>>(unsigned short& v) { return vnum(v); }
  basic_istream& operator>>(int& v) { return vnum(v); }
  basic_istream& operator>>(unsigned& v) { return vnum(v); }
  basic_istream& operator>>(long& v) { return vnum(v); }
  basic_istream& operator>>(unsigned long& v) { return vnum(v); }
  basic_istream& operator>>(long long& v) { return vnum(v); }
  basic_istream& operator>>(unsigned long long& v) { return vnum(v); }
  basic_istream& operator>>(float& v) { return vfl(v); }
  basic_istream& operator>>(double& v) { return vfl(v); }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  int get() { if (!vprep(true)) return -1; if (vpos >= vbuf.size()) { setstate(eofbit | failbit); return -1; } return (unsigned char)vbuf[vpos++]; }
  basic_istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  int peek() { if (!good()) return -1; if (vpos >= vbuf.size()) { setstate(eofbit); return -1; } return (unsigned char)vbuf[vpos]; }
  basic_istream& unget() { if (vpos) vpos--; return *this; }
  basic_istream& read(char* p, streamsize n) {
    vgc = 0;
    if (!vprep(true)) return *this;
    while ((streamsize)vgc < n && vpos < vbuf.size()) p[vgc++] = vbuf[vpos++];
    if ((streamsize)vgc < n) setstate(eofbit | failbit);
    return *this;
  }
  streamsize gcount() const { return (streamsize)vgc; }
  basic_istream& ignore(streamsize n = 1, int d = -1) { while (n-- > 0 && vpos < vbuf.size()) { char c = vbuf[vpos++]; if (d >= 0 && (unsigned char)c == (unsigned)d) break; } return *this; }
  basic_istream& seekg(streamoff o) { vpos = (size_t)o; clear(vst & ~eofbit); return *this; }
  streamoff tellg() { return fail() ? -1 : (streamoff)vpos; }
};
inline basic_istream<char>& operator>>(basic_istream<char>& s, char& c) {
  if (!s.vprep(false)) return s;
  if (s.vpos >= s.vbuf.size()) { s.setstate(ios_base::eofbit | ios_base::failbit); return s; }
  c = s.vbuf[s.vpos++];
  return s;
}
inline basic_istream<char>& operator>>(basic_istream<char>& s, unsigned char& c) { return s >> reinterpret_cast<char&>(c); }
inline basic_istream<char>& operator>>(basic_istream<char>& s, signed char& c) { return s >> reinterpret_cast<char&>(c); }
template <> inline basic_istream<char>& operator>>(basic_istream<char>& s, string& t) {
  if (!s.vprep(false)) return s;
  t.clear();
  while (s.vpos < s.vbuf.size() && !basic_istream<char>::vsp(s.vbuf[s.vpos])) t.push_back(s.vbuf[s.vpos++]);
  ios_base::iostate st = ios_base::goodbit;
  if (s.vpos >= s.vbuf.size()) st |= ios_base::eofbit;
  if (t.empty()) st |= ios_base::failbit;
  if (st) s.setstate(st);
  return s;
}
template <> inline basic_istream<char>& getline(basic_istream<char>& s, string& t, char d) {
  if (!s.vprep(true)) return s;
  t.clear();
  bool any = false;
  while (s.vpos < s.vbuf.size()) {
    char c = s.vbuf[s.vpos++];
    any = true;
    if (c == d) return s;
    t.push_back(c);
  }
  s.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit));
  return s;
}
template <> inline basic_istream<char>& getline(basic_istream<char>& s, string& t) { return getline(s, t, '\n'); }
template <class C, class T> inline basic_istream<C, T>& ws(basic_istream<C, T>& s) { while (s.vpos < s.vbuf.size() && basic_istream<char>::vsp(s.vbuf[s.vpos])) s.vpos++; if (s.vpos >= s.vbuf.size()) s.setstate(ios_base::eofbit); return s; }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {
 public:
  basic_iostream() {}
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(ios_base::openmode) {}
  explicit basic_ostringstream(const string& s, ios_base::openmode m = ios_base::out) { if (m & ios_base::ate) vbuf = s; else if (!s.empty()) vp_unsupported("ostringstream with initial text"); }
  string str() const { return vbuf; }
  void str(const string& s) { vbuf = s; }
  string_view view() const { return vbuf; }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const string& s, ios_base::openmode = ios_base::in) { vbuf = s; }
  string str() const { return vbuf; }
  void str(const string& s) { vbuf = s; vpos = 0; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> {
 public:
  basic_stringstream() {}
  explicit basic_stringstream(const string& s, ios_base::openmode = ios_base::in | ios_base::out) { vbuf = s; }
  string str() const { return vbuf; }
  void str(const string& s) { vbuf = s; vpos = 0; }
};
_GLIBCXX_END_NAMESPACE_CXX11
inline const string* vp_file_name = nullptr;  // the one file that exists, if the harness made one
inline const string* vp_file_text = nullptr;
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> {
 public:
  basic_ifstream() {}
  explicit basic_ifstream(const char* n, ios_base::openmode = ios_base::in) { open(n); }
  explicit basic_ifstream(const string& n, ios_base::openmode = ios_base::in) { open(n.c_str()); }
  template <class P> requires requires(const P& p) { p.c_str(); p.native(); } explicit basic_ifstream(const P& p, ios_base::openmode = ios_base::in) { open(p.c_str()); }
  void open(const char* n, ios_base::openmode = ios_base::in) {
    if (vopen) { setstate(failbit); return; }
    vopen = vp_file_name && *vp_file_name == n;
    if (vopen) { clear(); vbuf = *vp_file_text; vpos = 0; } else setstate(failbit);
  }
  void open(const string& n, ios_base::openmode m = ios_base::in) { open(n.c_str(), m); }
  template <class P> requires requires(const P& p) { p.c_str(); p.native(); } void open(const P& p, ios_base::openmode m = ios_base::in) { open(p.c_str(), m); }
  bool is_open() const { return vopen; }
  void close() { if (vopen) vopen = false; else setstate(failbit); }
  bool vopen = false;
};
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> {
 public:
  basic_ofstream() { vnull = true; }
  explicit basic_ofstream(const char* n, ios_base::openmode = ios_base::out) { vnull = true; }
  explicit basic_ofstream(const string& n, ios_base::openmode = ios_base::out) { vnull = true; }
  bool is_open() const { return true; }
  void close() {}
};
struct vp_nullstream : basic_ostream<char> { vp_nullstream() { vnull = true; } };
inline vp_nullstream cout, cerr, clog;
struct _Setprecision { int _M_n; };
inline _Setprecision setprecision(int n) { return {n}; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _Setprecision f) { o.precision(f._M_n); return o; }
struct _Setw { int _M_n; };
inline _Setw setw(int n) { return {n}; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _Setw f) { o.width(f._M_n); return o; }
struct _Setfill { char c; };
template <class S> inline S quoted(S s, char = '"', char = '\\') { vp_unsupported("std::quoted"); return s; }
inline _Setfill setfill(char c) { return {c}; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _Setfill f) { o.fill(f.c); return o; }
}  // namespace std
#endif
