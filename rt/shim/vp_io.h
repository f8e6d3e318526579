// Small iostream model with the documented behaviour of the parts cpptrace uses. Lives in an inline namespace so it
// cannot collide with libstdc++'s own streams in replay builds.
#pragma once
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <system_error>
#include <cstdint>
#include <cstring>
#include <limits>
namespace std { inline namespace vpio {
struct ios_base {
  typedef unsigned iostate; typedef unsigned openmode; typedef unsigned fmtflags; typedef int seekdir;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  struct failure : public std::runtime_error { explicit failure(const string& s) : runtime_error(s) {} explicit failure(const char* s) : runtime_error(s) {} };
  struct Init {};
  iostate st = 0, exc = 0; bool hexm = false;
  bool good() const { return st == 0; }
  bool eof() const { return st & eofbit; }
  bool fail() const { return st & (badbit | failbit); }
  bool bad() const { return st & badbit; }
  iostate rdstate() const { return st; }
  void clear(iostate s = goodbit) { st = s; if (st & exc) throw failure("basic_ios::clear"); }
  void setstate(iostate s) { clear(st | s); }
  void exceptions(iostate e) { exc = e; clear(st); }
  iostate exceptions() const { return exc; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
};
template<class C, class T> struct basic_ios : ios_base {};
// ---- output
template<class C, class T> class basic_ostream : public basic_ios<C, T> {
public:
  std::string sink;
  uint64_t flushes = 0;
  basic_ostream() {}
  basic_ostream(const basic_ostream&) = delete;
  basic_ostream& write(const C* p, std::ptrdiff_t n) { if (this->good()) sink.append(p, (size_t)n); return *this; }
  basic_ostream& put(C c) { if (this->good()) sink.push_back(c); return *this; }
  basic_ostream& flush() { flushes++; return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& num(unsigned long long v, bool neg) {
    char b[24]; int i = 24; unsigned base = this->hexm ? 16 : 10;
    do { b[--i] = "0123456789abcdef"[v % base]; v /= base; } while (v);
    if (neg) b[--i] = '-';
    return write(b + i, 24 - i);
  }
  basic_ostream& operator<<(unsigned v) { return num(v, false); }
  basic_ostream& operator<<(unsigned long v) { return num(v, false); }
  basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
  basic_ostream& operator<<(unsigned short v) { return num(v, false); }
  basic_ostream& operator<<(int v) { return num(v < 0 ? 0ULL - (long long)v : v, v < 0); }
  basic_ostream& operator<<(long v) { return num(v < 0 ? 0ULL - (unsigned long long)v : v, v < 0); }
  basic_ostream& operator<<(long long v) { return num(v < 0 ? 0ULL - (unsigned long long)v : v, v < 0); }
  basic_ostream& operator<<(bool v) { return num(v, false); }
  basic_ostream& operator<<(const void* p) { return num((unsigned long long)p, false); }
};
inline ostream& operator<<(ostream& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.write(s, (ptrdiff_t)strlen(s)); }
inline ostream& operator<<(ostream& o, char c) { return o.put(c); }
inline ostream& operator<<(ostream& o, const std::string& s) { return o.write(s.data(), (ptrdiff_t)s.size()); }
inline ostream& endl(ostream& o) { o.put('\n'); return o.flush(); }
inline ostream& flush(ostream& o) { return o.flush(); }
extern ostream cout __asm__("vp_std_cout"), cerr __asm__("vp_std_cerr"), clog __asm__("vp_std_clog");
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
public:
  basic_ostringstream() {}
  explicit basic_ostringstream(const std::string& s) { this->sink = s; }
  std::string str() const { return this->sink; }
  void str(const std::string& s) { this->sink = s; }
};
// ---- input over a byte buffer
struct vp_pos {   // fpos
  long long v = 0;
  vp_pos() {} vp_pos(long long x) : v(x) {}
  operator long long() const { return v; }
};
template<class C, class T> class basic_istream : public basic_ios<C, T> {
public:
  typedef vp_pos pos_type; typedef std::char_traits<char>::int_type int_type;
  const char* data = nullptr; size_t n = 0, at = 0, gc = 0; bool readFails = false, tellFails = false;
  basic_istream() {}
  basic_istream(const basic_istream&) = delete;
  void under() { this->setstate(ios_base::eofbit | ios_base::failbit); }
  pos_type tellg() { if (this->fail() || tellFails) return pos_type(-1); return pos_type((long long)at); }
  basic_istream& seekg(vp_pos p) { return seekg((long long)p, ios_base::beg); }
  basic_istream& seekg(long long o, ios_base::seekdir d) {
    this->st &= ~(unsigned)ios_base::eofbit;
    if (!this->fail()) { long long b = d == ios_base::beg ? 0 : d == ios_base::cur ? (long long)at : (long long)n; if (b + o < 0 || b + o > (long long)n) this->setstate(ios_base::failbit); else at = (size_t)(b + o); }
    return *this;
  }
  size_t gcount() const { return gc; }
  basic_istream& read(char* p, std::ptrdiff_t k) {
    gc = 0;
    if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
    if (readFails) { this->setstate(ios_base::badbit); return *this; }
    size_t m = (size_t)k < n - at ? (size_t)k : n - at;
    memcpy(p, data + at, m); at += m; gc = m;
    if (m < (size_t)k) under();
    return *this;
  }
  int get() { if (!this->good()) { this->setstate(ios_base::failbit); return -1; } if (at >= n) { under(); return -1; } gc = 1; return (unsigned char)data[at++]; }
  basic_istream& get(char& c) { int v = get(); if (v >= 0) c = (char)v; return *this; }
  int peek() { if (!this->good()) return -1; if (at >= n) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)data[at]; }
  basic_istream& ignore(std::ptrdiff_t k = 1, int delim = -1) {
    if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
    for (std::ptrdiff_t i = 0; k == std::numeric_limits<std::ptrdiff_t>::max() || i < k; i++) {
      if (at >= n) { this->setstate(ios_base::eofbit); break; }
      int c = (unsigned char)data[at++];
      if (c == delim) break;
    }
    return *this;
  }
  bool ws() {   // sentry
    if (!this->good()) { this->setstate(ios_base::failbit); return false; }
    while (at < n && (data[at] == ' ' || (data[at] >= '\t' && data[at] <= '\r'))) at++;
    if (at >= n) { under(); return false; }
    return true;
  }
  basic_istream& operator>>(char& c) { if (ws()) c = data[at++]; return *this; }
  basic_istream& operator>>(unsigned long& v) {
    if (!ws()) return *this;
    unsigned base = this->hexm ? 16 : 10;
    bool any = false, neg = false, ovf = false; unsigned long r = 0;
    if (data[at] == '+' || data[at] == '-') { neg = data[at] == '-'; at++; }
    if (base == 16 && at + 1 < n && data[at] == '0' && (data[at + 1] == 'x' || data[at + 1] == 'X')) at += 2;
    for (; at < n; at++) {
      char c = data[at]; unsigned d;
      if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
      if (d >= base) break;
      any = true;
      if (r > (~0UL - d) / base) ovf = true;
      r = r * base + d;
    }
    unsigned s = at >= n ? (unsigned)ios_base::eofbit : 0u;
    if (!any) { v = 0; s |= ios_base::failbit; } else if (ovf) { v = ~0UL; s |= ios_base::failbit; } else v = neg ? -r : r;
    if (s) this->setstate(s);
    return *this;
  }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
inline ios_base& hex(ios_base& i) { i.hexm = true; return i; }
inline ios_base& dec(ios_base& i) { i.hexm = false; return i; }
inline istream& getline(istream& i, std::string& s, char d = '\n') {
  s.clear();
  if (!i.good()) { i.setstate(ios_base::failbit); return i; }
  bool any = false;
  for (;;) {
    if (i.at >= i.n) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
    char c = i.data[i.at++]; any = true;
    if (c == d) break;
    s.push_back(c);
  }
  return i;
}
} }
// ---- the file system model: the harness defines which files exist
struct vp_file { const char* data; size_t n; bool openFails, tellFails, readFails; };
extern "C" bool vp_fs_lookup(const char* path, vp_file* out);
namespace std { inline namespace vpio {
template<class C, class T> class basic_ifstream : public basic_istream<C, T> {
  bool opened = false;
public:
  basic_ifstream() {}
  explicit basic_ifstream(const char* p, ios_base::openmode m = ios_base::in) { open(p, m); }
  explicit basic_ifstream(const std::string& p, ios_base::openmode m = ios_base::in) { open(p.c_str(), m); }
  void open(const std::string& p, ios_base::openmode m = ios_base::in) { open(p.c_str(), m); }
  void open(const char* p, ios_base::openmode m = ios_base::in) {
    vp_file f{};
    if (opened || !vp_fs_lookup(p, &f) || f.openFails) { this->setstate(ios_base::failbit); return; }
    this->clear();
    this->data = f.data; this->n = f.n; this->readFails = f.readFails; this->tellFails = f.tellFails; this->at = (m & ios_base::ate) ? f.n : 0;
    opened = true;
  }
  bool is_open() const { return opened; }
  void close() { if (!opened) this->setstate(ios_base::failbit); opened = false; }
};
template<class C, class T> class basic_ofstream : public basic_ostream<C, T> {
public:
  basic_ofstream() {}
  explicit basic_ofstream(const std::string&, ios_base::openmode = ios_base::out) {}
  explicit basic_ofstream(const char*, ios_base::openmode = ios_base::out) {}
  bool is_open() const { return true; }
  void close() {}
};
} }
