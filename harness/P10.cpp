//@bound L 6 7
//@bound WIN 8191 65535
//@bounds integers: all unsigned and all non-negative signed 64-bit values in bases h, H, o, b, negative values of every length with arbitrary first and last digit; decimal for every value of magnitude up to WIN and within 8 of every power of two boundary 2^8..2^64 and of the extremes
//@bounds widths 0..20 (literal) and 0..12 (argument), every fill byte, both alignments; strings of 0..3 arbitrary bytes
//@bounds format strings: every string of length 0..L (all byte values; after a brace the digits 0, 2 and 7) with three string arguments and one number
//@entry {"name":"h_radix","jobs":4,"covers":["hex","oct","bin"]}
//@entry {"name":"h_decimal","jobs":4,"covers":["decimal"]}
//@entry {"name":"h_pad","jobs":4,"covers":["padded"]}
//@entry {"name":"h_pad_number","jobs":2,"covers":["padded number"]}
//@entry {"name":"h_fmt","jobs":8,"covers":["plain","substituted"]}
#include "sym.h"
#include "utils/microfmt.hpp"
#include <string>
#include <cstdlib>
#include <cstring>
using namespace cpptrace;
static std::string fmt(const std::string& f, microfmt::detail::format_value a) {
  std::string r;
  microfmt::detail::format(std::back_inserter(r), f.begin(), f.end(), {a});
  return r;
}
static void radix(const std::string& s, uint64_t mag, bool neg, unsigned shift, bool upper) {
  size_t i = 0;
  if (neg) { sym_assert(!s.empty() && s[0] == '-', "sign missing"); i = 1; }
  sym_assert(i < s.size(), "no digits");
  sym_assert(s.size() - i == 1 || s[i] != '0', "leading zero");
  sym_assert((s.size() - i) * shift <= 66, "too many digits");
  for (size_t k = s.size() - i; k > 0; k--, i++) {
    uint8_t d = (uint8_t)((mag >> ((k - 1) * shift)) & ((1u << shift) - 1));
    uint8_t want = d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10);
    if (shift <= 3) want = '0' + d;
    sym_assert((uint8_t)s[i] == want, "wrong digit");
  }
  size_t digits = s.size() - (neg ? 1 : 0);
  sym_assert(digits * shift >= 64 || (mag >> (digits * shift)) == 0, "digits denote a smaller value");
}
// every value with exactly n significant digits of 2^shift, assembled from its digits
static uint64_t digitsValue(unsigned shift, size_t n, bool sparse = false) {
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) {
    uint8_t d = sym_u8("digit");
    unsigned bits = shift;
    if (shift * (n - i) > 64) bits = 64 - shift * (n - i - 1);
    d &= (1u << bits) - 1;
    if (i == 0) { if (n > 1) sym_assume(d != 0); d = (uint8_t)sym_concretize(d); }
    else if (sparse) d = i + 1 == n ? (uint8_t)sym_concretize(d) : 0;
    v |= (uint64_t)d << (shift * (n - i - 1));
  }
  return v;
}
extern "C" void h_radix() {
  uint64_t k = sym_pick(0, 3, "base");
  const char* f[] = {"{:h}", "{:H}", "{:o}", "{:b}"};
  const unsigned sh[] = {4, 4, 3, 1};
  bool isS = sym_pick(0, 1, "signed"), neg = isS && sym_pick(0, 1, "negative");
  uint64_t mag = digitsValue(sh[k], sym_pick(1, (63 + sh[k]) / sh[k], "digits"), neg);
  if (isS) sym_assume(neg ? mag != 0 && mag <= 1ULL << 63 : mag < 1ULL << 63);
  uint64_t x = neg ? 0 - mag : mag;
  std::string s;
  if (isS) s = fmt(f[k], (long)x); else s = fmt(f[k], (unsigned long)x);
  radix(s, mag, neg, sh[k], k == 1);
  sym_cover(k < 2 ? "hex" : k == 2 ? "oct" : "bin");
}
static void decimal(const std::string& s, uint64_t mag, bool neg) {
  size_t i = 0;
  if (neg) { sym_assert(!s.empty() && s[0] == '-', "sign missing"); i = 1; }
  sym_assert(i < s.size() && s.size() - i <= 20, "digit count");
  sym_assert(s.size() - i == 1 || s[i] != '0', "leading zero");
  uint64_t v = 0;
  bool okd = true;
  for (; i < s.size(); i++) { uint8_t c = s[i]; okd = okd & (c >= '0') & (c <= '9'); v = v * 10 + (c - '0'); }
  sym_assert(okd, "not a decimal digit");
  sym_assert(v == mag, "digits denote a different value");
}
extern "C" void h_decimal() {
  uint64_t k = sym_pick(0, 8, "window");
  uint64_t x;
  if (k == 0) x = sym_u64("value") & WIN;
  else if (k == 1) x = 0 - (sym_u64("value") & WIN);
  else { uint64_t d = sym_pick(0, 15, "delta"); static const unsigned sh[] = {8, 15, 16, 31, 32, 63, 64}; x = (sh[k - 2] == 64 ? 0 : 1ULL << sh[k - 2]) + d - 8; }
  uint64_t ty = sym_pick(0, 7, "type");
  if (k < 2 && (ty == 1 || ty == 3 || ty == 5 || ty == 7)) sym_end_path();   // same conversion as their 16- and 64-bit siblings
  std::string s;
  uint64_t mag = x; bool neg = false;
  auto sgn = [&](int64_t v) { neg = v < 0; mag = neg ? 0 - (uint64_t)v : (uint64_t)v; };
  switch (ty) {
    case 0: s = fmt("{}", (short)x); sgn((short)x); break;
    case 1: s = fmt("{}", (int)x); sgn((int)x); break;
    case 2: s = fmt("{:d}", (long)x); sgn((long)x); break;
    case 3: s = fmt("{}", (long long)x); sgn((long long)x); break;
    case 4: s = fmt("{}", (unsigned short)x); mag = (unsigned short)x; break;
    case 5: s = fmt("{}", (unsigned)x); mag = (unsigned)x; break;
    case 6: s = fmt("{:d}", (unsigned long)x); break;
    default: s = fmt("{}", (unsigned long long)x); break;
  }
  decimal(s, mag, neg);
  sym_cover("decimal");
}
static std::string padded(const std::string& t, size_t w, bool right, char fill) {
  if (t.size() >= w) return t;
  std::string p(w - t.size(), fill);
  return right ? p + t : t + p;
}
extern "C" void h_pad() {
  uint64_t n = sym_pick(0, 3, "len");
  char buf[4] = {0, 0, 0, 0};
  sym_make(buf, n, "ch");
  std::string t(buf, n);
  uint64_t al = sym_pick(0, 2, "align");
  bool haveFill = sym_bool("has_fill");
  char fill = ' ';
  if (haveFill) { fill = (char)sym_u8("fill"); sym_assume(fill != '}' && fill != 'd' && fill != 'h' && fill != 'H' && fill != 'o' && fill != 'b'); }
  bool var = sym_bool("variable");
  uint64_t w = sym_pick(0, var ? 12 : 20, "width");
  std::string f = "<{";
  f += al == 0 ? "" : al == 1 ? "<" : ">";
  if (var) { if (al == 0) { f += "<"; } f += "{}"; } else f += std::to_string(w);
  if (haveFill) { f += ':'; f += fill; }
  f += "}>";
  std::string want = "<" + padded(t, w, al == 2, fill) + ">";
  uint64_t kind = sym_pick(0, 3, "arg_kind");
  using V = microfmt::detail::format_value;
  std::string r;
  auto out = std::back_inserter(r);
  auto run = [&](V v) { if (var) microfmt::detail::format(out, f.begin(), f.end(), {V((unsigned)w), v}); else microfmt::detail::format(out, f.begin(), f.end(), {v}); };
  if (kind == 0) run(V(t));
  else if (kind == 1) run(V(cpptrace::detail::string_view(t.data(), t.size())));
  else if (kind == 2) { for (uint64_t i = 0; i < n; i++) sym_assume(buf[i] != 0); run(V(t.c_str())); }
  else { sym_assume(n == 1); run(V(buf[0])); }
  sym_assert(r == want, "padding differs from the definition");
  sym_cover("padded");
}
extern "C" void h_pad_number() {
  uint64_t x = digitsValue(4, sym_pick(1, 16, "digits"));
  uint64_t w = sym_pick(0, 18, "width");
  bool right = sym_bool("right");
  char fill = (char)sym_u8("fill");
  sym_assume(fill != '}');
  std::string f = std::string("{") + (right ? ">" : "<") + std::to_string(w) + ":" + fill + "h}";
  std::string bare = fmt("{:h}", (unsigned long)x);
  sym_assert(fmt(f, (unsigned long)x) == padded(bare, w, right, fill), "number padding differs from the definition");
  sym_cover("padded number");
}
// an independent reading of the documented grammar {[align][width][:[fill][base]]}
struct Spec { bool ok = false, unspecified = false; size_t len = 0; bool right = false, varWidth = false; size_t width = 0; char fill = ' '; };
static Spec parseSpec(const std::string& f, size_t i) {
  Spec s;
  size_t j = i + 1;
  auto at = [&](size_t k) -> int { return k < f.size() ? (unsigned char)f[k] : -1; };
  if (at(j) == '<' || at(j) == '>') { s.right = f[j] == '>'; j++; }
  if (at(j) >= '0' && at(j) <= '9') { while (at(j) >= '0' && at(j) <= '9') { s.width = s.width * 10 + (f[j] - '0'); j++; } }
  else if (at(j) == '{') { if (at(j + 1) != '}') return s; s.varWidth = true; j += 2; }
  if (at(j) == ':') {
    j++;
    if (at(j) >= 0 && at(j + 1) >= 0 && at(j) != '}' && at(j + 1) != '}') { s.fill = f[j]; j += 2; }
    else if (at(j) >= 0 && at(j) != '}') {
      int c = at(j);
      if (!(c == 'd' || c == 'h' || c == 'H' || c == 'o' || c == 'b')) s.fill = f[j];
      j++;
    }
  }
  if (at(j) != '}') { s.unspecified = s.varWidth; return s; }
  s.ok = true; s.len = j + 1 - i;
  return s;
}
extern "C" void h_fmt() {
  uint64_t n = sym_pick(0, L, "len");
  char buf[L + 1];
  sym_make(buf, n, "ch");
  for (uint64_t i = 1, open = 0; i < n; i++) {
    if (buf[i - 1] == '{') open = 1;
    if (open && buf[i] >= '0' && buf[i] <= '9') {   // digits that can belong to a width
      sym_assume(buf[i] == '0' || buf[i] == '2' || buf[i] == '7');
      buf[i] = (char)sym_concretize((unsigned char)buf[i]);
    }
  }
  std::string f(buf, n);
  // the format is exactly these bytes: whatever lies behind them, here arbitrary, is not looked at
  char* exact = (char*)malloc(n + 1);
  memcpy(exact, buf, n); exact[n] = "}{:"[sym_pick(0, 2, "byte behind")];
  const char* fb = exact; const char* fe = exact + n;
  static const char* const args[] = {"A", "bc", "D"};
  std::string r;
  uint64_t nargs = sym_pick(0, 2, "nargs");
  if (nargs == 0) microfmt::detail::format(std::back_inserter(r), fb, fe, {});
  else if (nargs == 1) microfmt::detail::format(std::back_inserter(r), fb, fe, {args[0]});
  else microfmt::detail::format(std::back_inserter(r), fb, fe, {args[0], args[1], args[2]});
  size_t avail = nargs == 2 ? 3 : nargs, ai = 0;
  std::string want;
  bool subst = false;
  for (size_t i = 0; i < f.size();) {
    char c = f[i];
    if ((c == '{' || c == '}') && i + 1 < f.size() && f[i + 1] == c) { want += c; i += 2; continue; }
    if (c == '{') {
      Spec s = parseSpec(f, i);
      if (s.unspecified) { sym_end_path(); }
      if (s.ok) {
        if (s.width > 999) sym_end_path();
        if (s.varWidth && ai < avail) ai++;   // a string used as a width counts as 0
        if (ai < avail) { want += padded(args[ai], s.varWidth ? 0 : s.width, s.right, s.fill); ai++; subst = true; }
        i += s.len;
        continue;
      }
    }
    want += c; i++;
  }
  sym_assert(r == want, "formatted text differs from the documented grammar");
  sym_cover(subst ? "substituted" : "plain");
}
