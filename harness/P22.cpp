//@bound L 4 5
//@bound M 5 6
//@bounds strings of every length 0..M over all byte values for trim and basename, 0..L for split/starts_with/replace_all/join pieces (0..2 byte delimiters and patterns); all 32-bit values for n_digits, all 8/16/32/64-bit signed and unsigned values for byteswap and is_positive_power_of_two; sorted sequences of 0..M unsigned 64-bit values and any searched value
//@entry {"name":"h_trim","jobs":4,"covers":["blank","text"]}
//@entry {"name":"h_split","jobs":4,"covers":["split"]}
//@entry {"name":"h_join","jobs":2,"covers":["joined"]}
//@entry {"name":"h_basename","jobs":4,"covers":["slash","plain"]}
//@entry {"name":"h_starts","jobs":4,"covers":["yes","no"]}
//@entry {"name":"h_replace","jobs":8,"covers":["replaced","untouched"]}
//@entry {"name":"h_replace_dynamic","jobs":8,"covers":["folded"]}
//@entry {"name":"h_numbers","jobs":4,"covers":["digits","pow2","swap"]}
//@entry {"name":"h_search","jobs":4,"covers":["found","none"]}
//@entry {"name":"h_guards","jobs":2,"covers":["guards"]}
#include "sym.h"
#include "utils/utils.hpp"
#include "utils/replace_all.hpp"
#include <string>
#include <vector>
#include <list>
using namespace cpptrace;
using namespace cpptrace::detail;
static std::string text(uint64_t max, const char* n) {
  uint64_t k = sym_pick(0, max, "len");
  char b[8];
  sym_make(b, k, n);
  return std::string(b, k);
}
static bool blank(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '\f') | (c == '\v'); }
extern "C" void h_trim() {
  std::string s = text(M, "ch");
  std::string t = trim(s);
  size_t a = 0, b = s.size();
  while (a < b && blank(s[a])) a++;
  while (b > a && blank(s[b - 1])) b--;
  sym_assert(t == std::string(s, a, b - a), "trim removes exactly the leading and trailing blanks");
  sym_cover(a == b ? "blank" : "text");
}
extern "C" void h_split() {
  std::string s = text(L, "ch"), d = text(2, "delim");
  auto isd = [&](char c) { bool r = false; for (char x : d) r = r | (x == c); return r; };
  std::vector<std::string> want(1);
  for (char c : s) { if (isd(c)) want.emplace_back(); else want.back() += c; }
  auto got = split(s, d);
  sym_assert(got.size() == want.size(), "one more piece than delimiters");
  for (size_t i = 0; i < want.size(); i++) sym_assert(got[i] == want[i], "piece differs from the text between delimiters");
  sym_cover("split");
}
extern "C" void h_join() {
  uint64_t n = sym_pick(0, 3, "pieces");
  std::vector<std::string> v; std::list<std::string> l;
  for (uint64_t i = 0; i < n; i++) { v.push_back(text(1, "piece")); l.push_back(v.back()); }
  std::string d = text(2, "delim"), want;
  for (uint64_t i = 0; i < n; i++) { if (i) want += d; want += v[i]; }
  sym_assert(join(v, d) == want, "join of a vector");
  sym_assert(join(l, d) == want, "join of a list");
  bool usable = d.size() == 1;
  for (auto& x : v) for (char c : x) usable = usable && c != d[0];
  if (usable && n) sym_assert(split(want, d) == v, "splitting what was joined gives the pieces back");
  sym_cover("joined");
}
extern "C" void h_basename() {
  std::string s = text(M, "ch");
  for (char c : s) sym_assume(c != 0);
  bool win = sym_bool("windows");
  size_t cut = 0;
  for (size_t i = 0; i < s.size(); i++) if (s[i] == '/' || (win && s[i] == '\\')) cut = i + 1;
  std::string got = win ? detail::basename(s, true) : detail::basename(s);
  sym_assert(got == s.substr(cut), "base name is the text after the last separator");
  sym_cover(cut ? "slash" : "plain");
}
extern "C" void h_starts() {
  std::string s = text(L, "ch"), p = text(L, "prefix");
  bool want = p.size() <= s.size();
  if (want) { for (size_t i = 0; i < p.size(); i++) want = want && s[i] == p[i]; }
  sym_assert(detail::starts_with(s, p) == want, "starts_with differs from its definition");
  sym_cover(want ? "yes" : "no");
}
static bool at(const std::string& s, size_t i, const std::string& p) {
  if (i + p.size() > s.size()) return false;
  bool r = true;
  for (size_t k = 0; k < p.size(); k++) r = r & (s[i + k] == p[k]);
  return r;
}
extern "C" void h_replace() {
  std::string s = text(M, "ch"), p = text(2, "pat"), r = text(2, "rep");
  sym_assume(!p.empty());
  std::string want; bool any = false;
  for (size_t i = 0; i < s.size();) { if (at(s, i, p)) { want += r; i += p.size(); any = true; } else want += s[i++]; }
  std::string got = s;
  replace_all(got, string_view(p.data(), p.size()), string_view(r.data(), r.size()));
  sym_assert(got == want, "every occurrence, left to right, is replaced once");
  sym_cover(any ? "replaced" : "untouched");
}
extern "C" void h_replace_dynamic() {
  // the foldings the library uses
  std::string s, want;
  uint64_t n = sym_pick(0, 5, "tokens");
  if (sym_pick(0, 1, "rule")) {
    for (uint64_t i = 0; i < n; i++) { static const char* const t[] = {">", " ", "a", "<"}; s += t[sym_pick(0, 3, "token")]; }
    // a blank between two closing brackets is dropped, everything else stays
    for (size_t i = 0; i < s.size(); i++) { bool drop = s[i] == ' ' && i > 0 && i + 1 < s.size() && s[i - 1] == '>' && s[i + 1] == '>'; if (!drop) want += s[i]; }
    replace_all_dynamic(s, "> >", ">>");
  } else {
    for (uint64_t i = 0; i < n; i++) { static const char* const t[] = {"std::__cxx11::", "std::", "a", "::"}; uint64_t k = sym_pick(0, 3, "token"); s += t[k]; want += t[k == 0 ? 1 : k]; }
    replace_all_dynamic(s, "std::__cxx11::", "std::");
  }
  sym_assert(s == want, "folding leaves an instance behind or changes other text");
  sym_cover("folded");
}
template<class T> static void swapT() {
  T v = (T)sym_u64("v");
  T r = byteswap(v);
  unsigned char a[sizeof(T)], b[sizeof(T)];
  memcpy(a, &v, sizeof(T)); memcpy(b, &r, sizeof(T));
  bool ok = true;
  for (size_t i = 0; i < sizeof(T); i++) ok = ok & (a[i] == b[sizeof(T) - 1 - i]);
  sym_assert(ok, "byteswap does not reverse the bytes");
}
template<class T> static void pow2T() {
  T v = (T)sym_u64("v");
  bool want = false;
  for (unsigned i = 0; i < sizeof(T) * 8; i++) { T p = (T)((typename std::make_unsigned<T>::type)1 << i); want = want | ((v == p) & (p > 0)); }
  sym_assert(is_positive_power_of_two(v) == want, "power of two test");
}
extern "C" void h_numbers() {
  switch (sym_pick(0, 2, "kind")) {
    case 0: {
      unsigned v = sym_u32("v");
      unsigned want = 1; unsigned long long p = 10;
      for (int i = 0; i < 9; i++) { want += v >= p; p *= 10; }
      sym_assert(n_digits(v) == want, "digit count"); sym_cover("digits"); break;
    }
    case 1:
      switch (sym_pick(0, 5, "type")) { case 0: pow2T<unsigned>(); break; case 1: pow2T<int>(); break; case 2: pow2T<unsigned long>(); break; case 3: pow2T<long>(); break; case 4: pow2T<unsigned short>(); break; default: pow2T<signed char>(); }
      sym_cover("pow2"); break;
    default:
      switch (sym_pick(0, 6, "type")) { case 0: swapT<uint8_t>(); break; case 1: swapT<uint16_t>(); break; case 2: swapT<uint32_t>(); break; case 3: swapT<uint64_t>(); break; case 4: swapT<int16_t>(); break; case 5: swapT<int32_t>(); break; default: swapT<int64_t>(); }
      sym_cover("swap"); break;
  }
}
extern "C" void h_search() {
  uint64_t n = sym_pick(0, M, "n");
  std::vector<uint64_t> v;
  for (uint64_t i = 0; i < n; i++) { v.push_back(sym_u64("el")); if (i) sym_assume(v[i - 1] <= v[i]); }
  uint64_t x = sym_u64("x");
  auto it = sym_pick(0, 1, "cmp") ? first_less_than_or_equal(v.begin(), v.end(), x, [](uint64_t a, uint64_t b) { return a < b; }) : first_less_than_or_equal(v.begin(), v.end(), x);
  if (it == v.end()) { for (uint64_t e : v) sym_assert(e > x, "a smaller or equal element exists"); sym_cover("none"); }
  else {
    sym_assert(*it <= x, "the found element is larger");
    for (auto k = it + 1; k != v.end(); ++k) sym_assert(*k > x, "a closer element exists");
    sym_cover("found");
  }
}
// cleanup helpers: the action runs exactly once whatever is moved where
static int ran;
extern "C" void h_guards() {
  uint64_t base = sym_live_allocs();
  ran = 0;
  {
    auto g = scope_exit([] { ran++; });
    if (sym_bool("move")) { auto h = std::move(g); if (sym_bool("again")) { auto i = std::move(h); sym_assert(ran == 0, "ran early"); } }
    else sym_assert(ran == 0, "ran early");
  }
  sym_assert(ran == 1, "the action must run exactly once");
  ran = 0;
  {
    auto w = raii_wrap((int)5, [](int v) { sym_assert(v == 5, "wrong object released"); ran++; });
    sym_assert(w.get() == 5, "value");
    if (sym_bool("move2")) { auto u = std::move(w); sym_assert(u.get() == 5, "moved value"); sym_assert(ran == 0, "released early"); }
  }
  sym_assert(ran == 1, "released exactly once");
  {
    int local = 3;
    maybe_owned<int> o = sym_bool("own") ? maybe_owned<int>(std::unique_ptr<int>(new int(3))) : maybe_owned<int>(&local);
    sym_assert(*o == 3 && o.get() != nullptr, "maybe_owned points at its object");
    auto p = std::move(o);
    sym_assert(*p == 3, "moving keeps the object");
  }
  int a = 1, b = detail::exchange(a, 2);
  sym_assert(a == 2 && b == 1, "exchange");
  sym_assert(sym_live_allocs() == base, "everything released");
  sym_cover("guards");
}
