//@bound L 4 5
//@bounds views of every length 0..L over all byte values (embedded zeros included for string_view), element positions 0..L+1 and the two largest, every in-range start and every count including npos and any 64-bit value, prefix/suffix/set arguments of length 0..2; spans over 0..L elements
//@entry {"name":"h_view","jobs":4,"covers":["elements"]}
//@entry {"name":"h_substr","jobs":4,"covers":["substr"]}
//@entry {"name":"h_affix","jobs":6,"covers":["yes","no"]}
//@entry {"name":"h_find","jobs":4,"covers":["found","missing"]}
//@entry {"name":"h_eq","jobs":4,"covers":["equal","different"]}
//@entry {"name":"h_cstr","jobs":4,"covers":["cstring"]}
//@entry {"name":"h_span","jobs":2,"covers":["span"]}
#include "sym.h"
#include "utils/string_view.hpp"
#include "utils/span.hpp"
#include "utils/microfmt.hpp"
#include <string>
#include <vector>
using namespace cpptrace;
using namespace cpptrace::detail;
// exactly-sized heap storage: any access outside the view is outside the object
struct Buf {
  char* p; uint64_t n;
  Buf(uint64_t max, const char* nm, bool z = false) { n = sym_pick(0, max, "len"); p = new char[n + z]; sym_make(p, n, nm); if (z) { for (uint64_t i = 0; i < n; i++) sym_assume(p[i] != 0); p[n] = 0; } }
  ~Buf() { delete[] p; }
  std::string own() const { return std::string(p, n); }
  string_view view() const { return string_view(p, n); }
};
extern "C" void h_view() {
  Buf b(L, "ch");
  string_view v = sym_bool("ctor") ? string_view(b.p, b.n) : string_view((const char*)b.p, (const char*)b.p + b.n);
  std::string o = b.own();
  sym_assert(v.size() == o.size() && v.empty() == o.empty() && v.data() == b.p, "size and data");
  sym_assert(std::string(v) == o, "conversion to an owning string");
  size_t k = 0;
  for (char c : v) { sym_assert(c == o[k], "iteration"); k++; }
  sym_assert(k == o.size(), "iteration length");
  uint64_t i = sym_pick(0, L + 2, "i");
  if (i == L + 2) i = ~0ULL - sym_pick(0, 1, "end");
  bool threw = false; char c = 0;
  try { c = v.at(i); } catch (const std::runtime_error&) { threw = true; }
  sym_assert(threw == (i >= o.size()), "at() reports exactly the positions outside");
  if (!threw) { sym_assert(c == o[i] && v[i] == o[i], "element"); }
  if (!o.empty()) sym_assert(v.front() == o.front() && v.back() == o.back(), "front and back");
  std::string app = "x"; app += v;
  sym_assert(app == "x" + o, "appending");
  string_view dflt;
  sym_assert(dflt.empty() && dflt.size() == 0 && dflt.begin() == dflt.end(), "default view is empty");
  sym_cover("elements");
}
extern "C" void h_substr() {
  Buf b(L, "ch");
  string_view v = b.view(); std::string o = b.own();
  uint64_t pos = sym_pick(0, b.n, "pos"), n = sym_u64("n");
  uint64_t form = sym_pick(0, 2, "form");
  string_view r = form == 0 ? v.substr(pos, n) : form == 1 ? v.substr(pos) : v;
  if (form == 2) r.advance(pos);
  std::string want = form == 0 ? o.substr(pos, n) : o.substr(pos);
  sym_assert(r.size() == want.size() && r == string_view(want.data(), want.size()), "sub-range differs");
  sym_assert(r.empty() || r.data() == b.p + pos, "sub-range is inside the original");
  sym_cover("substr");
}
extern "C" void h_affix() {
  Buf b(L, "ch"), a(L, "affix");
  std::string o = b.own(), x = a.own();
  bool pre = x.size() <= o.size() && o.compare(0, x.size(), x) == 0;
  bool suf = x.size() <= o.size() && o.compare(o.size() - x.size(), x.size(), x) == 0;
  sym_assert(b.view().starts_with(a.view()) == pre, "starts_with differs");
  sym_assert(b.view().ends_with(a.view()) == suf, "ends_with differs");
  sym_cover(pre || suf ? "yes" : "no");
}
extern "C" void h_find() {
  Buf b(L, "ch"), s(2, "set");
  size_t want = b.own().find_last_of(s.own());
  sym_assert(b.view().find_last_of(s.view()) == want, "find_last_of differs");
  sym_cover(want == std::string::npos ? "missing" : "found");
}
extern "C" void h_eq() {
  Buf b(L, "ch"), s(L, "other");
  bool want = b.own() == s.own();
  sym_assert((b.view() == s.view()) == want && (b.view() != s.view()) == !want, "equality differs");
  sym_assert((string_view() == b.view()) == (b.n == 0), "equality with an empty view");
  sym_cover(want ? "equal" : "different");
}
extern "C" void h_cstr() {
  Buf b(L, "ch", true);
  std::string o = b.own();
  cstring_view v(b.p), w(o), u(b.p, b.n);
  sym_assert(v.size() == o.size() && v.empty() == o.empty() && v.c_str() == b.p && v.data() == b.p && u.size() == v.size() && w.size() == v.size(), "size");
  sym_assert(std::string(v) == o && (string_view)v == string_view(o), "conversion");
  uint64_t pos = sym_pick(0, b.n, "pos");
  cstring_view t = v.substr(pos);
  sym_assert(std::string(t.c_str()) == o.substr(pos) && t.size() == o.size() - pos, "tail is a terminated string");
  Buf s(2, "set");
  sym_assert(v.find_last_of(s.view()) == o.find_last_of(s.own()), "find_last_of");
  sym_assert(v.starts_with(s.view()) == (s.n <= b.n && o.compare(0, s.n, s.own()) == 0), "starts_with");
  sym_assert(v.ends_with(s.view()) == (s.n <= b.n && o.compare(b.n - s.n, s.n, s.own()) == 0), "ends_with");
  size_t k = 0; for (char c : v) { sym_assert(c == o[k], "iteration"); k++; }
  if (b.n) sym_assert(v.front() == o.front() && v.back() == o.back() && v[pos % b.n] == o[pos % b.n] && v.at(pos % b.n) == o[pos % b.n], "elements");
  sym_cover("cstring");
}
extern "C" void h_span() {
  uint64_t n = sym_pick(0, L, "n");
  int* a = new int[n];
  std::vector<int> o;
  for (uint64_t i = 0; i < n; i++) o.push_back(a[i] = (int)sym_u32("el"));
  auto s = n && sym_bool("range") ? make_span(a, a + n) : make_span(a, n);
  const span<int>& cs = s;
  sym_assert(s.size() == n && s.empty() == (n == 0) && s.data() == a, "size and data");
  size_t k = 0;
  for (int& x : s) { sym_assert(x == o[k] && &x == a + k, "iteration visits the elements themselves"); k++; }
  sym_assert(k == n, "iteration length");
  k = 0; for (int x : cs) { sym_assert(x == o[k], "const iteration"); k++; }
  if (n) { *s.begin() = 7; sym_assert(a[0] == 7, "writes go to the owner"); }
  struct P { int x; short y; } p{1, 2};
  auto b = make_bspan(p);
  sym_assert(b.size() == sizeof(P) && b.data() == (char*)&p && b.end() - b.begin() == (long)sizeof(P), "object bytes");
  span<int> e; sym_assert(e.empty() && e.begin() == e.end(), "default span is empty");
  delete[] a;
  sym_cover("span");
}
