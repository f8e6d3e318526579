//@bound L 4 5
//@bound PIECES 2 3
//@bounds every string of up to L arbitrary bytes; every string of up to PIECES pieces out of the known verbose spellings, near misses and ordinary text
//@entry {"name":"h_any","jobs":8,"covers":["changed","unchanged"]}
//@entry {"name":"h_pieces","jobs":8,"covers":["pieces"]}
//@entry {"name":"h_types","jobs":8,"covers":["types"]}
#include "common.h"
#include <cpptrace/utils.hpp>
using namespace cpptrace;
namespace {
bool blank(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '\f') | (c == '\v'); }
bool word(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_'); }
}
// without any known spelling only the spacing of commas and closing angle brackets changes
extern "C" void h_any() {
  uint64_t n = sym_pick(0, L, "len"); char b[8]; sym_make(b, n, "ch");
  std::string s(b, n), got = prettify_symbol(s);
  std::string want;
  for (uint64_t i = 0; i < n;) {
    // "> >": the blank goes
    if (s[i] == ' ' && i > 0 && s[i - 1] == '>' && i + 1 < n && s[i + 1] == '>') { i++; continue; }
    uint64_t j = i; while (j < n && blank(s[j])) j++;
    if (j < n && s[j] == ',') { j++; while (j < n && blank(s[j])) j++; want += ", "; i = j; continue; }
    want += s[i++];
  }
  // class/struct need six characters
  sym_assert(got == want, "a symbol without verbose spellings changed in more than spacing");
  sym_cover(got == s ? "unchanged" : "changed");
}
// concatenations of pieces, each with its own rewriting, separated so that they cannot interact
extern "C" void h_pieces() {
  static const char* in[] = {"foo", "a<b<c> >", "x,y", "x , y", "class A", "struct  B", "subclass C", "classic", "`anonymous namespace'",
    "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::basic_string<char,std::char_traits<char>,std::allocator<char>>",
    "std::basic_string_view<char, std::char_traits<char> >", "std::basic_string<char16_t, T>", "std::basic_string<wchar_t, T>", "std::vector<int, std::allocator<int> >",
    "std::unique_ptr<X, std::default_delete<X> >", "std::__1::vector<A<B>, std::__1::allocator<A<B> > >", "std::__cxx11::list<Q>", "std::basic_string_view<char8_t, T>", "std::allocator<int>"};
  static const char* out[] = {"foo", "a<b<c>>", "x, y", "x, y", "A", "B", "subclass C", "classic", "(anonymous namespace)",
    "std::string", "std::string", "std::string_view", "std::basic_string<char16_t, T>", "std::basic_string<wchar_t, T>", "std::vector<int>",
    "std::unique_ptr<X>", "std::__1::vector<A<B>>", "std::list<Q>", "std::basic_string_view<char8_t, T>", "std::allocator<int>"};
  std::string s, want;
  uint64_t n = sym_pick(0, PIECES, "pieces");
  for (uint64_t i = 0; i < n; i++) { uint64_t k = sym_pick(0, 19, "piece"); if (i) { s += "; "; want += "; "; } s += in[k]; want += out[k]; }
  sym_assert(prettify_symbol(s) == want, "a known verbose spelling was not rewritten, or other text was");
  sym_assert(prettify_symbol(want) == want, "prettifying again changes the symbol");
  sym_cover("pieces");
}
namespace {
// a type in verbose and in short spelling
void type(int depth, std::string& v, std::string& s) {
  static const char sp[] = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >";
  switch (sym_pick(0, depth ? 5 : 1, "type")) {
    case 0: v += "int"; s += "int"; return;
    case 1: v += sp; s += "std::string"; return;
    case 2: { std::string a, b; type(depth - 1, a, b); v += "std::vector<" + a + ", std::allocator<" + a + (a.back() == '>' ? " >" : ">") + " >"; s += "std::vector<" + b + ">"; return; }
    case 3: { std::string a, b; type(depth - 1, a, b); v += "std::unique_ptr<" + a + ", std::default_delete<" + a + (a.back() == '>' ? " >" : ">") + " >"; s += "std::unique_ptr<" + b + ">"; return; }
    case 4: { std::string a, b; type(depth - 1, a, b); v += "ns::C<" + a + (a.back() == '>' ? " >" : ">"); s += "ns::C<" + b + ">"; return; }
    default: { std::string a, b, c, d; type(depth - 1, a, b); type(depth - 1, c, d); v += "std::map<" + a + "," + c + (c.back() == '>' ? " >" : ">"); s += "std::map<" + b + ", " + d + ">"; return; }
  }
}
}
extern "C" void h_types() {
  std::string v = "f(", s = "f(";
  type(2, v, s); if (sym_pick(0, 1, "two")) { v += ", "; s += ", "; type(1, v, s); }
  v += ")"; s += ")";
  sym_assert(prettify_symbol(v) == s, "a verbose type was not shortened everywhere");
  sym_cover("types");
}
