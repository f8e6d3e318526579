//@bound L 4 6
//@bounds every file of 0..L arbitrary bytes with every target line 0..L+2 and context 0..2; a file of 12 lines with every pattern of blank lines around the target, every target line 0..15 and beyond, contexts 0..13 and near the largest value, columns absent or 1..40, colour on and off; missing, unreadable, truncated and oversized files; repeated requests for several files
//@entry {"name":"h_content","jobs":8,"covers":["shown","nothing"]}
//@entry {"name":"h_window","jobs":8,"covers":["window","beyond"]}
//@entry {"name":"h_files","jobs":2,"covers":["missing","too large","unreadable"]}
//@entry {"name":"h_several","jobs":2,"covers":["several"]}
#include "common.h"
#include <cpptrace/utils.hpp>
#include <fstream>
using namespace cpptrace;
namespace {
struct File { const char* path; const char* data; size_t n; int fail; } files[3];
std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r(1);
  for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\n') { if (!r.back().empty() && r.back().back() == '\r') r.back().pop_back(); r.emplace_back(); } else r.back() += s[i]; }
  return r;
}
std::string dec(uint64_t v) { std::string s; do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v); return s; }
// the snippet of a file with these lines; empty if the target does not exist
std::string model(const std::vector<std::string>& ls, uint64_t target, uint64_t ctx, unsigned column, bool color) {
  if (target < 1 || target > ls.size()) return "";
  uint64_t b = target - 1 < ctx ? 1 : target - ctx, e = ls.size() - target < ctx ? ls.size() : target + ctx;
  while (b < target && ls[b - 1].empty()) b++;
  while (e > target && ls[e - 1].empty()) e--;
  std::string s;
  for (uint64_t l = b; l <= e; l++) {
    if (l > b) s += '\n';
    std::string d = dec(l);
    if (l == target) { if (color) s += "\033[33m"; s += std::string(8 - 3 - d.size(), ' ') + " > " + d + ": "; if (color) s += "\033[0m"; }
    else s += std::string(8 - d.size(), ' ') + d + ": ";
    s += ls[l - 1];
    if (l == target && column) { s += '\n' + std::string(8 + 2 + column - 1, ' '); if (color) s += "\033[33m"; s += '^'; if (color) s += "\033[0m"; }
  }
  return s;
}
}
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) {
  for (auto& f : files) if (f.path && !strcmp(p, f.path)) { o->data = f.data; o->n = f.n; o->openFails = f.fail == 1; o->readFails = f.fail == 2; o->tellFails = f.fail == 3; return true; }
  return false;
}
extern "C" void h_content() {
  uint64_t n = sym_pick(0, L, "len"); char b[8]; sym_make(b, n, "ch");
  files[0] = {"f.cpp", b, n, 0};
  uint64_t t = sym_pick(0, L + 2, "target"), c = sym_pick(0, 2, "context");
  std::string got = get_snippet("f.cpp", t, c, false), want = model(lines(std::string(b, n)), t, c, 0, false);
  sym_assert(got == want, "a snippet shows other text than the lines around the target");
  sym_cover(want.empty() ? "nothing" : "shown");
}
extern "C" void h_window() {
  std::string s; 
  uint64_t blank = sym_pick(0, 4, "blank");   // the lines that are blank: none, all, odd, a run at the start, all after 5
  for (unsigned i = 1; i <= 12; i++) {
    bool bl = blank == 1 || (blank == 2 && i % 2) || (blank == 3 && i < 5) || (blank == 4 && i > 5);
    if (!bl) { s += "text "; s += char('a' + i); }
    if (i < 12) s += i % 3 ? "\n" : "\r\n";
  }
  files[0] = {"f.cpp", s.data(), s.size(), 0};
  static const uint64_t ctxs[] = {0, 1, 2, 3, 11, 12, 13, 1ull << 40, ~0ull - 1, ~0ull}, targets[] = {0, 1, 2, 5, 6, 7, 11, 12, 13, 14, 15, 26, 1000000, 0xffffffff, ~0ull};
  uint64_t c = ctxs[sym_pick(0, 9, "context")], t = targets[sym_pick(0, 14, "target")];
  static const unsigned cols[] = {0, 1, 2, 40};
  unsigned col = cols[sym_pick(0, 3, "column")]; bool color = sym_pick(0, 1, "color");
  std::string got = get_snippet("f.cpp", t, col ? nullable<uint32_t>{col} : nullable<uint32_t>::null(), c, color), want = model(lines(s), t, c, col, color);
  sym_assert(got == want, "a snippet does not show exactly the lines around the target");
  sym_cover(t && t <= 12 ? "window" : "beyond");
}
extern "C" void h_files() {
  static const char text[] = "one\ntwo\nthree";
  uint64_t k = sym_pick(0, 4, "kind"), t = sym_pick(0, 3, "target");
  switch (k) {
    case 0: break;
    case 1: files[0] = {"f.cpp", text, 13, 1}; break;
    case 2: files[0] = {"f.cpp", text, 10 * 1024 * 1024 + 1, 0}; break;
    case 3: files[0] = {"f.cpp", text, 13, 2}; break;
    default: files[0] = {"f.cpp", text, 13, 3}; break;
  }
  sym_assert(get_snippet("f.cpp", t, 2, false).empty(), "text shown for a file that cannot be read");
  sym_assert(get_snippet("f.cpp", t, 2, false).empty(), "text shown for a file that cannot be read, asked again");
  sym_cover(k == 2 ? "too large" : k == 3 ? "unreadable" : "missing");
}
extern "C" void h_several() {
  static const char* text[] = {"a1\na2\na3\n", "b1\nb2", ""};
  static const char* path[] = {"a.cpp", "dir/with/a/longer/path/b.cpp", "empty.cpp"};
  for (int i = 0; i < 3; i++) files[i] = {path[i], text[i], strlen(text[i]), 0};
  for (int i = 0; i < 3; i++) {
    uint64_t f = sym_pick(0, 3, "file"), t = sym_pick(1, 3, "target");
    std::string want = f < 3 ? model(lines(text[f]), t, 1, 0, false) : "";
    sym_assert(get_snippet(f < 3 ? path[f] : "nowhere.cpp", t, 1, false) == want, "a snippet comes from another file");
  }
  sym_cover("several");
}
