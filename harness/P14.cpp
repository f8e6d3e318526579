//@bound L 5 6
//@bounds every string of 0..L arbitrary non-zero bytes and longer ones built from prefixes, accepted and rejected names and trailing text; with and without requiring a mangled prefix; up to two allocation failures
//@assume the platform demangler accepts some names, chosen by a fixed rule on their characters, and gives a text derived from them; strings hold no zero byte
//@entry {"name":"h_any","jobs":8,"covers":["demangled","kept"]}
//@entry {"name":"h_pieces","jobs":4,"covers":["demangled","kept"]}
//@entry {"name":"h_oom","jobs":2,"covers":["failed","fine"]}
#include "common.h"
#include <cpptrace/utils.hpp>
#include "demangle/demangle.hpp"
using namespace cpptrace;
namespace {
int live; int calls;
// accepts _Z followed by at least one character, all of them lower case letters or digits; and type codes of one lower case letter
bool accepts(const char* n) {
  if (n[0] >= 'a' && n[0] <= 'z' && !n[1]) return true;
  if (n[0] != '_' || n[1] != 'Z' || !n[2]) return false;
  for (const char* p = n + 2; *p; p++) if (!(((*p >= 'a') & (*p <= 'z')) | ((*p >= '0') & (*p <= '9')))) return false;
  return true;
}
std::string text(const std::string& n) { return "<" + n + ">::fn()"; }
}
extern "C" char* vp_env___cxa_demangle(const char* n, char* buf, size_t* len, int* st) {
  calls++;
  sym_assert(!buf && !len, "no buffer is passed");
  if (!accepts(n)) { *st = -2; return nullptr; }
  size_t k = strlen(n);
  char* p = (char*)VP_MALLOC(k + 9);
  if (!p) { *st = -1; return nullptr; }
  p[0] = '<'; memcpy(p + 1, n, k); memcpy(p + 1 + k, ">::fn()", 7); p[k + 8] = 0;
  *st = 0; return p;
}
namespace {
std::string model(const std::string& s, bool prefix) {
  bool m1 = s.size() >= 2 && s[0] == '_' && s[1] == 'Z', m2 = s.size() >= 3 && s[0] == '_' && s[1] == '_' && s[2] == 'Z';
  if (prefix && !m1 && !m2) return s;
  size_t e = 0; while (e < s.size() && s[e] != ' ') e++;
  std::string head = s.substr(m2 ? 1 : 0, m2 ? e - 1 : e);
  return accepts(head.c_str()) ? text(head) + s.substr(e) : s;
}
void check(const std::string& s, bool prefix) {
  std::string want = model(s, prefix);
  uint64_t base = sym_live_allocs();
  {
    std::string got = prefix ? detail::demangle(s, true) : cpptrace::demangle(s);
    sym_assert(got == want, "demangling did not replace exactly the mangled name");
    sym_cover(got == s ? "kept" : "demangled");
  }
  sym_assert(sym_live_allocs() == base, "demangling leaks");
}
}
extern "C" void h_any() {
  uint64_t n = sym_pick(0, L, "len"); char b[8]; sym_make(b, n, "ch");
  for (uint64_t i = 0; i < n; i++) sym_assume(b[i] != 0);
  check(std::string(b, n), sym_pick(0, 1, "prefix"));
}
extern "C" void h_pieces() {
  static const char* pre[] = {"", "_Z", "__Z", "___Z", "Z", "_", " _Z"};
  static const char* mid[] = {"", "3foov", "n3abc3defe17longerthanthesmallbuffer", "3FOOv", "i"};
  static const char* tail[] = {"", " ", " [clone .part.0]", " x _Z3foov", ".cold"};
  check(std::string(pre[sym_pick(0, 6, "prefix piece")]) + mid[sym_pick(0, 4, "name")] + tail[sym_pick(0, 4, "tail")], sym_pick(0, 1, "check prefix"));
}
extern "C" void h_oom() {
  std::string s = sym_pick(0, 1, "tail") ? "_Z3foovthatislongenoughtoallocate and some trailing text" : "_Z3foov";
  std::string want = model(s, true);
  uint64_t base = sym_live_allocs(); bool failed = false;
  sym_arm_alloc_failures(2);
  try { std::string got = detail::demangle(s, true); sym_assert(got == want || (got == s && sym_alloc_failures_left() < 2), "a failed allocation gives other text"); } catch (std::bad_alloc&) { failed = true; }
  sym_arm_alloc_failures(0);
  sym_assert(sym_live_allocs() == base, "demangling leaks when memory runs out");
  sym_cover(failed ? "failed" : "fine");
}
