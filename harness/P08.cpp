//@bound N 4 5
//@bound M 4 6
//@bounds h_total: every byte string of length 0..N (all 256 values per byte)
//@bounds h_shape: every string prefix+middle+suffix, prefix and suffix from the lists in the harness (the spellings that open each kind of construct), middle of 0..2 (quick) free bytes
//@bounds h_alpha: every string of length 0..M over 13 bytes that drive the tokenizer
//@bounds h_unterminated: an opened quote of any of the three kinds followed by 0..4 free bytes that cannot close it
//@entry {"name":"h_total","jobs":8}
//@entry {"name":"h_shape","jobs":8}
//@entry {"name":"h_alpha","jobs":8}
//@entry {"name":"h_unterminated","jobs":2,"covers":["unterminated"]}
#include "sym.h"
#include <cpptrace/basic.hpp>
#include <cpptrace/utils.hpp>
#include <string>
static void total(const std::string& in) {
  uint64_t live = sym_live_allocs();
  {
    std::string out = cpptrace::prune_symbol(in);
    // the widest growth is "(anonymous namespace)" normalisation and <> around a lambda; nothing grows beyond that
    sym_assert(out.size() <= 2 * in.size() + 2, "pruned symbol is far longer than its input");
  }
  sym_assert(sym_live_allocs() == live, "pruning leaks memory");
}
extern "C" void h_total() {
  uint64_t n = sym_pick(0, N, "len");
  char buf[N + 1];
  sym_make(buf, n, "ch");
  total(std::string(buf, n));
}
extern "C" void h_shape() {
  static const char* const pre[] = {"operator", "operator\"\" ", "{lambda", "{unnamed type", "'lambda", "'unnamed", "<lambda_", "`", "a<", "a<operator", "(*", "(__cdecl", "operator decltype(", "operator new", "a<\"", "a<'", "~", "a::", "(anonymous namespace)", "`anonymous namespace'", "a(", "{lambda()#"};
  static const char* const suf[] = {"", ">", "'", ")", "}", "a"};
  uint64_t p = sym_pick(0, sizeof(pre) / sizeof(*pre) - 1, "prefix");
  uint64_t s = sym_pick(0, sizeof(suf) / sizeof(*suf) - 1, "suffix");
  uint64_t n = sym_pick(0, 2, "len");
  char buf[3];
  sym_make(buf, n, "ch");
  total(pre[p] + std::string(buf, n) + suf[s]);
}
extern "C" void h_alpha() {
  static const char al[] = "`'\"\\<>(){}:*a";
  uint64_t n = sym_pick(0, M, "len");
  char buf[M + 1];
  for (uint64_t i = 0; i < n; i++) {
    uint8_t k = sym_u8("letter");
    sym_assume(k < sizeof(al) - 1);
    buf[i] = al[sym_concretize(k)];
  }
  total(std::string(buf, n));
}
extern "C" void h_unterminated() {
  static const char q[] = "\"'`";
  uint64_t k = sym_pick(0, 2, "quote");
  uint64_t n = sym_pick(0, 4, "len");
  bool tmpl = sym_bool("template");
  char buf[4];
  sym_make(buf, n, "ch");
  for (uint64_t i = 0; i < n; i++) {
    sym_assume(buf[i] != '\\');
    sym_assume(buf[i] != q[k]);
    sym_assume(!(k == 2 && buf[i] == '\''));
  }
  std::string in = (tmpl ? std::string("void foo<") : std::string("foo(")) + q[k] + std::string(buf, n);
  sym_assert(cpptrace::prune_symbol(in) == in, "a symbol with an unterminated literal must come back unchanged");
  sym_cover("unterminated");
}
