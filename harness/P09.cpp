//@bound FULL 0 1
//@bounds symbols built from: optional return type, 1-3 components, each an identifier whose characters are symbolic over all identifier characters (2 per symbol, the rest fixed), optional template arguments from 19 shapes per component, special last components (destructor, 30+ operators, new/delete, literal, co_await, conversions, lambdas, unnamed types), parameter list and qualifiers from lists
//@entry {"name":"h_names","jobs":4,"covers":["named"]}
//@entry {"name":"h_templates","jobs":4,"covers":["templated"]}
//@entry {"name":"h_operators","jobs":4,"covers":["operator"]}
//@entry {"name":"h_local","jobs":4,"covers":["local"]}
//@entry {"name":"h_literal_args","jobs":4,"covers":["literal"]}
#include "sym.h"
#include <cpptrace/basic.hpp>
#include <cpptrace/utils.hpp>
#include <string>
#define COUNT(a) (sizeof(a) / sizeof(*(a)))
static bool idStart(uint8_t c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_') | (c == '$'); }
static bool idCont(uint8_t c) { return idStart(c) | (c >= '0' && c <= '9'); }
// an identifier of len symbolic characters (never a keyword: shorter than any the pruner knows)
static std::string ident(uint64_t len) {
  std::string r;
  for (uint64_t i = 0; i < len; i++) {
    uint8_t c = sym_u8("id");
    sym_assume(i ? idCont(c) : idStart(c));
    r += (char)c;
  }
  return r;
}
static void expect(const std::string& in, const std::string& want) {
  std::string out = cpptrace::prune_symbol(in);
  sym_assert(out == want, "pruned name differs from the qualified name");
  sym_assert(cpptrace::prune_symbol(out) == out, "pruning a pruned name changes it");
}
static const char* const rets[] = {"", "void ", "int const&", "unsigned long long ", "decltype(auto) ", "ns::T<int>* const ", "static void * "};
static const char* const args[] = {"", "()", "(int)", "(int, char)", "(S<int> const&)", "(void (*)(int))", "(int (&)[3], a::b<c>&&)", "(void)"};
static const char* const quals[] = {"", " const", " const volatile &&", "const", " &", " noexcept"};
static const char* const targs[] = {"", "<>", "<int>", "<int, char>", "<S<int>>", "<S<int> >", "<S<S<float>, S<int>>>", "<12, true>", "<&p>", "<(char)97>", "<(a > b)>", "<(a >> b), int>",
                                    "<&S::operator>(S const&)>", "<&S::operator>>(S const&)>", "<&S::operator<(S const&)>", "<&S::operator()(int)>", "<main::{lambda()#1}>", "<`int main(void)'::`2'::X>", "<F<int{}>[3]>"};
#define PICK(a) a[sym_pick(0, COUNT(a) - 1, #a)]
extern "C" void h_names() {
  std::string r = PICK(rets);
  uint64_t n = sym_pick(1, 3, "components");
  std::string a = ident(3), name = n == 1 ? a : n == 2 ? "ns::" + a : "(anonymous namespace)::Cls::" + a;
  bool dtor = sym_bool("dtor");
  if (dtor) { sym_assume(n > 1); name.insert(name.rfind("::") + 2, "~"); }
  std::string p = PICK(args);
  std::string q = p.empty() ? "" : PICK(quals);
  // "unsigned long long x" style declarations without a parameter list are not function symbols
  if (p.empty()) sym_assume(r.empty());
  expect(r + name + p + q, name);
  sym_cover("named");
}
extern "C" void h_templates() {
  std::string r = sym_bool("ret") ? "void " : "";
  std::string t1 = PICK(targs), t2 = PICK(targs);
  std::string a = ident(1), b = "f" + ident(1);
  expect(r + "n::" + a + t1 + "::" + b + t2 + "(" + a + t2 + ")" + " const", "n::" + a + "::" + b);
  sym_cover("templated");
}
static const char* const ops[] = {"+", "-", "*", "/", "%", "^", "&", "|", "~", "!", "=", "<", ">", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ">>=", "<<=", "==", "!=", "<=", ">=", "<=>", "&&", "||", "++", "--", ",", "->*", "->", "()", "[]",
                                  " new", " new[]", " delete", " delete[]", " co_await", " int", " bool", " void*", " T&&", " ns::Z", " auto", " decltype(nullptr)", " decltype(auto)"};
extern "C" void h_operators() {
  std::string op = PICK(ops);
  std::string cls = "X" + ident(1);
  std::string t = sym_bool("cls_template") ? "<int, S<a>>" : "";
  std::string f = sym_bool("fn_template") ? (op == "<" || op == "<<" || op == ">" || op == ">>" || op == "-" || op == "->" ? " <int>" : "<int>") : "";
  std::string r = sym_bool("ret") ? "bool " : "";
  bool named = sym_bool("member");
  std::string tail = sym_bool("nested") ? "::test" : "";
  std::string pre = named ? cls + t + "::" : "", prew = named ? cls + "::" : "";
  if (op[0] == ' ') { sym_assume(f.empty()); }
  expect(r + pre + "operator" + op + f + "(" + cls + " const&)" + (named ? " const" : "") + tail + (tail.empty() ? "" : "()"), prew + "operator" + op + tail);
  sym_cover("operator");
}
extern "C" void h_local() {
  uint64_t k = sym_pick(0, 7, "shape");
  std::string a = "f" + ident(3);
  std::string d = std::string(1, (char)('0' + sym_pick(0, 9, "n")));
  std::string t = sym_bool("targ") ? "<int>" : "";
  std::string mid, want;
  switch (k) {
    case 0: mid = "{lambda(int)#" + d + "}"; want = "<lambda#" + d + ">"; break;
    case 1: mid = "{lambda<typename $T0>($T0)#" + d + "}"; want = "<lambda#" + d + ">"; break;
    case 2: mid = "'lambda" + d + "'(int)"; want = "<lambda" + d + ">"; break;
    case 3: mid = "'lambda'<typename $T>($T)"; want = "<lambda>"; break;
    case 4: mid = "{unnamed type#" + d + "}"; want = "<unnamed type#" + d + ">"; break;
    case 5: mid = "S" + d + "::bar() const"; want = "S" + d + "::bar"; break;
    case 6: mid = "$_" + d; want = "$_" + d; break;
    default: mid = "'unnamed" + d + "'"; want = "<unnamed" + d + ">"; break;
  }
  std::string in = "auto ns::" + a + t + "(int) const::" + mid + "::operator()" + t + "(char) const";
  std::string out = cpptrace::prune_symbol(in);
  sym_assert(out == "ns::" + a + "::" + want + "::operator()", "local entity pruned to the wrong name");
  // enclosing function quoted by the Microsoft demangler
  std::string ms = "void `int ns::" + a + t + "(void)'::`" + d + "'::S::bar" + t + "(void)const";
  sym_assert(cpptrace::prune_symbol(ms) == "`ns::" + a + "'::`" + d + "'::S::bar", "quoted enclosing function pruned to the wrong name");
  sym_cover("local");
}
// string and character literals inside template arguments: any characters, escapes included, never disturb the rest
extern "C" void h_literal_args() {
  bool dq = sym_bool("double_quote");
  char q = dq ? '"' : '\'';
  std::string lit;
  uint64_t n = sym_pick(0, 2 + FULL, "len");
  for (uint64_t i = 0; i < n; i++) {
    uint8_t c = sym_u8("ch");
    if (sym_bool("escaped")) lit += '\\';
    else sym_assume((c != '\\') & (c != (uint8_t)q));
    lit += (char)c;
  }
  std::string a = "f" + ident(1);
  expect("void " + a + "<S{" + q + lit + q + "}>()::test", a + "::test");
  sym_cover("literal");
}
