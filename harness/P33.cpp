//@bound N 2 3
//@bounds traces of 0..N frames of every shape (inline or not, file and symbol absent or present, line and column absent or present), streams that are and are not terminals; every pair of frames differing in any subset of their six compared fields, with arbitrary addresses, lines and columns; raw, object and resolved traces of 0..N frames for iteration and clearing
//@assume iostreams are replaced by a model whose streams append to a string; isatty answers arbitrarily per descriptor
//@entry {"name":"h_text","jobs":8,"covers":["empty","frames","terminal"]}
//@entry {"name":"h_snippets","jobs":2,"covers":["snippets"]}
//@entry {"name":"h_equal","jobs":8,"covers":["equal","different"]}
//@entry {"name":"h_iterate","jobs":2,"covers":["iterated"]}
//@entry {"name":"h_object_info","jobs":2,"covers":["object"]}
#include "common.h"
#include <cpptrace/formatting.hpp>
#include <cpptrace/io.hpp>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace cpptrace;
namespace { bool tty[3]; const char text[] = "one\ntwo\nthree\n"; }
extern "C" int vp_env_isatty(int fd) { return fd >= 0 && fd < 3 && tty[fd]; }
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) { if (strcmp(p, "dir/f.cpp")) return false; o->data = text; o->n = sizeof text - 1; return true; }
object_frame vp_object(frame_ptr a) VP_ENV("_ZN8cpptrace2v16detail21get_frame_object_infoEm");
object_frame vp_object(frame_ptr a) { return {a, a ^ 0xff, "obj"}; }
namespace {
stacktrace_frame frame(uint64_t i) {
  stacktrace_frame f{0x1000 + i, 0x2000 + i, {}, {}, "", "", false};
  uint64_t shape = sym_pick(0, 15, "shape");
  if (shape & 1) f.symbol = "fn(int)"; if (shape & 2) f.filename = "dir/f.cpp"; if (shape & 4) { f.line = 2; f.column = 3; } f.is_inline = shape & 8;
  return f;
}
}
extern "C" void h_text() {
  tty[1] = sym_pick(0, 1, "stdout_tty"); tty[2] = sym_pick(0, 1, "stderr_tty");
  stacktrace t; uint64_t n = sym_pick(0, N, "frames");
  for (uint64_t i = 0; i < n; i++) t.frames.push_back(frame(i));
  std::string plain = t.to_string(), colored = t.to_string(true);
  sym_assert(plain == t.to_string(false) && plain == get_default_formatter().format(t), "text of a trace");
  sym_assert(plain.find('\033') == std::string::npos, "colour in plain text");
  std::ostringstream a, b, c, d; 
  t.print(a); b << t; t.print(c, false); t.print(d, true);
  sym_assert(a.str() == plain + "\n" && b.str() == plain + "\n" && c.str() == plain + "\n", "printing and streaming a trace give other text than converting it");
  sym_assert(d.str() == colored + "\n", "printing in colour gives other text than converting in colour");
  std::cout.sink.clear(); std::cerr.sink.clear();
  t.print(); 
  sym_assert(std::cout.sink == (tty[1] ? colored : plain) + "\n", "printing to standard output");
  std::cout.sink.clear(); std::cout << t; std::cerr << t;
  sym_assert(std::cout.sink == (tty[1] ? colored : plain) + "\n" && std::cerr.sink == (tty[2] ? colored : plain) + "\n", "streaming to the standard streams");
  for (auto& f : t) {
    std::ostringstream o; o << f;
    sym_assert(o.str() == f.to_string() && f.to_string() == f.to_string(false), "streaming a frame gives other text than converting it");
    sym_assert(f.to_string(true) == get_default_formatter().format(f, true), "frame in colour");
    std::string one = "#"; 
    if (n == 1) sym_assert(plain.size() >= f.to_string().size() && plain.substr(plain.size() - f.to_string().size()) == f.to_string(), "a trace shows its frame's text");
  }
  if (tty[1]) sym_cover("terminal");
  sym_cover(n ? "frames" : "empty");
}
extern "C" void h_snippets() {
  tty[1] = sym_pick(0, 1, "stdout_tty");
  stacktrace t; uint64_t n = sym_pick(0, 2, "frames");
  for (uint64_t i = 0; i < n; i++) t.frames.push_back(frame(i));
  auto fm = formatter{}.snippets(true);
  std::ostringstream a, b, c; t.print_with_snippets(a); t.print_with_snippets(b, false); t.print_with_snippets(c, true);
  sym_assert(a.str() == fm.format(t) + "\n" && b.str() == a.str() && c.str() == fm.format(t, true) + "\n", "printing with snippets");
  std::cout.sink.clear(); t.print_with_snippets();
  sym_assert(std::cout.sink == fm.format(t, tty[1]) + "\n", "printing with snippets to standard output");
  sym_cover("snippets");
}
extern "C" void h_equal() {
  static const char* names[] = {"", "a", "b", "aa"};
  auto sym = [](const char* n) { stacktrace_frame f{}; std::string s = n;
    f.raw_address = sym_u64("raw"); f.object_address = sym_u64("obj"); f.line.raw_value = sym_u32("line"); f.column.raw_value = sym_u32("column");
    f.filename = names[sym_pick(0, 3, "file")]; f.symbol = names[sym_pick(0, 3, "symbol")]; f.is_inline = false; return f; };
  stacktrace_frame a = sym("a"), b = sym("b");
  a.is_inline = b.is_inline = sym_bool("inline");
  bool same = (a.raw_address == b.raw_address) & (a.object_address == b.object_address) & (a.line.raw_value == b.line.raw_value) & (a.column.raw_value == b.column.raw_value) & (a.filename == b.filename) & (a.symbol == b.symbol);
  bool eq = a == b;
  sym_assert(eq == same, "equality of frames is not equality of all their fields");
  sym_assert((a != b) == !same && (b == a) == same, "inequality and symmetry");
  sym_assert(a == a, "a frame equals itself");
  sym_cover(eq ? "equal" : "different");
}
namespace {
template<class Tr, class Fr> void iterate(Tr t, const std::vector<Fr>& want) {
  size_t i = 0; const Tr& c = t;
  for (auto& f : t) { sym_assert(&f == &t.frames[i], "iteration order"); i++; }
  sym_assert(i == want.size(), "iteration covers every frame");
  i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) sym_assert(&*it == &c.frames[i], "const iteration");
  sym_assert(i == want.size(), "const iteration covers every frame");
  i = 0; for (auto it = c.cbegin(); it != c.cend(); ++it, i++) sym_assert(&*it == &c.frames[i], "cbegin iteration");
  sym_assert(i == want.size() && t.empty() == want.empty() && c.empty() == want.empty(), "emptiness");
  Tr copy = t; copy.clear();
  sym_assert(copy.empty() && copy.frames.empty() && copy.begin() == copy.end() && t.frames.size() == want.size(), "clearing");
}
}
extern "C" void h_iterate() {
  uint64_t n = sym_pick(0, N + 1, "n");
  raw_trace r; object_trace o; stacktrace s;
  for (uint64_t i = 0; i < n; i++) { r.frames.push_back(i); o.frames.push_back({i, i, "x"}); s.frames.push_back(stacktrace_frame{i, i, {}, {}, "", "", false}); }
  iterate(r, r.frames); iterate(o, o.frames); iterate(s, s.frames);
  sym_cover("iterated");
}
extern "C" void h_object_info() {
  stacktrace_frame f{(frame_ptr)sym_u64("raw"), 5, {}, {}, "", "", false};
  object_frame o = f.get_object_info();
  sym_assert(o.raw_address == f.raw_address && o.object_address == (f.raw_address ^ 0xff) && o.object_path == "obj", "object information is looked up by the raw address");
  sym_cover("object");
}
