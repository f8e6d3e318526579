//@bound N 3 4
//@bounds every combination of address, path, column, break, symbol and colour options over a frame of every shape (inline or not, file absent, bare or with directories, symbol absent, plain or with template arguments, line and column absent or one of twelve values of 1..10 digits, addresses of every 64-bit value); traces of 0..N frames with every filter verdict, position and spelling of the throw machinery, placeholders, header, transform and snippet options; every colour mode against every override and stream
//@assume iostreams are replaced by a model whose streams append to a string; isatty answers arbitrarily per descriptor
//@entry {"name":"h_frame","jobs":8,"covers":["inline","plain"]}
//@entry {"name":"h_values","jobs":8,"covers":["values"]}
//@entry {"name":"h_trace","jobs":8,"covers":["empty","shown","hidden","placeholder","machinery"]}
//@entry {"name":"h_wide","jobs":4,"covers":["wide"]}
//@entry {"name":"h_snippet","jobs":4,"covers":["snippet","no snippet"]}
//@entry {"name":"h_color","jobs":4,"covers":["coloured","plain text"]}
//@entry {"name":"h_sinks","jobs":2,"covers":["sinks"]}
#include "common.h"
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdio>
using namespace cpptrace;
namespace {
bool tty[3];
std::string* written; FILE* file = (FILE*)0x1234; int writes;
const char* fileText; 
}
extern "C" int vp_env_isatty(int fd) { return fd >= 0 && fd < 3 && tty[fd]; }
extern "C" size_t vp_env_fwrite(const void* p, size_t a, size_t b, FILE* f) { sym_assert(f == file, "written to another file"); written->append((const char*)p, a * b); writes++; return b; }
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) { if (!fileText || strcmp(p, "dir/a.cpp")) return false; o->data = fileText; o->n = strlen(fileText); return true; }
namespace {
using F = formatter;
struct Opt { bool color = false; int addr = 0, path = 0; bool brk = false, columns = true; int sym = 0; };
std::string hex16(uint64_t v) { std::string s(16, '0'); static const char d[] = "0123456789abcdef"; for (int i = 0; i < 16; i++) s[15 - i] = d[(v >> (4 * i)) & 15]; return s; }
std::string dec(uint64_t v) { std::string s; do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v); return s; }
std::string base(const std::string& p) { auto i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
// what a frame must look like, written from the documentation
std::string render(const stacktrace_frame& f, const Opt& o, size_t indent) {
  std::string s, R_ = o.color ? "\033[0m" : "", G = o.color ? "\033[32m" : "", Y = o.color ? "\033[33m" : "", B = o.color ? "\033[34m" : "";
  size_t col = indent;
  if (f.is_inline) { s += "(inlined)         "; col += 18; }
  else if (o.addr != 2) { s += B + "0x" + hex16(o.addr == 0 ? f.raw_address : f.object_address) + R_; col += 18; }
  if (f.is_inline || o.addr != 2) { s += ' '; col++; }
  if (!f.symbol.empty()) s += "in " + Y + (o.sym == 0 ? f.symbol : o.sym == 1 ? prettify_symbol(f.symbol) : prune_symbol(f.symbol)) + R_;
  if (!f.symbol.empty() && !f.filename.empty()) { if (o.brk) s += "\n" + std::string(col, ' '); else s += ' '; }
  if (!f.filename.empty()) {
    s += "at " + G + (o.path == 0 ? f.filename : base(f.filename)) + R_;
    if (f.line.has_value()) { s += ":" + B + dec(f.line.value()) + R_; if (f.column.has_value() && o.columns) s += ":" + B + dec(f.column.value()) + R_; }
  }
  return s;
}
F configured(const Opt& o) {
  F f;
  f.addresses(o.addr == 0 ? F::address_mode::raw : o.addr == 1 ? F::address_mode::object : F::address_mode::none)
   .paths(o.path == 0 ? F::path_mode::full : F::path_mode::basename).columns(o.columns).break_before_filename(o.brk)
   .symbols(o.sym == 0 ? F::symbol_mode::full : o.sym == 1 ? F::symbol_mode::pretty : F::symbol_mode::pruned);
  return f;
}
}
extern "C" void h_frame() {
  Opt o; o.color = sym_pick(0, 1, "color"); o.addr = (int)sym_pick(0, 2, "addresses"); o.path = (int)sym_pick(0, 1, "paths");
  o.brk = sym_pick(0, 1, "break"); o.columns = sym_pick(0, 1, "columns");
  static const char* files[] = {"", "a.cpp", "dir/sub/a.cpp"};
  static const char* syms[] = {"", "main", "foo<int>(A<int> )"};
  stacktrace_frame f{0x1234abcd, 0x77, {}, {}, files[sym_pick(0, 2, "file")], syms[sym_pick(0, 2, "symbol")], false};
  f.is_inline = sym_pick(0, 1, "inline");
  if (f.symbol.size() > 4) o.sym = (int)sym_pick(0, 2, "symbols");
  uint64_t pos = sym_pick(0, 3, "position");
  if (pos & 1) f.line = 20; if (pos & 2) f.column = 7;
  size_t indent = o.brk ? sym_pick(0, 3, "indent") : 0;
  F fm = configured(o);
  sym_assert(fm.format(f, o.color, indent) == render(f, o, indent), "a frame's text is not what the options ask for");
  std::ostringstream ss;
  fm.print(ss, f, o.color, indent);
  sym_assert(ss.str() == render(f, o, indent) + "\n", "printing a frame differs from its text");
  sym_cover(f.is_inline ? "inline" : "plain");
}
extern "C" void h_values() {
  static const uint32_t nums[] = {0, 1, 9, 10, 99, 100, 12345, 999999, 2147483647, 2147483648u, 4000000000u, 4294967294u};
  Opt o; o.addr = (int)sym_pick(0, 1, "addresses");
  stacktrace_frame f{0x10, 0x20, {}, {}, "f", "s", false};
  switch (sym_pick(0, 2, "what")) {
    case 0: f.raw_address = sym_u64("raw"); f.object_address = sym_u64("object"); break;
    case 1: f.line = nums[sym_pick(0, 11, "line")]; break;
    default: f.line = 3; f.column = nums[sym_pick(0, 11, "column")]; break;
  }
  F fm = configured(o);
  sym_assert(fm.format(f) == render(f, o, 0), "a frame's text does not show its values");
  sym_cover("values");
}
extern "C" void h_trace() {
  uint64_t n = sym_pick(0, N, "frames");
  bool hide = sym_pick(0, 1, "hide"), show = sym_pick(0, 1, "placeholders"), header = sym_pick(0, 1, "header"), transform = sym_pick(0, 1, "transform"), filter = sym_pick(0, 1, "filter");
  uint64_t at = n ? sym_pick(0, n, "throw_at") : 0;   // n: not there
  static const char* spell[] = {"__cxa_throw", "CxxThrowException", "_CxxThrowException", "my__cxa_throw"};
  uint64_t sp = at < n ? sym_pick(0, 3, "spelling") : 3;
  Opt o;
  stacktrace t; std::vector<bool> keep; int calls = 0;
  for (uint64_t i = 0; i < n; i++) {
    std::string name = "fn" + dec(i);
    if (i == at) name = spell[sp];
    t.frames.push_back({0x1000 + i, 0x2000 + i, {(uint32_t)i}, {}, i & 1 ? "" : "x.cpp", name, i == 2});
    keep.push_back(filter ? sym_pick(0, 1, "keep") : true);
  }
  F fm = configured(o);
  fm.hide_exception_machinery(hide).filtered_frame_placeholders(show).header(header ? "Head:" : "");
  if (transform) fm.transform([&calls](stacktrace_frame f) { calls++; f.symbol = "T" + f.symbol; return f; });
  if (filter) fm.filter([&](const stacktrace_frame& f) { uint64_t i = f.raw_address - 0x1000; sym_assert((f.symbol[0] == 'T') == transform, "the filter sees the transformed frame"); return (bool)keep[i]; });
  std::string want = header ? "Head:\n" : "";
  uint64_t start = hide && at < n && sp < 3 ? at + 1 : 0;
  if (start) sym_cover("machinery");
  if (!n) { want += "<empty trace>"; sym_cover("empty"); }
  bool first = true;
  for (uint64_t i = start; i < n; i++) {
    if (!keep[i] && !show) { sym_cover("hidden"); continue; }
    if (!first) want += '\n';
    first = false;
    want += "#" + dec(i - start) + " ";
    if (!keep[i]) { want += "(filtered)"; sym_cover("placeholder"); continue; }
    stacktrace_frame f = t.frames[i]; if (transform) f.symbol = "T" + f.symbol;
    want += render(f, o, 3); sym_cover("shown");
  }
  sym_assert(fm.format(t) == want, "the text of a trace is not header, shown frames in order, placeholders");
  sym_assert(calls == (transform ? (int)(n - start) : 0), "each frame is transformed once");
  std::ostringstream ss; fm.print(ss, t);
  sym_assert(ss.str() == want + "\n", "printing differs from the text");
}
// frame numbers are padded to the widest one
extern "C" void h_wide() {
  static const int sizes[] = {1, 9, 10, 11, 12, 100, 101};
  int n = sizes[sym_pick(0, 6, "frames")];
  bool brk = sym_pick(0, 1, "break");
  Opt o; o.brk = brk;
  stacktrace t;
  for (int i = 0; i < n; i++) t.frames.push_back({(frame_ptr)i, 0, {1}, {}, "f", "s", false});
  size_t w = n - 1 >= 100 ? 3 : n - 1 >= 10 ? 2 : 1;
  std::string want = "Stack trace (most recent call first):";
  for (int i = 0; i < n; i++) { std::string d = dec((uint64_t)i); want += "\n#" + d + std::string(w - d.size(), ' ') + " " + render(t.frames[i], o, 2 + w); }
  F fm = configured(o);
  sym_assert(fm.format(t) == want, "numbering of a long trace");
  sym_cover("wide");
}
extern "C" void h_snippet() {
  fileText = "l1\nl2\nl3\nl4\n";
  bool on = sym_pick(0, 1, "snippets"), color = sym_pick(0, 1, "color");
  uint64_t ctx = sym_pick(0, 2, "context"), line = sym_pick(0, 4, "line"), two = sym_pick(0, 1, "two");
  bool inl = sym_pick(0, 1, "filtered");
  Opt o; o.color = color;
  F fm = configured(o);
  fm.snippets(on).snippet_context((int)ctx);
  if (inl) fm.filter([](const stacktrace_frame& f) { return f.raw_address != 5; });
  stacktrace t; t.frames.push_back({5, 0, {}, {}, sym_pick(0, 1, "file") ? "dir/a.cpp" : "missing.cpp", "s", false});
  if (line) t.frames[0].line = (uint32_t)line;
  if (sym_pick(0, 1, "column")) t.frames[0].column = 2;
  if (two) t.frames.push_back({6, 0, {2}, {}, "dir/a.cpp", "s", false});
  std::string want = "Stack trace (most recent call first):";
  bool any = false;
  for (size_t i = 0; i < t.frames.size(); i++) {
    auto& f = t.frames[i];
    want += "\n#" + dec(i) + " ";
    if (inl && f.raw_address == 5) { want += "(filtered)"; continue; }
    want += render(f, o, 3);
    if (on && f.line.has_value()) { std::string s = get_snippet(f.filename, f.line.value(), f.column, ctx, color); if (!s.empty()) { want += "\n" + s; any = true; sym_assert(s.find("l") != std::string::npos, "snippet text"); } }
  }
  sym_assert(fm.format(t, color) == want, "a snippet follows each shown frame that has a line in a readable file");
  sym_cover(any ? "snippet" : "no snippet");
}
extern "C" void h_color() {
  tty[1] = sym_pick(0, 1, "stdout_tty"); tty[2] = sym_pick(0, 1, "stderr_tty");
  F fm;
  uint64_t mode = sym_pick(0, 3, "mode");
  if (mode < 3) fm.colors(mode == 0 ? F::color_mode::always : mode == 1 ? F::color_mode::none : F::color_mode::automatic);
  uint64_t over = sym_pick(0, 2, "override");    // 2: not given
  bool c = over == 1;
  uint64_t sink = sym_pick(0, 4, "sink");
  bool single = sym_pick(0, 1, "single");
  stacktrace t; t.frames.push_back({5, 0, {3}, {}, "f", "s", false});
  const stacktrace_frame& f = t.frames[0];
  std::cout.sink.clear(); std::cerr.sink.clear();
  std::string got, out; written = &out;
  std::ostringstream ss;
  switch (sink) {
    case 0: got = (single ? over == 2 ? fm.format(f) : fm.format(f, c) : over == 2 ? fm.format(t) : fm.format(t, c)) + "\n"; break;
    case 1: if (single) { over == 2 ? fm.print(ss, f) : fm.print(ss, f, c); } else { over == 2 ? fm.print(ss, t) : fm.print(ss, t, c); } got = ss.str(); break;
    case 2: if (single) { over == 2 ? fm.print(f) : fm.print(f, c); } else { over == 2 ? fm.print(t) : fm.print(t, c); } got = std::cout.sink; break;
    case 3: if (single) { over == 2 ? fm.print(std::cerr, f) : fm.print(std::cerr, f, c); } else { over == 2 ? fm.print(std::cerr, t) : fm.print(std::cerr, t, c); } got = std::cerr.sink; break;
    default: if (single) { over == 2 ? fm.print(file, f) : fm.print(file, f, c); } else { over == 2 ? fm.print(file, t) : fm.print(file, t, c); } got = out; break;
  }
  bool want = over != 2 ? c : mode == 0 ? true : mode == 1 ? false : (sink == 2 && tty[1]) || (sink == 3 && tty[2]);
  Opt o; o.color = want;
  std::string text = single ? render(f, o, 0) : "Stack trace (most recent call first):\n#0 " + render(f, o, 3);
  sym_assert((got.find('\033') != std::string::npos) == want, "colour does not follow the request, the configured mode and the terminal");
  sym_assert(got == text + "\n", "text of a coloured trace");
  sym_cover(want ? "coloured" : "plain text");
}
extern "C" void h_sinks() {
  stacktrace t; uint64_t n = sym_pick(0, 2, "frames");
  for (uint64_t i = 0; i < n; i++) t.frames.push_back({5 + i, 0, {3}, {}, "f", "s", false});
  F fm;
  std::string out; written = &out; writes = 0;
  std::cout.sink.clear();
  fm.print(file, t); fm.print(t);
  std::string s = fm.format(t) + "\n";
  sym_assert(out == s && std::cout.sink == s, "every sink receives the same text");
  sym_assert(get_default_formatter().format(t) == fm.format(t), "the default formatter has the default configuration");
  sym_cover("sinks");
}
