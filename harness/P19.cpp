//@bounds traces of 0..NF frames; addresses symbolic, line and column each a symbolic number or missing, file and symbol each empty or not, inlined or not; every skip and depth; every conversion of the C interface; safe object frames of any address and path; hand-made C traces with missing strings
//@bound NF 2 3
//@assume capture, object lookup and symbol resolution are replaced by functions that answer per address and record what they were asked
//@entry {"name":"h_generate","jobs":8,"covers":["raw","object","trace","failed"]}
//@entry {"name":"h_text","jobs":8,"covers":["frames","empty"]}
//@entry {"name":"h_print","jobs":8,"covers":["printed","empty"]}
//@entry {"name":"h_misc","jobs":4,"covers":["safe","demangled","cache"]}
#include "common.h"
#include <ctrace/ctrace.h>
#include "options.hpp"
#include "utils/error.hpp"
#include "binary/safe_dl.hpp"
#include <cstdarg>
#include <cstdio>
using namespace cpptrace;
namespace {
size_t n; uint64_t addr[4], obj[4];
std::vector<stacktrace_frame> frames;
int failWhere; size_t gotSkip, gotDepth; int objectAsks, rawAsks, objResolves;
const char* paths[4] = {"/lib/p0", "", "/lib/p2", "/lib/p3"};
size_t which(uint64_t a) { for (size_t i = 0; i < n; i++) if (addr[i] == a) return i; sym_fail("another address"); }
struct Fail {};
void maybeFail(int w) { if (failWhere == w) throw Fail{}; }
}
std::vector<frame_ptr> vp_capture(size_t, size_t) VP_CAPTURE_FRAMES;
__attribute__((noinline)) std::vector<frame_ptr> vp_capture(size_t skip, size_t depth) { gotSkip = skip; gotDepth = depth; maybeFail(1); return {addr, addr + n}; }
object_frame vp_info(frame_ptr) VP_ENV("_ZN8cpptrace2v16detail21get_frame_object_infoEm");
object_frame vp_info(frame_ptr a) { maybeFail(2); size_t i = which(a); return {a, obj[i], paths[i]}; }
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>&) VP_OBJECT_INFO;
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>& f) { objectAsks++; maybeFail(2); std::vector<object_frame> r; for (auto a : f) { size_t i = which(a); r.push_back({a, obj[i], paths[i]}); } return r; }
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>&) VP_RESOLVE_RAW;
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) { rawAsks++; maybeFail(3); std::vector<stacktrace_frame> r; for (auto a : f) r.push_back(frames[which(a)]); return r; }
std::vector<stacktrace_frame> vp_resolveo(const std::vector<object_frame>&) VP_RESOLVE_OBJ;
std::vector<stacktrace_frame> vp_resolveo(const std::vector<object_frame>& f) {
  objResolves++; maybeFail(3);
  std::vector<stacktrace_frame> r;
  for (auto& a : f) { size_t i = which(a.raw_address); sym_assert(a.object_address == obj[i] && a.object_path == paths[i], "resolution is asked about the frame's object and object address"); r.push_back(frames[i]); }
  return r;
}
extern "C" char* vp_env___cxa_demangle(const char* m, char*, size_t*, int* st) {
  if (strcmp(m, "_Z3foov")) { *st = -2; return nullptr; }
  char* p = (char*)VP_MALLOC(6); memcpy(p, "foo()", 6); *st = 0; return p;
}
extern "C" int vp_env_isatty(int) { return 0; }
namespace {
const char* syms[3] = {"", "_Z3foov", "plain name"};
void make(bool symbolicText, bool concreteNumbers) {
  n = sym_pick(0, NF, "frames");
  for (size_t i = 0; i < n; i++) {
    addr[i] = concreteNumbers ? 0xab00 + i : (sym_u64("address") << 2) | i;
    obj[i] = concreteNumbers ? 0xcd00 + i : sym_u64("object address");
    stacktrace_frame f{addr[i], obj[i], nullable<uint32_t>::null(), nullable<uint32_t>::null(), "", "", false};
    uint64_t k = i == 0 || NF > 2 ? sym_pick(0, 4, "location") : 4;
    if (k >= 1) f.filename = "f.cpp";
    if (k >= 2) f.line = concreteNumbers ? 40 + i : (uint32_t)sym_range(0, 0xfffffffe, "line");
    if (k == 3) f.column = concreteNumbers ? 3 : (uint32_t)sym_range(0, 0xfffffffe, "column");
    if (k == 4) { f.filename = ""; f.column = 5; f.line = nullable<uint32_t>::null(); }
    f.symbol = syms[i == 0 ? sym_pick(0, 2, "symbol") : 1 + i % 2];
    f.is_inline = sym_pick(0, 1, "inline");
    frames.push_back(f);
  }
}
std::string shown(const std::string& s) { return s == "_Z3foov" ? "foo()" : s; }
void same(const ctrace_stacktrace& c) {
  sym_assert(c.count == n, "one C frame per frame");
  for (size_t i = 0; i < n; i++) {
    auto& f = c.frames[i]; auto& w = frames[i];
    sym_assert(f.raw_address == w.raw_address && f.object_address == w.object_address && (f.is_inline != 0) == w.is_inline, "addresses and inlining preserved");
    sym_assert(f.line == (w.line.has_value() ? w.line.value() : 0xffffffffu) && f.column == (w.column.has_value() ? w.column.value() : 0xffffffffu), "line and column preserved, missing ones marked");
    sym_assert(!strcmp(f.filename, w.filename.c_str()) && !strcmp(f.symbol, shown(w.symbol).c_str()), "file and demangled symbol preserved");
  }
}
void sameObjects(const ctrace_object_trace& o) {
  sym_assert(o.count == n, "one object frame per frame");
  for (size_t i = 0; i < n; i++) sym_assert(o.frames[i].raw_address == addr[i] && o.frames[i].obj_address == obj[i] && !strcmp(o.frames[i].obj_path, paths[i]), "object frames preserved");
}
}
extern "C" void h_generate() {
  set_log_callback([](log_level, const char*) {});
  absorb_trace_exceptions(sym_pick(0, 1, "absorb"));
  make(false, false);
  failWhere = sym_pick(0, 3, "failure");
  size_t skip = sym_range(0, 1000, "skip"), depth = sym_u64("depth");
  switch (sym_pick(0, 5, "api")) {
    case 0: {
      auto t = ctrace_generate_raw_trace(skip, depth);
      sym_assert(gotSkip == skip + 1 && gotDepth == depth, "the caller's window is captured");
      if (failWhere == 1) { sym_assert(!t.frames && !t.count, "a failure gives an empty trace"); sym_cover("failed"); break; }
      sym_assert(t.count == n, "every frame is returned");
      for (size_t i = 0; i < n; i++) sym_assert(t.frames[i] == addr[i], "raw frames preserved");
      sym_cover("raw");
      break;
    }
    case 1: {
      auto t = ctrace_generate_object_trace(skip, depth);
      sym_assert(gotSkip == skip + 1 && gotDepth == depth, "the caller's window is captured");
      if (failWhere == 1 || failWhere == 2) { sym_assert(!t.frames && !t.count, "a failure gives an empty trace"); break; }
      sameObjects(t); sym_cover("object");
      break;
    }
    case 2: {
      auto t = ctrace_generate_trace(skip, depth);
      sym_assert(gotSkip == skip + 1 && gotDepth == depth, "the caller's window is captured");
      if (failWhere == 1 || failWhere == 3) { sym_assert(!t.frames && !t.count, "a failure gives an empty trace"); break; }
      same(t); sym_cover("trace");
      break;
    }
    case 3: {
      ctrace_raw_trace r{addr, n};
      auto t = ctrace_resolve_raw_trace(&r);
      if (failWhere == 3) { sym_assert(!t.frames && !t.count, "a failure gives an empty trace"); break; }
      same(t);
      break;
    }
    case 4: {
      ctrace_raw_trace r{addr, n};
      auto t = ctrace_resolve_raw_trace_to_object_trace(&r);
      if (failWhere == 2) { sym_assert(!t.frames && !t.count, "a failure gives an empty trace"); break; }
      sameObjects(t);
      break;
    }
    default: {
      ctrace_object_frame of[4];
      for (size_t i = 0; i < n; i++) of[i] = {addr[i], obj[i], paths[i]};
      ctrace_object_trace o{of, n};
      auto t = ctrace_resolve_object_trace(&o);
      if (failWhere == 3) { sym_assert(!t.frames && !t.count, "a failure gives an empty trace"); break; }
      same(t);
      sym_assert(objResolves == 1 && rawAsks == 0, "an object trace is resolved from its objects, as in the C++ interface");
      break;
    }
  }
}
extern "C" void h_text() {
  make(true, true);
  bool color = sym_pick(0, 1, "color");
  auto t = ctrace_generate_trace(0, 99);
  auto s = ctrace_stacktrace_to_string(&t, color);
  stacktrace w{frames};
  for (auto& f : w.frames) f.symbol = shown(f.symbol);
  std::string want = w.to_string(color);
  sym_assert(want == s.data, "the text is the C++ text");
  sym_cover(n ? "frames" : "empty");
}
// printf-style output is collected with a small formatter
namespace {
std::string out; FILE* outFile = (FILE*)&out;
void put(const std::string& x, int w, bool left, char pad) { std::string p((int)x.size() < w ? w - x.size() : 0, pad); out += left ? x + p : p + x; }
}
extern "C" int vp_env_fprintf(FILE* f, const char* fmt, ...) {
  sym_assert(f == outFile, "writes to the caller's stream");
  va_list ap; va_start(ap, fmt);
  for (; *fmt; fmt++) {
    if (*fmt != '%') { out += *fmt; continue; }
    fmt++;
    bool left = false; char pad = ' '; int w = 0; bool ll = false;
    for (; *fmt == '-' || *fmt == '0'; fmt++) { if (*fmt == '-') left = true; else pad = '0'; }
    if (*fmt == '*') { w = va_arg(ap, int); fmt++; }
    while (*fmt == 'l') { ll = true; fmt++; }
    if (*fmt == 's') put(va_arg(ap, const char*), w, left, ' ');
    else {
      unsigned long long v = ll ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
      unsigned b = *fmt == 'x' ? 16 : 10;
      std::string d;
      do { d.insert(d.begin(), "0123456789abcdef"[v % b]); v /= b; } while (v);
      put(d, w, left, pad);
    }
  }
  va_end(ap);
  return 1;
}
extern "C" int vp_env_fputs(const char* s, FILE* f) { sym_assert(f == outFile, "writes to the caller's stream"); out += s; return 1; }
extern "C" int vp_env_fputc(int c, FILE* f) { sym_assert(f == outFile, "writes to the caller's stream"); out += (char)c; return c; }
extern "C" size_t vp_env_fwrite(const void* p, size_t a, size_t b, FILE* f) { sym_assert(f == outFile, "writes to the caller's stream"); out.append((const char*)p, a * b); return b; }
extern "C" int vp_env_fflush(FILE*) { return 0; }
extern "C" void h_print() {
  make(true, true);
  bool color = sym_pick(0, 1, "color");
  ctrace_stacktrace_frame cf[4];
  for (size_t i = 0; i < n; i++) {
    auto& w = frames[i];
    cf[i] = {w.raw_address, w.object_address, w.line.has_value() ? w.line.value() : 0xffffffffu, w.column.has_value() ? w.column.value() : 0xffffffffu, w.filename.c_str(), w.symbol.c_str(), (ctrace_bool)w.is_inline};
  }
  bool nullStrings = n && sym_pick(0, 1, "missing strings");
  if (nullStrings) { cf[0].filename = nullptr; cf[0].symbol = nullptr; frames[0].filename = frames[0].symbol = ""; }
  uint64_t k = sym_pick(0, 2, "trace");
  ctrace_stacktrace t{k == 1 ? nullptr : cf, n};
  if (k) { n = 0; frames.clear(); }
  ctrace_stacktrace* p = k == 2 ? nullptr : &t;
  ctrace_print_stacktrace(p, outFile, color);
  std::string want = "Stack trace (most recent call first):\n";
  std::string b = color ? "\033[34m" : "", y = color ? "\033[33m" : "", g = color ? "\033[32m" : "", r = color ? "\033[0m" : "";
  if (n == 0) { want += "<empty trace>\n"; sym_cover("empty"); }
  for (size_t i = 0; i < n; i++) {
    auto& w = frames[i];
    want += "#" + std::to_string(i) + " ";
    if (w.is_inline) want += "         (inlined)"; else { want += b + "0x000000000000ab0" + std::to_string(i) + r; }
    if (!w.symbol.empty()) want += " in " + y + w.symbol + r;
    if (!w.filename.empty()) {
      want += " at " + g + w.filename + r;
      if (w.line.has_value()) { want += ":" + b + std::to_string(w.line.value()) + r; if (w.column.has_value()) want += ":" + b + std::to_string(w.column.value()) + r; }
    }
    want += "\n";
    sym_cover("printed");
  }
  sym_assert(out == want, "one line per frame with exactly the fields present");
  // and the text conversion agrees that missing strings are empty
  auto s = ctrace_stacktrace_to_string(p, color);
  if (n) sym_assert(stacktrace{frames}.to_string(color) == s.data, "text of a hand-made trace");
  else sym_assert(strstr(s.data, "<empty trace>") != nullptr, "text of an empty trace");
}
void vp_safe(frame_ptr, safe_object_frame*) VP_ENV("_ZN8cpptrace2v16detail21get_safe_object_frameEmPNS0_17safe_object_frameE");
void vp_safe(frame_ptr a, safe_object_frame* o) { o->raw_address = a; o->address_relative_to_object_start = a - 0x1000; strcpy(o->object_path, "/x/y"); }
extern "C" void h_misc() {
  uint64_t a = sym_u64("address");
  ctrace_safe_object_frame so; memset(&so, 0x55, sizeof so);
  ctrace_get_safe_object_frame(a, &so);
  sym_assert(so.raw_address == a && so.relative_obj_address == a - 0x1000 && !strcmp(so.object_path, "/x/y"), "safe object frames have the same layout");
  sym_assert((bool)ctrace_can_get_safe_object_frame() == can_get_safe_object_frame() && (bool)ctrace_can_signal_safe_unwind() == can_signal_safe_unwind(), "capabilities agree");
  sym_cover("safe");
  const char* names[4] = {"_Z3foov", "bar", "", nullptr};
  const char* m = names[sym_pick(0, 3, "name")];
  auto d = ctrace_demangle(m);
  sym_assert(!strcmp(d.data, m ? shown(m).c_str() : ""), "demangling agrees"); sym_cover("demangled");
  auto g = ctrace_generate_owning_string(m);
  sym_assert(!strcmp(g.data, m ? m : "") && g.data != m, "an owned copy of the text");
  n = 1; addr[0] = 0x55; obj[0] = sym_u64("object address");
  ctrace_stacktrace_frame f{0x55, 0, 0, 0, "", "", 0};
  failWhere = sym_pick(0, 1, "failure") ? 2 : 0;
  auto i = ctrace_get_object_info(&f);
  if (failWhere) sym_assert(!i.raw_address && !i.obj_address && !i.obj_path, "a failure gives nothing");
  else sym_assert(i.raw_address == 0x55 && i.obj_address == obj[0] && !strcmp(i.obj_path, paths[0]), "object of a frame");
  uint32_t mode = sym_range(0, 5, "mode");
  cache_mode before = detail::get_cache_mode();
  ctrace_set_cache_mode((ctrace_cache_mode)mode);
  sym_assert(detail::get_cache_mode() == (mode <= 2 ? (cache_mode)mode : before), "cache modes have the same meaning, unknown ones are ignored"); sym_cover("cache");
  bool in = sym_pick(0, 1, "inlines");
  ctrace_enable_inlined_call_resolution(in);
  sym_assert(detail::should_resolve_inlined_calls() == in, "inlined call resolution is switched");
  sym_assert(ctrace_stdin_fileno() == 0 && ctrace_stdout_fileno() == 1 && ctrace_stderr_fileno() == 2 && !ctrace_isatty(1), "descriptors agree");
}
