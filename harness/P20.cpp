//@bounds histories of up to STEPS operations out of eighteen (generating each kind of trace, every resolution, text, demangling, copying, object queries, freeing each kind) over one holder of each kind, traces of 0..2 frames, with failures of capture, lookup or resolution, then freeing everything, twice
//@bound STEPS 3 4
//@assume capture, object lookup and symbol resolution are replaced by functions that answer per address; memory does not run out (the C interface has no way to report it)
//@entry {"name":"h_history","jobs":8,"covers":["done","empty text","failed"]}
//@entry {"name":"h_null","jobs":1,"covers":["null"]}
#include "common.h"
#include <ctrace/ctrace.h>
#include "options.hpp"
#include "utils/error.hpp"
#include "binary/safe_dl.hpp"
#include <cstdarg>
#include <cstdio>
using namespace cpptrace;
namespace {
size_t n; uint64_t addr[4], obj[4];
std::vector<stacktrace_frame> frames;
int failWhere; size_t gotSkip, gotDepth; int objectAsks, rawAsks, objResolves;
const char* paths[4] = {"/lib/p0", "", "/lib/p2", "/lib/p3"};
size_t which(uint64_t a) { for (size_t i = 0; i < n; i++) if (addr[i] == a) return i; sym_fail("another address"); }
struct Fail {};
void maybeFail(int w) { if (failWhere == w) throw Fail{}; }
}
std::vector<frame_ptr> vp_capture(size_t, size_t) VP_CAPTURE_FRAMES;
__attribute__((noinline)) std::vector<frame_ptr> vp_capture(size_t skip, size_t depth) { gotSkip = skip; gotDepth = depth; maybeFail(1); return {addr, addr + n}; }
object_frame vp_info(frame_ptr) VP_ENV("_ZN8cpptrace2v16detail21get_frame_object_infoEm");
object_frame vp_info(frame_ptr a) { maybeFail(2); size_t i = which(a); return {a, obj[i], paths[i]}; }
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>&) VP_OBJECT_INFO;
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>& f) { objectAsks++; maybeFail(2); std::vector<object_frame> r; for (auto a : f) { size_t i = which(a); r.push_back({a, obj[i], paths[i]}); } return r; }
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>&) VP_RESOLVE_RAW;
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) { rawAsks++; maybeFail(3); std::vector<stacktrace_frame> r; for (auto a : f) r.push_back(frames[which(a)]); return r; }
std::vector<stacktrace_frame> vp_resolveo(const std::vector<object_frame>&) VP_RESOLVE_OBJ;
std::vector<stacktrace_frame> vp_resolveo(const std::vector<object_frame>& f) {
  objResolves++; maybeFail(3);
  std::vector<stacktrace_frame> r;
  for (auto& a : f) { size_t i = which(a.raw_address); sym_assert(a.object_address == obj[i] && a.object_path == paths[i], "resolution is asked about the frame's object and object address"); r.push_back(frames[i]); }
  return r;
}
extern "C" char* vp_env___cxa_demangle(const char* m, char*, size_t*, int* st) {
  if (strcmp(m, "_Z3foov")) { *st = -2; return nullptr; }
  char* p = (char*)VP_MALLOC(6); memcpy(p, "foo()", 6); *st = 0; return p;
}

namespace {
void make() {
  n = sym_pick(0, 2, "frames");
  for (size_t i = 0; i < n; i++) {
    addr[i] = 0xab00 + i; obj[i] = 0xcd00 + i;
    frames.push_back({addr[i], obj[i], {(uint32_t)(3 + i)}, nullable<uint32_t>::null(), "some/file/name/longer/than/inline.cpp", i ? "" : "_Z3foov", false});
  }
}
ctrace_raw_trace raw; ctrace_object_trace objs; ctrace_stacktrace st, st2; ctrace_owning_string str;
uint64_t steps;
void checkStack(const ctrace_stacktrace& t) {
  if (!t.frames) { sym_assert(t.count == 0, "an empty trace has no frames"); return; }
  sym_assert(t.count == n, "the trace is still complete");
  for (size_t i = 0; i < n; i++) sym_assert(t.frames[i].raw_address == addr[i] && !strcmp(t.frames[i].filename, frames[i].filename.c_str()) && !strcmp(t.frames[i].symbol, i ? "" : "foo()"), "the trace still owns its text");
}
void check() {
  if (raw.frames) { sym_assert(raw.count == n, "the raw trace is complete"); for (size_t i = 0; i < n; i++) sym_assert(raw.frames[i] == addr[i], "raw frames intact"); } else sym_assert(raw.count == 0, "an empty trace has no frames");
  if (objs.frames) { sym_assert(objs.count == n, "the object trace is complete"); for (size_t i = 0; i < n; i++) sym_assert(!strcmp(objs.frames[i].obj_path, paths[i]), "object frames intact"); } else sym_assert(objs.count == 0, "an empty trace has no frames");
  checkStack(st); checkStack(st2);
  if (str.data) sym_assert(sym_valid(str.data, strlen(str.data) + 1), "the text is still owned");
}
void freeAll() {
  ctrace_free_raw_trace(&raw); ctrace_free_object_trace(&objs); ctrace_free_stacktrace(&st); ctrace_free_stacktrace(&st2); ctrace_free_owning_string(&str);
  sym_assert(!raw.frames && !raw.count && !objs.frames && !objs.count && !st.frames && !st.count && !st2.frames && !st2.count && !str.data, "freed objects are empty");
}
}
extern "C" void h_history() {
  (void)stacktrace{}.to_string();
  set_log_callback([](log_level, const char*) {});
  make();
  frames.shrink_to_fit();
  uint64_t base = sym_live_allocs();
  for (steps = 0; steps < STEPS; steps++) {
    uint64_t op = sym_pick(0, 17, "operation");
    failWhere = op < 3 && sym_pick(0, 1, "fails") ? 1 : 0;
    switch (op) {
      // a holder is refilled only after it has been freed
      case 0: if (!raw.frames) raw = ctrace_generate_raw_trace(0, 9); break;
      case 1: if (!objs.frames) objs = ctrace_generate_object_trace(0, 9); break;
      case 2: if (!st.frames) st = ctrace_generate_trace(0, 9); break;
      case 3: if (!st.frames) st = ctrace_resolve_raw_trace(&raw); break;
      case 4: if (!objs.frames) objs = ctrace_resolve_raw_trace_to_object_trace(&raw); break;
      case 5: if (!st2.frames) st2 = ctrace_resolve_object_trace(&objs); break;
      case 6: if (!str.data) { str = ctrace_stacktrace_to_string(&st, 0); sym_assert((strstr(str.data, "foo()") != nullptr) == (st.frames && n), "text of the trace"); if (!st.frames) sym_cover("empty text"); } break;
      case 7: if (!str.data) { str = ctrace_demangle("_Z3foov"); sym_assert(!strcmp(str.data, "foo()"), "demangled"); } break;
      case 8: if (!str.data) { char tmp[4] = "abc"; str = ctrace_generate_owning_string(tmp); tmp[0] = 0; sym_assert(!strcmp(str.data, "abc"), "copied"); } break;
      case 9: if (st.frames && n) { auto o = ctrace_get_object_info(&st.frames[0]); sym_assert(!strcmp(o.obj_path, paths[0]), "object of a frame"); ctrace_owning_string p{o.obj_path}; ctrace_free_owning_string(&p); } break;
      case 10: ctrace_free_raw_trace(&raw); break;
      case 11: ctrace_free_object_trace(&objs); break;
      case 12: ctrace_free_stacktrace(&st); break;
      case 13: ctrace_free_stacktrace(&st2); break;
      case 14: ctrace_free_owning_string(&str); break;
      case 15: if (!st2.frames) { failWhere = 3; st2 = ctrace_resolve_raw_trace(&raw); failWhere = 0; sym_assert(!st2.frames && !st2.count, "a failure gives an empty trace"); sym_cover("failed"); } break;
      case 16: if (!st2.frames) { failWhere = 3; st2 = ctrace_resolve_object_trace(&objs); failWhere = 0; sym_assert(!st2.frames && !st2.count, "a failure gives an empty trace"); } break;
      default: { failWhere = 2; auto o = ctrace_resolve_raw_trace_to_object_trace(&raw); failWhere = 0; sym_assert(!o.frames && !o.count, "a failure gives an empty trace"); break; }
    }
    check();
  }
  freeAll();
  sym_assert(sym_live_allocs() == base, "exactly the acquired memory is released");
  freeAll();
  sym_assert(sym_live_allocs() == base, "freeing twice is harmless");
  // freed objects behave as empty ones
  sym_assert(!ctrace_resolve_raw_trace(&raw).frames && !ctrace_resolve_raw_trace_to_object_trace(&raw).frames && !ctrace_resolve_object_trace(&objs).frames, "freed traces resolve to nothing");
  sym_cover("done");
}
extern "C" int vp_env_fprintf(FILE*, const char*, ...) { return 1; }
extern "C" int vp_env_fflush(FILE*) { return 0; }
extern "C" void h_null() {
  (void)stacktrace{}.to_string();
  uint64_t base = sym_live_allocs();
  ctrace_free_raw_trace(nullptr); ctrace_free_object_trace(nullptr); ctrace_free_stacktrace(nullptr); ctrace_free_owning_string(nullptr);
  ctrace_owning_string e{nullptr}; ctrace_free_owning_string(&e);
  auto a = ctrace_resolve_raw_trace(nullptr); auto b = ctrace_resolve_raw_trace_to_object_trace(nullptr); auto c = ctrace_resolve_object_trace(nullptr);
  sym_assert(!a.frames && !a.count && !b.frames && !b.count && !c.frames && !c.count, "null resolves to nothing");
  ctrace_stacktrace none{nullptr, 3};
  auto s = ctrace_stacktrace_to_string(sym_pick(0, 1, "null") ? nullptr : &none, 0);
  sym_assert(!strcmp(s.data, "<empty trace>"), "text of nothing");
  auto d = ctrace_demangle(nullptr), g = ctrace_generate_owning_string(nullptr);
  sym_assert(!*d.data && !*g.data, "null text is empty");
  ctrace_print_stacktrace(nullptr, (FILE*)&none, 0); ctrace_print_stacktrace(&none, (FILE*)&none, 0);
  auto o = ctrace_get_object_info(nullptr);
  sym_assert(!o.raw_address && !o.obj_address && !o.obj_path, "no frame, no object");
  ctrace_free_owning_string(&s); ctrace_free_owning_string(&d); ctrace_free_owning_string(&g);
  sym_assert(sym_live_allocs() == base, "exactly the acquired memory is released");
  sym_cover("null");
}
