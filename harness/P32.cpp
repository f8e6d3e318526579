//@bounds stacks of up to FRAMES frames of any program counters, unwinding ending or failing anywhere; every skip count and depth, buffers of up to FRAMES+1 entries; any address and any answer of the linker and of readlink, paths of up to LEN symbolic characters or longer than the limit; a signal that arrives around any call to the system (one per call to the library) whose handler calls the same functions for other frames
//@bound FRAMES 3 6
//@bound LEN 2 5
//@assume async-signal-safe are the functions POSIX lists as such, _dl_find_object, and libunwind's local unwinding; the functions were called before outside of a handler (README: warm-up)
//@group {"guardcalls":true,"defs":{"CPPTRACE_UNWIND_WITH_UNWIND":false,"CPPTRACE_UNWIND_WITH_LIBUNWIND":true},"inc":["$V/rt/stubs"]}
//@entry {"name":"h_unwind","jobs":6,"covers":["interrupted","written","empty","stops"]}
//@entry {"name":"h_object","jobs":6,"covers":["interrupted","none","object","program","unreadable","long"]}
//@entry {"name":"h_queries","jobs":1,"covers":["queried"]}
//@group {"guardcalls":true,"defs":{}}
//@entry {"name":"h_fallback","jobs":1,"covers":["fallback"]}
//@group {"guardcalls":true,"defs":{"CPPTRACE_UNWIND_WITH_UNWIND":false,"CPPTRACE_UNWIND_WITH_EXECINFO":true,"CPPTRACE_HAS_DL_FIND_OBJECT":false}}
//@entry {"name":"h_fallback","jobs":1,"covers":["fallback"]}
#include "common.h"
#include <ctrace/ctrace.h>
#include "binary/safe_dl.hpp"
using namespace cpptrace;
namespace {
uint64_t allocsBefore, locksBefore;
void enter() { allocsBefore = sym_total_allocs(); locksBefore = sym_lock_count(); sym_signal_handler(true); }
void leave() {
  sym_signal_handler(false);
  sym_assert(sym_total_allocs() == allocsBefore, "no memory is allocated");
  sym_assert(sym_lock_count() == locksBefore && sym_locks_held() == 0, "no lock is taken");
}
}
#if defined(CPPTRACE_UNWIND_WITH_LIBUNWIND)
#include <libunwind.h>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <cerrno>
namespace {
bool armed, interrupted; int which;
void handler();
// a signal may arrive here
__attribute__((noinline)) void point() {
  if (!armed || interrupted) return;
  if (!sym_pick(0, 1, "signal arrives")) return;
  interrupted = true;
  sym_cover("interrupted");
  int e = errno;
  handler();
  errno = e;
}
uint64_t ip[2][FRAMES]; bool before[2][FRAMES]; size_t total[2]; int endCode[2];
int ctx;                                  // 0: interrupted code, 1: handler
int answer[2]; link_map lm[2]; char name[2][5000], self[5000]; size_t selfLen; bool selfFails; uint64_t addr[2], skip[2], depth[2]; size_t size[2];
frame_ptr hbuf[FRAMES + 1]; size_t hres; safe_object_frame hframe;
size_t unwind(int how, int c, frame_ptr* b) {
  switch (how) {
    case 0: return safe_generate_raw_trace(b, size[c], skip[c]);
    case 1: return safe_generate_raw_trace(b, size[c], skip[c], depth[c]);
    default: return ctrace_safe_generate_raw_trace(b, size[c], skip[c], depth[c]);
  }
}
void object(bool c, int i, safe_object_frame* f) {
  if (c) ctrace_get_safe_object_frame(addr[i], (ctrace_safe_object_frame*)f); else get_safe_object_frame(addr[i], f);
}
void handler() {
  ctx = 1;
  if (which == 0) hres = unwind(1, 1, hbuf); else object(false, 1, &hframe);
  ctx = 0;
}
}
extern "C" int vp_env_unw_getcontext(unw_context_t*) { point(); return 0; }
extern "C" int vp_env_unw_init_local(unw_cursor_t* c, unw_context_t*) { point(); c->opaque[0] = 0; return 0; }
extern "C" int vp_env_unw_get_reg(unw_cursor_t* c, unw_regnum_t r, unw_word_t* v) { *v = r == UNW_REG_IP ? ip[ctx][c->opaque[0]] : 1; point(); return 0; }
extern "C" int vp_env_unw_is_signal_frame(unw_cursor_t* c) { point(); return before[ctx][c->opaque[0]]; }
extern "C" int vp_env_unw_step(unw_cursor_t* c) {
  point();
  if (c->opaque[0] + 1 >= total[ctx]) { sym_cover("stops"); return endCode[ctx]; }
  c->opaque[0]++;
  return 1;
}
extern "C" int vp_env__dl_find_object(void* a, dl_find_object* r) {
  point();
  int c = (uint64_t)a == addr[ctx] ? ctx : 2;
  sym_assert(c < 2, "the linker is asked for the given address");
  if (answer[c] == 0) return -1;
  r->dlfo_link_map = &lm[c];
  point();
  return 0;
}
extern "C" ssize_t vp_env_readlink(const char* p, char* b, size_t cap) {
  point();
  if (selfFails) { errno = EACCES; return -1; }
  size_t k = selfLen < cap ? selfLen : cap;
  memcpy(b, self, k);
  point();
  return k;
}
extern "C" void h_unwind() {
  which = 0;
  for (int c = 0; c < 2; c++) {
    total[c] = c ? 2 : sym_pick(1, FRAMES, "frames");
    for (size_t i = 0; i < total[c]; i++) { ip[c][i] = sym_u64("pc"); before[c][i] = c ? false : sym_pick(0, 1, "signal frame"); }
    endCode[c] = c ? 0 : 0 - (int)sym_pick(0, 1, "unwinding fails");
    skip[c] = c ? 0 : sym_u64("skip"); depth[c] = c ? 2 : sym_u64("depth"); size[c] = c ? FRAMES + 1 : sym_pick(0, FRAMES + 1, "size");
  }
  sym_assume(skip[0] <= SIZE_MAX - 8);
  frame_ptr a[FRAMES + 1], b[FRAMES + 1];
  for (size_t i = 0; i <= FRAMES; i++) a[i] = b[i] = hbuf[i] = 7;
  int how = sym_pick(0, 2, "function");
  armed = true;
  enter(); size_t r = unwind(how, 0, a); leave();
  armed = false;
  size_t s = unwind(how, 0, b);
  sym_assert(r == s, "a signal does not change the number of frames");
  for (size_t i = 0; i <= FRAMES; i++) sym_assert(a[i] == b[i], "a signal does not change the frames");
  sym_cover(r ? "written" : "empty");
  if (interrupted) {
    frame_ptr d[FRAMES + 1];
    for (size_t i = 0; i <= FRAMES; i++) d[i] = 7;
    ctx = 1;
    size_t n = unwind(1, 1, d);
    sym_assert(n == hres, "the handler gets its frames");
    for (size_t i = 0; i <= FRAMES; i++) sym_assert(d[i] == hbuf[i], "the handler gets its frames");
  }
}
namespace {
safe_object_frame fr[2];
bool sameFrame(const safe_object_frame& a, const safe_object_frame& b) {
  if (a.raw_address != b.raw_address || a.address_relative_to_object_start != b.address_relative_to_object_start) return false;
  size_t i = 0;
  for (; a.object_path[i] && i <= CPPTRACE_PATH_MAX; i++) if (a.object_path[i] != b.object_path[i]) return false;
  return i <= CPPTRACE_PATH_MAX && !b.object_path[i];
}
void fill(char* p, size_t len, size_t symbolic) {
  for (size_t i = 0; i < len; i++) p[i] = 'a' + i % 23;
  for (size_t i = 0; i < symbolic && i < len; i++) { uint8_t c = sym_u8("character"); sym_assume(c != 0); p[i] = c; }
  p[len] = 0;
}
}
extern "C" void h_object() {
  which = 1;
  answer[0] = sym_pick(0, 4, "linker's answer");
  addr[0] = sym_u64("address"); lm[0].l_addr = sym_u64("load address");
  fill(name[0], answer[0] == 1 ? sym_pick(1, LEN, "length") : CPPTRACE_PATH_MAX + 2, LEN);
  lm[0].l_name = answer[0] == 1 || answer[0] == 4 ? name[0] : answer[0] == 2 ? (char*)"" : nullptr;
  selfFails = sym_pick(0, 1, "self fails");
  if (answer[0] == 2 || answer[0] == 3) { selfLen = sym_pick(0, 1, "self is long") ? CPPTRACE_PATH_MAX + 1 : LEN; fill(self, selfLen, LEN); }
  // the handler looks at a frame of another object
  answer[1] = 1; addr[1] = sym_u64("handler's address"); sym_assume(addr[1] != addr[0]);
  lm[1].l_addr = sym_u64("handler's load address"); lm[1].l_name = name[1]; memcpy(name[1], "/other", 7);
  sym_cover(answer[0] == 0 ? "none" : answer[0] == 1 ? "object" : answer[0] == 4 ? "long" : selfFails ? "unreadable" : "program");
  bool c = sym_pick(0, 1, "C function");
  armed = true;
  enter(); object(c, 0, &fr[0]); leave();
  armed = false;
  object(c, 0, &fr[1]);
  sym_assert(sameFrame(fr[0], fr[1]), "a signal does not change the frame");
  if (interrupted) {
    sym_assert(hframe.raw_address == addr[1] && hframe.address_relative_to_object_start == addr[1] - lm[1].l_addr && !strcmp(hframe.object_path, "/other"), "the handler gets its frame");
  }
}
extern "C" void h_queries() {
  enter();
  bool a = can_signal_safe_unwind(), b = can_get_safe_object_frame(), c = ctrace_can_signal_safe_unwind(), d = ctrace_can_get_safe_object_frame();
  leave();
  sym_assert(a && b && c && d, "both are supported");
  sym_cover("queried");
}
#else
extern "C" int vp_env__dl_find_object(void*, void*) { return -1; }
extern "C" void h_fallback() {
  frame_ptr b[2] = {1, 2};
  size_t skip = sym_u64("skip"), depth = sym_u64("depth"), n = sym_pick(0, 2, "size");
  static safe_object_frame f;
  enter();
  size_t r = sym_pick(0, 1, "C function") ? ctrace_safe_generate_raw_trace(b, n, skip, depth) : safe_generate_raw_trace(b, n, skip, depth);
  r += safe_generate_raw_trace(b, n, skip);
  get_safe_object_frame(sym_u64("address"), &f);
  bool u = can_signal_safe_unwind() || ctrace_can_signal_safe_unwind();
  bool v = can_get_safe_object_frame() == (bool)ctrace_can_get_safe_object_frame();
  leave();
  sym_assert(r == 0 && !u && v && b[0] == 1 && b[1] == 2 && f.object_path[0] == 0, "nothing is reported");
  sym_cover("fallback");
}
#endif
