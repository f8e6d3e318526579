//@bounds stacks of up to FRAMES frames of the caller's, ending anywhere (also within the library's own frames), of any program counters and signal-frame flags; every skip count, depth and buffer size (buffers longer than the stack included); the C++ and C functions; the back end that supports it and one that doesn't
//@bound FRAMES 5 7
//@assume skip counts leave room for adding the library's own frames; libunwind answers as documented
//@group {"defs":{"CPPTRACE_UNWIND_WITH_UNWIND":false,"CPPTRACE_UNWIND_WITH_LIBUNWIND":true},"inc":["$V/rt/stubs"]}
//@entry {"name":"h_libunwind","jobs":6,"covers":["full","empty","cut at the depth","cut at the size","skipped","all skipped","no depth","no buffer","signal frame"]}
//@group {"defs":{}}
//@entry {"name":"h_unsupported","jobs":1,"covers":["nothing"]}
//@group {"defs":{"CPPTRACE_UNWIND_WITH_UNWIND":false,"CPPTRACE_UNWIND_WITH_EXECINFO":true}}
//@entry {"name":"h_unsupported","jobs":1,"covers":["nothing"]}
#include "common.h"
#include <ctrace/ctrace.h>
using namespace cpptrace;
#if defined(CPPTRACE_UNWIND_WITH_LIBUNWIND)
#include <libunwind.h>
namespace {
enum { LIBMAX = 8, BUF = FRAMES + 3 };
uint64_t ip[FRAMES]; bool before[FRAMES];
size_t total, own, avail, cur;
uint64_t frameIp(size_t i) { return i < own ? 0x400000 + i : ip[i - own]; }
bool frameBefore(size_t i) { return i >= own && before[i - own]; }
}
extern "C" __attribute__((noinline)) int vp_env_unw_getcontext(unw_context_t*) {
  own = __sym_depth("h_libunwind") - 1;
  sym_assert(own > 0 && own < LIBMAX, "the library's frames");
  total = own + avail;
  if (avail == 0) total = own - sym_pick(0, 1, "stack ends within the library");
  return 0;
}
extern "C" int vp_env_unw_init_local(unw_cursor_t*, unw_context_t*) { cur = 0; return 0; }
extern "C" int vp_env_unw_get_reg(unw_cursor_t*, unw_regnum_t r, unw_word_t* v) { *v = r == UNW_REG_IP ? frameIp(cur) : 0x7ffe0000; return 0; }
extern "C" int vp_env_unw_is_signal_frame(unw_cursor_t*) { return frameBefore(cur); }
extern "C" int vp_env_unw_step(unw_cursor_t*) { if (cur + 1 >= total) return (int)0 - (int)sym_pick(0, 1, "unwinding fails"); cur++; return 1; }
extern "C" void h_libunwind() {
  set_log_callback([](log_level, const char*) { sym_fail("no error is reported"); });
  sym_assert(can_signal_safe_unwind() && ctrace_can_signal_safe_unwind(), "supported");
  avail = sym_pick(0, FRAMES, "frames");
  for (size_t i = 0; i < avail; i++) { ip[i] = sym_u64("pc"); before[i] = sym_pick(0, 1, "signal frame"); }
  size_t skip = sym_u64("skip"), depth = sym_u64("depth");
  sym_assume(skip <= SIZE_MAX - LIBMAX);
  // the buffer is exactly of the size that is given
  size_t size = sym_pick(0, BUF, "size");
  frame_ptr* b = (frame_ptr*)malloc(size * sizeof(frame_ptr) + 1);
  uint64_t old[BUF];
  for (size_t i = 0; i < size; i++) b[i] = old[i] = sym_u64("old content");
  size_t r = 0;
  switch (sym_pick(0, 3, "function")) {
    case 0: r = safe_generate_raw_trace(b, size, skip); depth = SIZE_MAX; break;
    case 1: r = safe_generate_raw_trace(b, size, skip, depth); break;
    case 2: r = ctrace_safe_generate_raw_trace(b, size, skip, depth); break;
    case 3: r = safe_generate_raw_trace(size ? b : nullptr, size, skip, depth); break;
  }
  size_t n = 0;
  if (depth == 0) sym_cover("no depth");
  if (size == 0) sym_cover("no buffer");
  if (skip && avail) sym_cover("skipped");
  if (skip >= avail && avail) sym_cover("all skipped");
  for (size_t i = 0; i < avail; i++) {
    if (i < skip) continue;
    if (n >= size) { sym_cover("cut at the size"); break; }
    if (n >= depth) { sym_cover("cut at the depth"); break; }
    if (before[i]) sym_cover("signal frame");
    sym_assert(b[n] == ip[i] - !before[i], "the frame's address");
    n++;
  }
  sym_assert(r == n, "the number of entries written");
  for (size_t i = 0; i < size; i++) if (i >= n) sym_assert(b[i] == old[i], "nothing is written beyond");
  if (n == 0) sym_cover("empty");
  if (n == FRAMES) sym_cover("full");
}
#else
extern "C" void h_unsupported() {
  sym_assert(!can_signal_safe_unwind() && !ctrace_can_signal_safe_unwind(), "not supported");
  frame_ptr b[2], x = sym_u64("old"), y = sym_u64("old"); b[0] = x; b[1] = y;
  size_t skip = sym_u64("skip"), depth = sym_u64("depth"), r = 0;
  switch (sym_pick(0, 2, "function")) {
    case 0: r = safe_generate_raw_trace(b, 2, skip); break;
    case 1: r = safe_generate_raw_trace(b, 2, skip, depth); break;
    case 2: r = ctrace_safe_generate_raw_trace(b, 2, skip, depth); break;
  }
  sym_assert(r == 0 && b[0] == x && b[1] == y, "nothing is written");
  sym_cover("nothing");
}
#endif
