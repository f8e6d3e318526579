//@bounds stacks of up to FRAMES frames of the caller's, ending anywhere (also within the library's own frames), of any program counters and signal-frame flags; every skip count and depth; every function that generates a raw, object or resolved trace, the C functions, and the traces of exceptions; three unwinding back ends
//@bound FRAMES 5 7
//@assume program counters of 1 do not occur; skip counts leave room for adding the library's own frames; the back end's interface answers as documented; for the execinfo back end skip counts are at most SKIP or above INT_MAX
//@bound SKIP 6 8
//@group {"defs":{}}
//@entry {"name":"h_unwind","jobs":6,"covers":["full","empty","cut at the depth","skipped","all skipped","no depth","ends early","signal frame"]}
//@group {"defs":{"CPPTRACE_UNWIND_WITH_UNWIND":false,"CPPTRACE_UNWIND_WITH_LIBUNWIND":true},"inc":["$V/rt/stubs"]}
//@entry {"name":"h_libunwind","jobs":6,"covers":["full","empty","cut at the depth","skipped","all skipped","no depth","ends early","signal frame"]}
//@group {"defs":{"CPPTRACE_UNWIND_WITH_UNWIND":false,"CPPTRACE_UNWIND_WITH_EXECINFO":true}}
//@entry {"name":"h_execinfo","jobs":6,"covers":["full","empty","cut at the depth","skipped","all skipped","no depth","ends early","more than the hard maximum asked"]}
#include "common.h"
#include <ctrace/ctrace.h>
#include <unwind.h>
#include <climits>
using namespace cpptrace;
#if defined(CPPTRACE_UNWIND_WITH_LIBUNWIND)
#include <libunwind.h>
#define ENTRY h_libunwind
#elif defined(CPPTRACE_UNWIND_WITH_EXECINFO)
#define ENTRY h_execinfo
#else
#define ENTRY h_unwind
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
namespace {
enum { LIBMAX = 8 };
uint64_t ip[FRAMES]; bool before[FRAMES];
size_t total;          // frames in all, the library's own first
size_t own;            // the library's own
size_t avail;          // the caller's frames that the unwinder reports
int walks;
// frame i counted from the function that calls the unwinder
uint64_t frameIp(size_t i) { return i < own ? 0x400000 + i : ip[i - own]; }
bool frameBefore(size_t i) { return i >= own && before[i - own]; }
__attribute__((noinline)) void start(size_t depth) {
  own = depth; walks++;
  sym_assert(own > 0 && own < LIBMAX, "the library's frames");
  total = own + avail;
  if (avail == 0) total = own - sym_pick(0, 1, "stack ends within the library");
}
}
#if defined(CPPTRACE_UNWIND_WITH_LIBUNWIND)
namespace { size_t cur; }
extern "C" __attribute__((noinline)) int vp_env_unw_getcontext(unw_context_t*) { start(__sym_depth(STR(ENTRY)) - 1); return 0; }
extern "C" int vp_env_unw_init_local(unw_cursor_t*, unw_context_t*) { cur = 0; return 0; }
extern "C" int vp_env_unw_get_reg(unw_cursor_t*, unw_regnum_t r, unw_word_t* v) { *v = r == UNW_REG_IP ? frameIp(cur) : 0x7ffe0000; return 0; }
extern "C" int vp_env_unw_is_signal_frame(unw_cursor_t*) { return frameBefore(cur); }
extern "C" int vp_env_unw_step(unw_cursor_t*) { if (cur + 1 >= total) return (int)0 - (int)sym_pick(0, 1, "unwinding fails"); cur++; return 1; }
#elif defined(CPPTRACE_UNWIND_WITH_EXECINFO)
extern "C" __attribute__((noinline)) int vp_env_backtrace(void** buf, int n) {
  start(__sym_depth(STR(ENTRY)) - 1);
  if (n > 400) sym_cover("more than the hard maximum asked");
  sym_assert(n >= 0, "a size");
  int i = 0;
  for (; i < n && (size_t)i < total; i++) buf[i] = (void*)frameIp(i);
  return i;
}
#else
namespace { size_t at; }
extern "C" __attribute__((noinline)) _Unwind_Reason_Code vp_env__Unwind_Backtrace(_Unwind_Trace_Fn f, void* a) {
  start(__sym_depth(STR(ENTRY)) - 1);
  for (at = 0; at < total; at++) if (f((_Unwind_Context*)&at, a) != _URC_NO_REASON) return _URC_FATAL_PHASE1_ERROR;
  return sym_pick(0, 1, "unwinding fails") ? _URC_FATAL_PHASE1_ERROR : _URC_END_OF_STACK;
}
extern "C" _Unwind_Ptr vp_env__Unwind_GetIP(_Unwind_Context* c) { sym_assert((void*)c == &at, "context"); return frameIp(at); }
extern "C" _Unwind_Ptr vp_env__Unwind_GetIPInfo(_Unwind_Context* c, int* b) { sym_assert((void*)c == &at, "context"); *b = frameBefore(at) ? 1 : 0; return frameIp(at); }
#endif
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>&) VP_OBJECT_INFO;
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>& f) { std::vector<object_frame> r; for (auto a : f) r.push_back({a, a, ""}); return r; }
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>&) VP_RESOLVE_RAW;
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) { std::vector<stacktrace_frame> r; for (auto a : f) r.push_back({a, a, nullable<std::uint32_t>::null(), nullable<std::uint32_t>::null(), "", "", false}); return r; }
namespace {
void check(const std::vector<frame_ptr>& got, size_t skip, size_t depth) {
  sym_assert(walks <= 1, "one walk of the stack");
  size_t n = 0;
  // the caller's frames there are
  size_t have = 0;
  for (size_t i = 0; i < avail; i++) { if (ip[i] == 0) break; have++; }
  if (have < FRAMES) sym_cover("ends early");
  if (depth == 0) sym_cover("no depth");
  if (skip && have) sym_cover("skipped");
  if (skip >= have && have) sym_cover("all skipped");
  for (size_t i = 0; i < have; i++) {
    if (i < skip) continue;
    if (n >= depth) { sym_cover("cut at the depth"); break; }
    sym_assert(n < got.size(), "no frame is missing");
    if (n >= got.size()) return;
    bool exact = before[i];
#if defined(CPPTRACE_UNWIND_WITH_EXECINFO)
    exact = false;
#endif
    if (exact) sym_cover("signal frame");
    sym_assert(got[n] == ip[i] - (exact ? 0 : 1), "the frame's address");
    n++;
  }
  sym_assert(got.size() == n, "no frames beyond");
  if (n == 0) sym_cover("empty");
  if (n == FRAMES) sym_cover("full");
}
template<typename T> std::vector<frame_ptr> rawOf(const T& t) { std::vector<frame_ptr> r; for (auto& f : t.frames) r.push_back(f.raw_address); return r; }
template<typename T> std::vector<frame_ptr> rawOfC(const T& t) { std::vector<frame_ptr> r; for (size_t i = 0; i < t.count; i++) r.push_back(t.frames[i].raw_address); return r; }
}
extern "C" void ENTRY() {
  set_log_callback([](log_level, const char*) { sym_fail("no error is reported"); });
  avail = sym_pick(0, FRAMES, "frames");
  for (size_t i = 0; i < avail; i++) { ip[i] = sym_u64("pc"); sym_assume(ip[i] != 1); before[i] = sym_pick(0, 1, "signal frame"); 
#if !defined(CPPTRACE_UNWIND_WITH_LIBUNWIND) && !defined(CPPTRACE_UNWIND_WITH_EXECINFO)
    // the unwinder may report a zero program counter where the stack ends
    if (ip[i] == 0) { sym_assume(i + 1 == avail); }
#else
    sym_assume(ip[i] != 0);
#endif
  }
  size_t skip = sym_u64("skip"), depth = sym_u64("depth");
  sym_assume(skip <= SIZE_MAX - LIBMAX);
#if defined(CPPTRACE_UNWIND_WITH_EXECINFO)
  sym_assume((skip <= SKIP) | (skip > INT_MAX));
  if (skip <= SKIP) skip = sym_concretize(skip);
  if (depth < 8) depth = sym_concretize(depth); else if (depth <= 400) { sym_assume(depth == 8 || depth == 399 || depth == 400); depth = sym_concretize(depth); }
#endif
  switch (sym_pick(0, 16, "function")) {
    case 0: { auto t = generate_raw_trace(skip); check(t.frames, skip, SIZE_MAX); break; }
    case 1: { auto t = generate_raw_trace(skip, depth); check(t.frames, skip, depth); break; }
    case 2: { auto t = raw_trace::current(skip); check(t.frames, skip, SIZE_MAX); break; }
    case 3: { auto t = raw_trace::current(skip, depth); check(t.frames, skip, depth); break; }
    case 4: { auto t = generate_object_trace(skip); check(rawOf(t), skip, SIZE_MAX); break; }
    case 5: { auto t = generate_object_trace(skip, depth); check(rawOf(t), skip, depth); break; }
    case 6: { auto t = object_trace::current(skip); check(rawOf(t), skip, SIZE_MAX); break; }
    case 7: { auto t = object_trace::current(skip, depth); check(rawOf(t), skip, depth); break; }
    case 8: { auto t = generate_trace(skip); check(rawOf(t), skip, SIZE_MAX); break; }
    case 9: { auto t = generate_trace(skip, depth); check(rawOf(t), skip, depth); break; }
    case 10: { auto t = stacktrace::current(skip); check(rawOf(t), skip, SIZE_MAX); break; }
    case 11: { auto t = stacktrace::current(skip, depth); check(rawOf(t), skip, depth); break; }
    case 12: { auto t = ctrace_generate_raw_trace(skip, depth); check({t.frames, t.frames + t.count}, skip, depth); ctrace_free_raw_trace(&t); break; }
    case 13: { auto t = ctrace_generate_object_trace(skip, depth); check(rawOfC(t), skip, depth); ctrace_free_object_trace(&t); break; }
    case 14: { auto t = ctrace_generate_trace(skip, depth); check(rawOfC(t), skip, depth); ctrace_free_stacktrace(&t); break; }
    case 15: { cpptrace::runtime_error e("x"); check(e.trace_holder.trace.frames, 0, SIZE_MAX); break; }
    case 16: {
      try { throw 1; } catch (...) {
        try { rethrow_and_wrap_if_needed(skip); sym_fail("it throws"); }
        catch (nested_exception& e) { check(e.trace_holder.trace.frames, skip, SIZE_MAX); }
      }
      break;
    }
  }
}
