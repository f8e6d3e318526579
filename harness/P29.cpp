//@bounds every public generating, resolving and collecting function, failing at each internal interface with each of six kinds of exception, absorption on and off, log level on and off; up to FAULTS allocation failures at any allocations of one call, single or all from some point on; the resolving pipeline of the dynamic-linker back end run for real in one group
//@bound FAULTS 2 3
//@assume capture, object lookup and symbol resolution are replaced (except in the second group: capture and the linker calls) by functions that succeed, allocate, or throw
//@group {}
//@entry {"name":"h_throw","jobs":8,"covers":["absorbed","propagated"]}
//@entry {"name":"h_oom","jobs":8,"covers":["failed","fine"]}
//@entry {"name":"h_lazy","jobs":4,"covers":["lazy failed","lazy fine"]}
//@entry {"name":"h_collect","jobs":4,"covers":["collect failed","collect fine"]}
//@entry {"name":"h_terminate","jobs":1,"covers":["printed"]}
//@group {"defs":{"CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE":false,"CPPTRACE_GET_SYMBOLS_WITH_LIBDL":true,"VP_REAL":true}}
//@entry {"name":"h_real","jobs":8,"covers":["real failed","real fine"]}
#include "common.h"
#include <cpptrace/from_current.hpp>
#include <cpptrace/exceptions.hpp>
#include <cpptrace/utils.hpp>
#include "utils/error.hpp"
#include "utils/common.hpp"
#include <stdexcept>
#include <new>
#include <dlfcn.h>
#include <fstream>
#include <cstdio>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
namespace cpptrace { inline namespace v1 { void print_terminate_trace(); } }
using namespace cpptrace;
namespace {
int failWhere, failKind;      // 1 capture, 2 object info, 3 resolve
int logs, armIn; size_t capSkip;
struct Odd { int x; };
void fail() {
  switch (failKind) {
    case 0: throw detail::internal_error("boom {}", 5);
    case 1: throw std::runtime_error("rt");
    case 2: throw std::bad_alloc();
    case 3: throw 7;
    case 4: throw Odd{3};
    default: VERIFY(failKind == 0);
  }
}
void logger(log_level, const char* m) { logs += 1 + (int)(strlen(m) == 0); }
}
std::vector<frame_ptr> vp_capture(size_t, size_t) VP_CAPTURE_FRAMES;
std::vector<frame_ptr> vp_capture(size_t skip, size_t) { capSkip = skip; if (armIn) sym_arm_alloc_failures(armIn); if (failWhere == 1) fail(); std::vector<frame_ptr> v; v.push_back(0x1010); v.push_back(0x2020); return v; }
#ifndef VP_REAL
std::size_t vp_safe(frame_ptr* b, size_t n, size_t, size_t) VP_SAFE_CAPTURE;
std::size_t vp_safe(frame_ptr* b, size_t n, size_t, size_t) { if (failWhere == 1) fail(); if (n) b[0] = 0x1010; return n ? 1 : 0; }
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>&) VP_OBJECT_INFO;
std::vector<object_frame> vp_objects(const std::vector<frame_ptr>& f) {
  std::vector<object_frame> r;
  for (auto a : f) { r.push_back({a, a & 0xff, "/lib/some/object/path/longer.so"}); if (failWhere == 2) fail(); }
  return r;
}
static std::vector<stacktrace_frame> framesFor(frame_ptr a, std::vector<stacktrace_frame> r) { r.push_back({a, a, {}, {}, "file/name/that/is/long/enough.cpp", "_Z3foov", false}); return r; }
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) VP_RESOLVE_RAW;
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) { std::vector<stacktrace_frame> r; for (auto a : f) { r = framesFor(a, std::move(r)); if (failWhere == 3) fail(); } return r; }
std::vector<stacktrace_frame> vp_resolveo(const std::vector<object_frame>& f) VP_RESOLVE_OBJ;
std::vector<stacktrace_frame> vp_resolveo(const std::vector<object_frame>& f) { std::vector<stacktrace_frame> r; for (auto& a : f) { r = framesFor(a.raw_address, std::move(r)); if (failWhere == 3) fail(); } return r; }
#else
extern "C" int vp_env_dladdr(const void* a, Dl_info* i) {
  if ((uintptr_t)a == 0x2020) { memset(i, 0, sizeof *i); return 0; }
  i->dli_fname = "/lib/some/object/path/longer.so"; i->dli_fbase = (void*)0x1000; i->dli_sname = "_Z3foov"; i->dli_saddr = (void*)0x1000; return 1;
}
extern "C" FILE* vp_env_fopen(const char*, const char*) { return nullptr; }
extern "C" int vp_env_fclose(FILE*) { return 0; }
#endif
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) {
  const char* r = "some type or function";
  char* p = (char*)VP_MALLOC(strlen(r) + 1);
  if (!p) { *st = -1; return nullptr; }
  memcpy(p, r, strlen(r) + 1); *st = 0; return p;
}
namespace {
enum { APIS = 18 };
// runs API k; returns the number of frames delivered
size_t api(uint64_t k, const raw_trace& raw, const object_trace& obj) {
  frame_ptr buf[4];
  switch (k) {
    case 0: return raw_trace::current().frames.size();
    case 1: return raw_trace::current(0, 9).frames.size();
    case 2: return generate_raw_trace().frames.size();
    case 3: return generate_raw_trace(0, 9).frames.size();
    case 4: return object_trace::current().frames.size();
    case 5: return object_trace::current(0, 9).frames.size();
    case 6: return generate_object_trace().frames.size();
    case 7: return generate_object_trace(0, 9).frames.size();
    case 8: return stacktrace::current().frames.size();
    case 9: return stacktrace::current(0, 9).frames.size();
    case 10: return generate_trace().frames.size();
    case 11: return generate_trace(0, 9).frames.size();
    case 12: return raw.resolve().frames.size();
    case 13: return raw.resolve_object_trace().frames.size();
    case 14: return obj.resolve().frames.size();
    case 15: return safe_generate_raw_trace(buf, 4);
    case 16: return safe_generate_raw_trace(buf, 4, 0, 9);
    default: return detail::get_raw_trace_and_absorb(0).frames.size();
  }
}
size_t api(uint64_t k) { return api(k, raw_trace{{0x1010, 0x2020}}, object_trace{{{0x1010, 1, "a"}, {0x2020, 2, "b"}}}); }
// which of the internal interfaces API k goes through
bool uses(uint64_t k, int where) {
  switch (where) {
    case 1: return k < 12 || k >= 15;
    case 2: return (k >= 4 && k < 8) || k == 13;
    default: return (k >= 8 && k < 13) || k == 14;
  }
}
size_t full(uint64_t k) { return k == 15 || k == 16 ? 1 : 2; }
void warmup() { (void)stacktrace{}.to_string(); try { throw detail::internal_error("x"); } catch (std::exception&) {} failWhere = 0; logs = 0; set_log_callback(logger); }
bool setup() {
  warmup();
  bool absorb = sym_pick(0, 1, "absorb");
  absorb_trace_exceptions(absorb);
  return absorb;
}
}
#ifndef VP_REAL
extern "C" void h_throw() {
  bool absorb = setup();
  uint64_t k = sym_pick(0, APIS - 1, "api");
  int level = sym_pick(0, 1, "log");
  set_log_level(level ? log_level::debug : static_cast<log_level>(100));
  int where = (int)sym_pick(1, 3, "where"); failKind = (int)sym_pick(0, 5, "kind");
  sym_assume(uses(k, where));
  sym_assert(api(k) == full(k), "works when nothing fails");
  sym_assert(logs == 0, "logged without a failure");
  uint64_t base = sym_live_allocs();
  failWhere = where;
  int seen = -1; size_t n = 99;
  try { n = api(k); }
  catch (detail::internal_error& e) { seen = strstr(e.what(), "boom 5") ? 0 : 5; }
  catch (std::bad_alloc&) { seen = 2; }
  catch (std::runtime_error& e) { seen = strcmp(e.what(), "rt") ? 99 : 1; }
  catch (int v) { seen = v == 7 ? 3 : 99; }
  catch (Odd& o) { seen = o.x == 3 ? 4 : 99; }
  failWhere = 0;
  bool absorbing = absorb || (k == 17 && failKind != 3 && failKind != 4);   // traced exceptions never fail to be constructed because of their trace
  if (absorbing) { sym_assert(seen == -1, "a failure escaped although absorption is on"); sym_assert(n == 0, "a failed call delivers frames"); sym_cover("absorbed"); }
  else { sym_assert(seen == failKind, "the failure was not propagated as it was although absorption is off"); sym_cover("propagated"); }
  sym_assert(level ? logs >= 1 : logs == 0, "failures are logged when the level is enabled");
  sym_assert(sym_live_allocs() == base, "memory leaked on failure");
  sym_assert(api(k) == full(k), "later calls work");
}
#endif
#ifdef VP_REAL
extern "C" void h_real() {
#else
extern "C" void h_oom() {
#endif
  bool absorb = setup();
  uint64_t k = sym_pick(0, APIS - 1, "api");
#ifdef VP_REAL
  sym_assume(k == 8 || k == 11 || k == 12 || k == 14);
#endif
  set_log_level(log_level::debug);
  sym_assert(api(k) == full(k), "works when nothing fails");
  uint64_t base = sym_live_allocs();
  // the caller's own objects are built before memory runs out
  raw_trace raw{{0x1010, 0x2020}};
  object_trace obj{{{0x1010, 1, "a"}, {0x2020, 2, "b"}}};
  size_t n = 99; bool escaped = false, other = false;
  uint64_t budget = sym_pick(1, FAULTS, "failures");
  sym_arm_alloc_failures(budget);
  try {
    n = api(k, raw, obj);
  } catch (std::bad_alloc&) { escaped = true; } catch (...) { other = true; }
  bool failed = sym_alloc_failures_left() != budget;
  sym_arm_alloc_failures(0);
  sym_assert(!other, "running out of memory surfaces as another failure");
  if (absorb) sym_assert(!escaped, "running out of memory escaped although absorption is on");
  if (!escaped) sym_assert(n == 0 || n == full(k) || failed, "frames lost without a failure");
  if (!failed) sym_assert(!escaped && n == full(k), "failed without a failure");
  obj.clear(); obj.frames.shrink_to_fit(); raw.clear(); raw.frames.shrink_to_fit();
  sym_assert(sym_live_allocs() == base, "memory leaked when it ran out");
  sym_assert(api(k) == full(k), "later calls work");
#ifdef VP_REAL
  sym_cover(failed ? "real failed" : "real fine");
#else
  sym_cover(failed ? "failed" : "fine");
#endif
}
#ifndef VP_REAL
// accessors of traced exceptions never throw; the trace is complete or empty
extern "C" void h_lazy() {
  bool absorb = setup();
  set_log_level(log_level::debug);
  uint64_t base = sym_live_allocs();
  bool failed;
  {
    cpptrace::runtime_error e(std::string("message"), raw_trace{{0x1010, 0x2020}});
    bool viaCopy = sym_pick(0, 1, "copy");
    uint64_t f = sym_pick(0, 6, "kind");
    sym_assume(absorb || f <= 3);   // without absorption, a failure to report the failure ends the program: the accessor cannot throw
    failWhere = f < 3 ? 3 : 0; failKind = (int)f;
    size_t n = 99;
    if (f > 3) sym_arm_alloc_failures(f == 4 ? 1 : FAULTS);
    n = e.trace().frames.size();
    failed = f < 3 || (f > 3 && n == 0);
    sym_arm_alloc_failures(0);
    failWhere = 0;
    sym_assert(n == 0 || n == 2, "a partial trace");
    sym_assert(e.trace().frames.size() == n, "resolved again");
    if (f == 3) sym_assert(n == 2, "lost frames");
    std::string w = e.what();
    sym_assert(w.substr(0, 9) == "message:\n", "description");
    if (viaCopy) { cpptrace::runtime_error c = e; sym_assert(c.trace().frames.size() == n && w == c.what(), "copy"); }
  }
  sym_assert(sym_live_allocs() == base, "memory leaked");
  sym_cover(failed ? "lazy failed" : "lazy fine");
}
// collecting the trace of a throw: a failure leaves the thrown exception alone and never shows another throw's trace
extern "C" void h_collect() {
  warmup();
  absorb_trace_exceptions(true);
  set_log_level(log_level::debug);
  bool earlier = sym_pick(0, 1, "earlier");
  if (earlier) { CPPTRACE_TRY { throw 1; } CPPTRACE_CATCH(int) {} }
  bool re = sym_pick(0, 1, "rethrow");
  uint64_t f = sym_pick(0, 7, "kind");
  bool failed = false;
  CPPTRACE_TRY {
    CPPTRACE_TRY {
      if (!re) { failWhere = f < 6 ? 1 : 0; failKind = (int)f; armIn = f == 6 ? 1 : f == 7 ? FAULTS : 0; }
      throw 2;
    } CPPTRACE_CATCH(int v) {
      if (armIn) failed = sym_alloc_failures_left() != (unsigned)armIn;
      sym_arm_alloc_failures(0); armIn = 0;
      sym_assert(v == 2, "the thrown value");
      if (re) {
        sym_assert(raw_trace_from_current_exception().frames.size() == 2, "collected");
        failWhere = f < 6 ? 1 : 0; failKind = (int)f; armIn = f == 6 ? 1 : f == 7 ? FAULTS : 0;
        cpptrace::rethrow();
      }
    }
  } CPPTRACE_CATCH(int v) { 
    if (armIn) failed = sym_alloc_failures_left() != (unsigned)armIn;
    sym_arm_alloc_failures(0); armIn = 0;
    sym_assert(re && v == 2, "only a rethrow gets here");
  }
  failed |= f < 6; failWhere = 0;
  const raw_trace& t = re ? raw_trace_from_current_exception_rethrow() : raw_trace_from_current_exception();
  if (failed) sym_assert(t.frames.size() == 0, "after a failed collection the trace of another throw is still there");
  else sym_assert(t.frames.size() == 2, "collected");
  if (re) sym_assert(raw_trace_from_current_exception().frames.size() == 2, "the original trace");
  else sym_assert(raw_trace_from_current_exception_rethrow().frames.empty(), "no rethrow");
  CPPTRACE_TRY { throw 3; } CPPTRACE_CATCH(int) {}
  sym_assert(raw_trace_from_current_exception().frames.size() == 2 && raw_trace_from_current_exception_rethrow().frames.empty(), "later throws are collected");
  sym_cover(failed ? "collect failed" : "collect fine");
}
#ifdef VP_SYM
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) { static const char m[] = "0-ffffffffffffffff rw-p 00000000 00:00 0 x\n"; o->data = m; o->n = sizeof m - 1; return !strcmp(p, "/proc/self/maps"); }
extern "C" void* vp_env_mmap(void*, size_t n, int, int, int, long) { return (void*)(((uintptr_t)malloc(n + 4095) + 4095) & ~(uintptr_t)4095); }
extern "C" int vp_env_mprotect(void* p, size_t n, int prot) { __sym_mprotect(p, n, prot); return 0; }
extern "C" long vp_env_sysconf(int) { return 4096; }
#else
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) {
  static char buf[1 << 18]; FILE* f = fopen(p, "r"); if (!f) return false;
  o->data = buf; o->n = fread(buf, 1, sizeof buf, f); fclose(f); return true;
}
#endif
extern "C" int vp_env_isatty(int) { return 0; }
// the terminate trace never throws
extern "C" void h_terminate() {
  bool absorb = setup();
  (void)absorb;
  absorb_trace_exceptions(true);
  failWhere = (int)sym_pick(0, 3, "where"); failKind = (int)sym_pick(0, 5, "kind");
  print_terminate_trace();
  sym_cover("printed");
}
#endif
