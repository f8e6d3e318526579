//@bound D 2 2
//@bound OPS 2 2
//@bound INNER 1 2
//@bounds every program of nested try blocks up to depth D (traced with handlers for int, a class, its base or everything; or untraced), each throwing one of three types, or nesting, and each handler running up to OPS operations (INNER in the innermost blocks) out of: querying both traces, throwing anew, plain rethrow, cpptrace::rethrow with and without a pointer, clearing, resolving, nesting another block, leaving
//@assume capture is replaced by one returning a fresh serial number per capture; the resolver by the identity
//@entry {"name":"h_program","jobs":8,"covers":["caught","rethrown","nested","untraced"]}
//@entry {"name":"h_try_catch","jobs":2,"covers":["try_catch"]}
//@entry {"name":"h_skip","jobs":1,"covers":["skip"]}
#include "common.h"
#include <cpptrace/from_current.hpp>
#include <stdexcept>
#include <fstream>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
using namespace cpptrace;
static frame_ptr captures; static size_t lastSkip;
std::vector<frame_ptr> vp_capture(size_t, size_t) VP_CAPTURE_FRAMES;
std::vector<frame_ptr> vp_capture(size_t skip, size_t) { lastSkip = skip; return {++captures, 0x77}; }
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) VP_RESOLVE_RAW;
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) { std::vector<stacktrace_frame> r; for (auto a : f) r.push_back({a, a, {}, {}, "", "", false}); return r; }
#ifdef VP_SYM
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) { static const char m[] = "0-ffffffffffffffff rw-p 00000000 00:00 0 x\n"; o->data = m; o->n = sizeof m - 1; return !strcmp(p, "/proc/self/maps"); }
extern "C" void* vp_env_mmap(void*, size_t n, int, int, int, long) { return (void*)(((uintptr_t)malloc(n + 4095) + 4095) & ~(uintptr_t)4095); }
extern "C" int vp_env_mprotect(void* p, size_t n, int prot) { __sym_mprotect(p, n, prot); return 0; }
extern "C" long vp_env_sysconf(int) { return 4096; }
#else
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) {
  static char buf[1 << 18]; FILE* f = fopen(p, "r"); if (!f) return false;
  o->data = buf; o->n = fread(buf, 1, sizeof buf, f); fclose(f); return true;
}
#endif
namespace {
struct Base { int v = 1; virtual ~Base() {} };
struct Derived : Base {};
enum Ty { INT, BASE, DERIVED, ALL };
struct H { bool traced; Ty t; };
std::vector<H>* stack;
// the model: identity of the current trace and of the rethrow trace (0: none)
frame_ptr cur, re; bool curResolved, reResolved;
bool catches(Ty h, Ty t) { return h == ALL || h == t || (h == BASE && t == DERIVED); }
// what a throw of t does to the two traces, given the handlers around it
void expect(Ty t, bool rethrow) {
  for (size_t i = stack->size(); i-- > 0;) {
    if (!catches((*stack)[i].t, t)) continue;
    if ((*stack)[i].traced) {
      if (rethrow) { re = captures + 1; reResolved = false; }
      else { cur = captures + 1; re = 0; curResolved = reResolved = false; }
    }
    return;
  }
}
frame_ptr first(const raw_trace& t) { return t.frames.empty() ? 0 : t.frames[0]; }
frame_ptr first(const stacktrace& t) { return t.frames.empty() ? 0 : t.frames[0].raw_address; }
void query() {
  sym_assert(current_exception_was_rethrown() == (re != 0), "whether the exception was rethrown");
  if (curResolved) sym_assert(first(from_current_exception()) == cur, "the current trace is not the one of the exception last seen");
  else sym_assert(first(raw_trace_from_current_exception()) == cur, "the current trace is not the one of the exception last seen");
  if (reResolved) sym_assert(first(from_current_exception_rethrow()) == re, "the rethrow trace is not the one of the last rethrow");
  else sym_assert(first(raw_trace_from_current_exception_rethrow()) == re, "the rethrow trace is not the one of the last rethrow");
}
void raise(Ty t) { expect(t, false); switch (t) { case INT: throw 1; case BASE: throw Base(); default: throw Derived(); } }
void block(int depth);
struct Pop { ~Pop() {} };
void handler(Ty t, int depth) {
  query();
  int ops = depth ? OPS : INNER;
  for (int i = 0; i < ops; i++) {
    switch (sym_pick(0, depth > 0 ? 8 : 7, "handler op")) {
      case 0: return;
      case 1: if (stack->empty()) return; sym_cover("rethrown"); expect(t, true); cpptrace::rethrow();
      case 2: { if (stack->empty()) return; expect(t, true); auto p = std::current_exception(); cpptrace::rethrow(p); }
      case 3: if (stack->empty()) return; expect(t, false); throw;
      case 4: { if (stack->empty()) return; raise((Ty)sym_pick(0, 2, "thrown")); break; }
      case 5: clear_current_exception_traces(); cur = re = 0; curResolved = reResolved = false; break;
      case 6: sym_assert(first(from_current_exception()) == cur, "resolving gives another trace"); curResolved = true; break;
      case 7: sym_assert(first(from_current_exception_rethrow()) == re, "resolving gives another rethrow trace"); reResolved = true; break;
      default: sym_cover("nested"); block(depth - 1); break;
    }
    query();
  }
}
void body(int depth) {
  if (depth > 0 && sym_pick(0, 1, "body")) { block(depth - 1); if (sym_pick(0, 1, "then")) return; }
  raise((Ty)sym_pick(0, 2, "thrown"));
}
struct Scope { Scope(bool tr, Ty t) { stack->push_back({tr, t}); } ~Scope() { stack->pop_back(); } };
// the outermost block always catches everything, so nothing terminates
void blockOf(uint64_t kind, int depth) {
  Ty t = INT;
  switch (kind) {
    case 0: CPPTRACE_TRY { Scope s(true, ALL); body(depth); return; } CPPTRACE_CATCH(...) { handler(t, depth); } break;
    case 1: CPPTRACE_TRY { Scope s(true, BASE); body(depth); return; } CPPTRACE_CATCH(const Base& e) { sym_cover("caught"); handler(typeid(e) == typeid(Derived) ? DERIVED : BASE, depth); } break;
    case 2: CPPTRACE_TRY { Scope s(true, INT); body(depth); return; } CPPTRACE_CATCH(int) { handler(INT, depth); } break;
    case 3: CPPTRACE_TRY { Scope s(true, DERIVED); body(depth); return; } CPPTRACE_CATCH(Derived&) { handler(DERIVED, depth); } break;
    case 4: try { Scope s(false, BASE); body(depth); return; } catch (const Base&) { sym_cover("untraced"); query(); } break;
    default: try { Scope s(false, ALL); body(depth); return; } catch (...) { query(); } break;
  }
}
void block(int depth) {
  uint64_t k = sym_pick(0, 5, "block");
  if (k == 0) {
    // catch-all needs the thrown type for the model when it rethrows: find it out
    CPPTRACE_TRY { Scope s(true, ALL); body(depth); return; }
    CPPTRACE_CATCH(...) {
      Ty t = INT;
      const std::type_info* ti = abi::__cxa_current_exception_type();
      if (*ti == typeid(Base)) t = BASE; else if (*ti == typeid(Derived)) t = DERIVED;
      handler(t, depth);
    }
  } else blockOf(k, depth);
}
}
extern "C" void h_program() {
  captures = 100; cur = re = 0; curResolved = reResolved = false;
  std::vector<H> st; stack = &st;
  clear_current_exception_traces();
  try {
    Scope s(false, ALL);
    block(D - 1);
  } catch (...) { query(); }
  sym_assert(st.empty(), "harness stack");
  query();
}
extern "C" void h_try_catch() {
  captures = 100;
  clear_current_exception_traces();
  uint64_t k = sym_pick(0, 3, "thrown");
  int got = -1;
  bool ran = false;
  frame_ptr at = 0;
  try {
    cpptrace::try_catch(
      [&] { ran = true; switch (k) { case 0: throw 5; case 1: throw Derived(); case 2: throw std::runtime_error("x"); default: break; } },
      [&](int v) { got = 0; sym_assert(v == 5, "value"); at = first(raw_trace_from_current_exception()); },
      [&](const Base& b) { got = 1; sym_assert(b.v == 1, "object"); at = first(raw_trace_from_current_exception()); },
      [&]() { got = 2; at = first(raw_trace_from_current_exception()); });
  } catch (...) { got = 9; }
  sym_assert(ran && got == (k == 3 ? -1 : (int)k), "the first matching handler runs, once");
  if (k != 3) sym_assert(at == captures && captures > 100, "the trace seen by the handler is the one of this throw");
  else sym_assert(captures == 100, "no trace without a throw");
  sym_cover("try_catch");
}
// a thrown class that no traced handler matches leaves the stored trace alone
extern "C" void h_skip() {
  captures = 100;
  CPPTRACE_TRY { throw 1; } CPPTRACE_CATCH(int) {}
  sym_assert(first(raw_trace_from_current_exception()) == 101, "trace of the throw");
  try { CPPTRACE_TRY { throw Base(); } CPPTRACE_CATCH(int) { sym_fail("wrong handler"); } } catch (Base&) {}
  sym_assert(first(raw_trace_from_current_exception()) == 101, "an exception no traced handler takes must not disturb the stored trace");
  sym_cover("skip");
}
