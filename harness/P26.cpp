//@bound H 3 4
//@bounds every history of up to H operations (copy and move assignment between three objects and to themselves, copy and move construction, throwing and catching by value, reading what, message and trace, resolution failing) over three traced exceptions with 0..2 arbitrary addresses each and distinct messages; all eleven exception classes; nested exceptions around std, traced and foreign exceptions; one allocation failure at any point of a holder assignment
//@assume the resolver is replaced by one that maps every address to a frame derived from it, or fails when told to; the capture routine by one returning known addresses
//@entry {"name":"h_history","jobs":8,"covers":["resolved","unresolved"]}
//@entry {"name":"h_classes","jobs":2,"covers":["classes"]}
//@entry {"name":"h_system","jobs":2,"covers":["system"]}
//@entry {"name":"h_nested","jobs":2,"covers":["std","foreign","traced"]}
//@entry {"name":"h_wrap","jobs":2,"covers":["wrapped","passed through"]}
//@entry {"name":"h_fault","jobs":2,"covers":["failed","fine"]}
#include "common.h"
#include <cpptrace/exceptions.hpp>
#include "utils/error.hpp"
#include "utils/common.hpp"
#include <stdexcept>
using namespace cpptrace;
static int resolves, failResolve;
static std::vector<stacktrace_frame> framesFor(const std::vector<frame_ptr>& f) {
  std::vector<stacktrace_frame> r;
  for (auto a : f) r.push_back(stacktrace_frame{a, a ^ 0x55, {(uint32_t)7}, {}, "a/file/name/longer/than/the/small/buffer.cpp", "fn", false});
  return r;
}
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) VP_RESOLVE_RAW;
std::vector<stacktrace_frame> vp_resolve(const std::vector<frame_ptr>& f) {
  resolves++;
  if (failResolve) { throw detail::vp_fail(); }
  return framesFor(f);
}
std::vector<frame_ptr> vp_capture(size_t, size_t) VP_CAPTURE_FRAMES;
std::vector<frame_ptr> vp_capture(size_t, size_t) { return {0x10, 0x20}; }
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { if (st) *st = strcmp(n, "i") ? -2 : 0; if (strcmp(n, "i")) return nullptr; char* p = (char*)malloc(4); memcpy(p, "int", 4); return p; }
namespace {
struct Model { bool known = true; int msg; std::vector<frame_ptr> addr; bool lost = false, resolved = false, whatd = false; };
using X = exception_with_message;
const char* const texts[] = {"a", "second message, longer than any small buffer", ""};
bool sameFrames(const std::vector<stacktrace_frame>& a, const std::vector<stacktrace_frame>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i].raw_address == b[i].raw_address && a[i].object_address == b[i].object_address && a[i].line == b[i].line && a[i].filename == b[i].filename && a[i].symbol == b[i].symbol)) return false;
  return true;
}
std::vector<stacktrace_frame> expect(const Model& m) { return m.lost ? std::vector<stacktrace_frame>() : framesFor(m.addr); }
void readTrace(const X& x, Model& m) {
  int before = resolves;
  const stacktrace& t = x.trace();
  if (!m.known) return;
  if (!m.resolved && !m.addr.empty()) { sym_assert(resolves == before + 1, "the first read resolves once"); if (failResolve) m.lost = true; }
  else sym_assert(resolves == before, "resolved more than once");
  m.resolved = true;
  sym_assert(sameFrames(t.frames, expect(m)), "the trace differs from the one it was created with");
}
void readWhat(const X& x, Model& m) {
  int before = resolves;
  std::string w = x.what();
  if (!m.known) return;
  if (m.resolved || m.addr.empty()) sym_assert(resolves == before, "describing resolved again");
  else { sym_assert(resolves == before + 1, "describing resolves once"); if (failResolve) m.lost = true; m.resolved = true; }
  stacktrace st{expect(m)};
  sym_assert(w == std::string(texts[m.msg]) + ":\n" + st.to_string(), "the description is not the message followed by the printed trace");
}
void readMessage(const X& x, const Model& m) { const char* s = x.message(); if (m.known) sym_assert(!strcmp(s, texts[m.msg]), "message changed"); else (void)strlen(s); }
}
extern "C" void h_history() {
  (void)stacktrace{}.to_string();
  uint64_t base = sym_live_allocs();
  resolves = failResolve = 0;
  {
    std::vector<frame_ptr> addr[3];
    static const int len[3] = {1, 2, 0};
    Model m[3];
    for (int i = 0; i < 3; i++) { for (int k = 0; k < len[i]; k++) addr[i].push_back(0x1000u * (unsigned)(i + 1) + (unsigned)k); m[i].msg = i; m[i].addr = addr[i]; }
    X x0{std::string(texts[0]), raw_trace{addr[0]}}, x1{std::string(texts[1]), raw_trace{addr[1]}}, x2{std::string(texts[2]), raw_trace{addr[2]}};
    X* x[3] = {&x0, &x1, &x2};
    for (int s = 0; s < H; s++) {
      uint64_t op = sym_pick(0, 9, "op"), i = sym_pick(0, 2, "object"), j = i;
      if (op <= 1) { j = (i + sym_pick(1, 2, "other")) % 3; }
      switch (op) {
        case 0: *x[i] = static_cast<const X&>(*x[j]); m[i] = m[j]; break;
        case 1: *x[i] = std::move(*x[j]); m[i] = m[j]; m[j].known = false; break;
        case 2: { const X& self = *x[i]; *x[i] = self; break; }
        case 3: { X& self = *x[i]; *x[i] = std::move(self); m[i].known = false; break; }
        case 4: { X c(static_cast<const X&>(*x[i])); Model cm = m[i]; readTrace(c, cm); readMessage(c, cm); break; }
        case 5: { X c(std::move(*x[i])); Model cm = m[i]; m[i].known = false; readWhat(c, cm); readMessage(c, cm); break; }
        case 6: readTrace(*x[i], m[i]); break;
        case 7: readWhat(*x[i], m[i]); break;
        case 8: try { throw *x[i]; } catch (const cpptrace::exception& e) { Model cm = m[i]; readTrace(static_cast<const X&>(e), cm); readMessage(static_cast<const X&>(e), cm); } break;
        default: failResolve = 1; readTrace(*x[i], m[i]); failResolve = 0; break;
      }
    }
    bool any = false;
    for (int i = 0; i < 3; i++) { any |= m[i].resolved; readMessage(*x[i], m[i]); readTrace(*x[i], m[i]); readWhat(*x[i], m[i]); }
    sym_cover(any ? "resolved" : "unresolved");
  }
  sym_assert(sym_live_allocs() == base, "storage not released exactly once");
}
template<class C> static void one(const std::string& text) {
  std::vector<frame_ptr> a{(frame_ptr)sym_u64("addr") | 1};
  try { throw C(std::string(text), raw_trace{a}); }
  catch (const cpptrace::exception& e) {
    sym_assert(typeid(e) == typeid(C), "class of the caught exception");
    sym_assert(e.message() == text, "message");
    sym_assert(e.trace().frames.size() == 1 && e.trace().frames[0].raw_address == a[0], "trace");
    sym_assert(static_cast<const std::exception&>(e).what() == static_cast<const lazy_exception&>(e).what(), "what");
  }
}
extern "C" void h_classes() {
  failResolve = 0;
  char b[3]; uint64_t n = sym_pick(0, 3, "len"); sym_make(b, n, "ch");
  for (uint64_t i = 0; i < n; i++) sym_assume(b[i] != 0);
  std::string t(b, n);
  switch (sym_pick(0, 9, "class")) {
    case 0: one<exception_with_message>(t); break; case 1: one<logic_error>(t); break; case 2: one<domain_error>(t); break;
    case 3: one<invalid_argument>(t); break; case 4: one<length_error>(t); break; case 5: one<out_of_range>(t); break;
    case 6: one<runtime_error>(t); break; case 7: one<range_error>(t); break; case 8: one<overflow_error>(t); break;
    default: one<underflow_error>(t);
  }
  lazy_exception l{raw_trace{{0x40}}};
  sym_assert(!strcmp(l.message(), "cpptrace::lazy_exception"), "default message");
  sym_assert(std::string(l.what()) == "cpptrace::lazy_exception:\n" + stacktrace{framesFor({0x40})}.to_string(), "default description");
  // the default argument captures here
  cpptrace::runtime_error here{std::string("x")};
  sym_assert(here.trace().frames.size() == 2 && here.trace().frames[0].raw_address == 0x10, "default trace");
  sym_cover("classes");
}
extern "C" void h_system() {
  failResolve = 0;
  int code = (int)sym_pick(0, 40, "code");
  cpptrace::system_error e(code, "reading", raw_trace{{0x40}});
  sym_assert(e.code().value() == code && e.code().category() == std::generic_category(), "error code");
  sym_assert(std::string(e.message()) == "reading: " + std::error_code(code, std::generic_category()).message(), "system error message");
  cpptrace::system_error f = e;
  sym_assert(f.code() == e.code() && !strcmp(f.message(), e.message()), "copy");
  sym_cover("system");
}
static std::exception_ptr make(uint64_t k) {
  try {
    switch (k) { case 0: throw std::runtime_error("inner text"); case 1: throw 5; case 2: throw std::logic_error(""); default: throw cpptrace::runtime_error(std::string("traced"), raw_trace{{0x70}}); }
  } catch (...) { return std::current_exception(); }
}
extern "C" void h_nested() {
  (void)stacktrace{}.to_string();
  uint64_t base = sym_live_allocs();
  {
  failResolve = 0;
  uint64_t k = sym_pick(0, 3, "kind");
  std::exception_ptr p = make(k);
  nested_exception n(p, raw_trace{{0x40}});
  sym_assert(n.nested_ptr() == p, "nested pointer");
  std::string want;
  if (k == 0) want = "Nested exception: inner text"; else if (k == 1) want = "Nested exception holding instance of int"; else if (k == 2) want = "Nested exception: ";
  else want = "Nested exception: traced:\n" + stacktrace{framesFor({0x70})}.to_string();
  sym_assert(n.message() == want, "nested message");
  nested_exception c = n;
  sym_assert(c.message() == want && c.message() == want && c.nested_ptr() == p, "copy of a nested exception");
  sym_assert(std::string(c.what()) == want + ":\n" + stacktrace{framesFor({0x40})}.to_string(), "nested description");
  sym_cover(k == 1 ? "foreign" : k == 3 ? "traced" : "std");
  }
  sym_assert(sym_live_allocs() == base, "released");
}
extern "C" void h_wrap() {
  failResolve = 0;
  uint64_t k = sym_pick(0, 3, "kind");
  std::exception_ptr p = make(k), inner;
  bool caught = false;
  try {
    try { std::rethrow_exception(p); } catch (...) { inner = std::current_exception(); rethrow_and_wrap_if_needed(); }
  } catch (nested_exception& e) {
    caught = true;
    sym_assert(k != 3, "a traced exception must pass through unwrapped");
    sym_assert(e.nested_ptr() == inner, "wraps the current exception");
    sym_assert(e.trace().frames.size() == 2, "wrapping records a trace");
    sym_cover("wrapped");
  } catch (cpptrace::exception& e) {
    caught = true;
    sym_assert(k == 3 && !strcmp(e.message(), "traced") && e.trace().frames[0].raw_address == 0x70, "passes through unchanged");
    sym_cover("passed through");
  }
  sym_assert(caught, "something must be thrown");
}
// a copy that runs out of memory leaves both holders destructible, nothing freed twice
extern "C" void h_fault() {
  (void)stacktrace{}.to_string();
  uint64_t base = sym_live_allocs();
  bool failed = false;
  failResolve = 0;
  {
    detail::lazy_trace_holder a, b;
    std::vector<frame_ptr> f{1, 2};
    if (sym_pick(0, 1, "a")) a = detail::lazy_trace_holder(stacktrace{framesFor(f)}); else a = detail::lazy_trace_holder(raw_trace{f});
    if (sym_pick(0, 1, "b")) b = detail::lazy_trace_holder(stacktrace{framesFor(f)}); else b = detail::lazy_trace_holder(raw_trace{f});
    sym_arm_alloc_failures(1);
    try {
      if (sym_pick(0, 1, "op")) a = static_cast<const detail::lazy_trace_holder&>(b); else { detail::lazy_trace_holder c(static_cast<const detail::lazy_trace_holder&>(b)); }
    } catch (std::bad_alloc&) { failed = true; }
    sym_arm_alloc_failures(0);
    if (b.is_resolved()) sym_assert(b.get_resolved_trace().frames.size() == 2, "source"); else sym_assert(b.get_raw_trace().frames.size() == 2, "source");
    (void)a.get_resolved_trace().frames.size();
  }
  sym_assert(sym_live_allocs() == base, "storage not released exactly once");
  sym_cover(failed ? "failed" : "fine");
}
