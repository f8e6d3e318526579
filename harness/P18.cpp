//@bounds 0..NF frames with symbolic addresses; per query the reader reports any sequence of up to CB callbacks (function, file and line each present or missing) and then succeeds, returns an error, or reports "no debug info"; creating the reader succeeds or fails
//@bound NF 2 3
//@bound CB 2 3
//@assume libbacktrace is replaced by functions making the callbacks its documentation allows: every callback of a query passes the queried address
//@group {"defs":{"CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE":false,"CPPTRACE_GET_SYMBOLS_WITH_LIBBACKTRACE":true},"inc":["$V/rt/stubs"]}
//@entry {"name":"h_bt","jobs":8,"covers":["resolved","fallback","failed","nothing"]}
#include "common.h"
#include "symbols/symbols.hpp"
#include "utils/common.hpp"
#include "utils/error.hpp"
#include <backtrace.h>
#include <unistd.h>
using namespace cpptrace;
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { *st = -2; return nullptr; }
namespace {
const char* file[5] = {nullptr, "a.cpp", "b.cpp", "c.cpp", ""};
const char* func[5] = {nullptr, "_Z1av", "bee", "_Z1cv", ""};
uint64_t addr[4]; size_t n;
// what was last reported for each frame
struct Seen { int cb; const char* file; int line; const char* sym; bool error; bool asked; const char* fallback; bool fellBack; } seen[4];
size_t which(uint64_t a) { for (size_t i = 0; i < n; i++) if (addr[i] == a) return i; sym_fail("asked about another address"); }
int created; bool createFails;
char stateObj;
// throws, as the library's error callback does
void maybeError(Seen& s, backtrace_error_callback err, void* data) {
  uint64_t e = sym_pick(0, 2, "outcome");
  if (e == 1) { s.error = true; err(data, "bad debug info", 5); s.error = false; sym_cover("error tolerated"); }
  if (e == 2) err(data, "no debug info in ELF executable", -1);
}
}
extern "C" ssize_t vp_env_readlink(const char*, char* b, size_t) { memcpy(b, "/bin/me", 7); return 7; }
extern "C" backtrace_state* backtrace_create_state(const char* name, int threaded, backtrace_error_callback err, void* data) {
  created++;
  sym_assert(threaded && !strcmp(name, "/bin/me"), "the reader is created for this program, for use by several threads");
  if (createFails) { err(data, "cannot create", 3); return nullptr; }
  return (backtrace_state*)&stateObj;
}
extern "C" int backtrace_pcinfo(backtrace_state* st, uintptr_t pc, backtrace_full_callback cb, backtrace_error_callback err, void* data) {
  sym_assert((void*)st == &stateObj, "the reader is used");
  Seen& s = seen[which(pc)];
  s.asked = true;
  size_t k = sym_pick(0, CB, "callbacks");
  for (size_t i = 0; i < k; i++) {
    s.file = file[sym_pick(0, 2, "file")]; s.sym = func[sym_pick(0, 2, "function")]; s.line = (int)sym_range(0, 0x7fffffff, "line"); s.cb++;
    if (cb(data, pc, s.file, s.line, s.sym)) return 1;
  }
  maybeError(s, err, data);
  return 0;
}
extern "C" int backtrace_syminfo(backtrace_state* st, uintptr_t pc, backtrace_syminfo_callback cb, backtrace_error_callback err, void* data) {
  sym_assert((void*)st == &stateObj, "the reader is used");
  Seen& s = seen[which(pc)];
  s.fellBack = true;
  if (sym_pick(0, 1, "table answers")) { s.fallback = func[sym_pick(0, 1, "table function")]; cb(data, pc, s.fallback, pc & ~15ull, 16); }
  else { maybeError(s, err, data); }
  return 1;
}
extern "C" void h_bt() {
  set_log_callback([](log_level, const char*) {});
  bool absorb = sym_pick(0, 1, "absorb");
  absorb_trace_exceptions(absorb);
  createFails = sym_pick(0, 1, "create fails");
  n = sym_pick(0, NF, "frames");
  for (size_t i = 0; i < n; i++) { addr[i] = (sym_u64("address") << 3) | i | 4; }
  std::vector<stacktrace_frame> t;
  uint64_t locks = sym_locks_held();
  bool threw = false;
  try { t = detail::resolve_frames(std::vector<frame_ptr>(addr, addr + n)); } catch (detail::internal_error&) { threw = true; }
  sym_assert(sym_locks_held() == locks, "no lock is left held");
  bool anyError = n && createFails;
  for (size_t i = 0; i < n; i++) anyError |= seen[i].error;
  sym_assert(threw == (anyError && !absorb), "failures escape exactly when asked for");
  if (threw) return;
  sym_assert(t.size() == n, "one frame per input");
  for (size_t i = 0; i < n; i++) {
    Seen& s = seen[i];
    sym_assert(t[i].raw_address == addr[i] && t[i].object_address == 0 && !t[i].is_inline && !t[i].column.has_value(), "the frame keeps its address");
    if (s.error || !s.asked) { sym_cover("failed"); continue; }
    bool missing = !s.sym;
    sym_assert(s.fellBack == missing, "the symbol table is asked exactly for missing functions");
    sym_assert(t[i].symbol == (missing ? (s.fallback ? s.fallback : "") : s.sym), "the function reported last");
    if (missing) { sym_cover(s.fallback ? "fallback" : "nothing"); }
    else {
      sym_cover("resolved");
      sym_assert(t[i].filename == (s.file ? s.file : ""), "the file reported last");
      sym_assert(t[i].line.has_value() && t[i].line.value() == (uint32_t)s.line, "the line reported last");
    }
  }
  sym_assert(created <= 1 || createFails, "the reader is created once");
}
