// Replay runtime: native implementations of the harness API, fed from a recorded assignment.
// File format: lines "<name> <width> <value>". Missing values read as 0.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <unwind.h>
namespace { struct VpReplayEnt { std::string name; unsigned w; uint64_t v; }; using Ent = VpReplayEnt; }
static std::vector<Ent>& ents() { static std::vector<Ent> e; return e; }
static size_t pos = 0;
static bool mismatch = false;
static uint64_t live = 0, total = 0, limit = 1u << 20, budget = 0;
static bool ready = false;
static uint64_t next(const char* n, unsigned w) {
  auto& e = ents();
  if (pos >= e.size()) { pos++; return 0; }
  Ent& x = e[pos++];
  std::string nn(n); for (char& c : nn) if (c == ' ') c = '_';
  if (x.name != nn || x.w != w) { if (!mismatch) fprintf(stderr, "REPLAY-MISMATCH at %zu: recorded %s/%u, wanted %s/%u\n", pos - 1, x.name.c_str(), x.w, n, w); mismatch = true; }
  return x.v;
}
[[noreturn]] static void die(int code) { fflush(nullptr); _exit(code); }
extern "C" {
void sym_make(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(nm, 8); }
uint64_t sym_u64(const char* n) { return next(n, 64); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n, 32); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n, 16); }
uint8_t sym_u8(const char* n) { return (uint8_t)next(n, 8); }
bool sym_bool(const char* n) { return next(n, 1) & 1; }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); die(66); } }
void sym_assert(bool c, const char* m) { if (!c) { fprintf(stderr, "REPLAY-ASSERT-FAILED: %s\n", m); die(77); } }
void sym_cover(const char* m) { fprintf(stderr, "COVER %s\n", m); }
void sym_fail(const char* m) { fprintf(stderr, "REPLAY-ASSERT-FAILED: %s\n", m); die(77); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_note(const char*) {}
uint64_t sym_live_allocs() { return live; }
uint64_t sym_total_allocs() { return total; }
void sym_alloc_limit(uint64_t b) { limit = b; }
void sym_arm_alloc_failures(uint64_t b) { budget = b; }
uint64_t sym_alloc_failures_left() { return budget; }
void sym_end_path() { die(0); }
void sym_expect_terminate(bool b) { if (b) std::set_terminate([] { fprintf(stderr, "COVER terminate\n"); die(0); }); else std::set_terminate([] { fprintf(stderr, "std::terminate\n"); abort(); }); }
void sym_print(const char* s) { fprintf(stderr, "[note] %s\n", s); }
void sym_print_u64(const char* s, uint64_t v) { fprintf(stderr, "[note] %s = %llu\n", s, (unsigned long long)v); }
bool sym_valid(const void*, size_t) { return true; }
uint64_t __attribute__((weak)) sym_locks_held() { return 0; }
uint64_t __attribute__((weak)) sym_lock_count() { return 0; }
bool sym_native() { return true; }
}
// frames between the caller and the exported function of the given name
namespace { struct DepthWalk { void* fn; uint64_t n; bool found; }; }
extern "C" __attribute__((noinline)) uint64_t __sym_depth(const char* fn) {
  DepthWalk w{dlsym(RTLD_DEFAULT, fn), 0, false};
  _Unwind_Backtrace([](_Unwind_Context* c, void* a) -> _Unwind_Reason_Code {
    auto& w = *(DepthWalk*)a;
    if (w.found) return _URC_END_OF_STACK;
    if (_Unwind_FindEnclosingFunction((void*)(_Unwind_GetIP(c) - 1)) == w.fn) { w.found = true; return _URC_END_OF_STACK; }
    w.n++;
    return _URC_NO_REASON;
  }, &w);
  return w.n - 1;
}
static bool failHere(size_t n) {
  if (!ready) return false;
  if (budget) { if (next("alloc_fail", 1) & 1) { budget--; return true; } }
  return n > limit;
}
#ifndef VP_NO_NEW
// allocation goes through malloc so that ASAN still tracks it
void* operator new(size_t n) { if (failHere(n)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (ready) { live++; total++; } return p; }
extern "C" void* vp_native_malloc(size_t n) { return failHere(n) ? nullptr : malloc(n); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (failHere(n)) return nullptr; if (ready) { live++; total++; } return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { if (p && ready) live--; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
int main(int argc, char** argv) {
  setvbuf(stderr, nullptr, _IONBF, 0);
  FILE* f = argc > 2 ? fopen(argv[2], "r") : nullptr;
  if (f) {
    char n[256]; unsigned w; unsigned long long v;
    while (fscanf(f, "%255s %u %llu", n, &w, &v) == 3) ents().push_back({n, w, v});
    fclose(f);
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 99; }
  fprintf(stderr, "REPLAY-START\n");
  ready = true;
  fn();
  ready = false;
  fprintf(stderr, "REPLAY-COMPLETED\n");
  die(mismatch ? 67 : 0);
}

#include "announce.inc"
