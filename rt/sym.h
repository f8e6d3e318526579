// Harness API. In the symbolic engine these are built in; in the replay build rt/native.cpp implements them from a
// recorded assignment.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_make(void* p, size_t n, const char* name);
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
uint16_t sym_u16(const char* name);
uint8_t sym_u8(const char* name);
bool sym_bool(const char* name);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_cover(const char* msg);
[[noreturn]] void sym_fail(const char* msg);
uint64_t sym_concretize(uint64_t v);     // split on every feasible value
void sym_note(const char* s);
uint64_t sym_live_allocs();
uint64_t sym_total_allocs();
void sym_alloc_limit(uint64_t bytes);    // larger allocations fail
void sym_arm_alloc_failures(uint64_t budget);   // while armed, up to `budget` allocations may fail, each at any point
uint64_t sym_alloc_failures_left();
[[noreturn]] void sym_end_path();
void sym_expect_terminate(bool);
void sym_print(const char*);
void sym_print_u64(const char*, uint64_t);
uint64_t __sym_depth(const char* fn);
bool sym_valid(const void*, size_t);
uint64_t sym_locks_held();
uint64_t sym_lock_count();
bool sym_native();
void __sym_mprotect(const void*, size_t, int);   // symbolic build only
bool sym_writable(const void*);                 // symbolic build only: not write-protected
}
// a value in [lo,hi], split into one path per value
inline uint64_t sym_pick(uint64_t lo, uint64_t hi, const char* name) {
  uint8_t v = sym_u8(name);
  sym_assume(v >= lo);
  sym_assume(v <= hi);
  return sym_concretize(v);
}
inline uint64_t sym_range(uint64_t lo, uint64_t hi, const char* name) {
  uint64_t v = sym_u64(name);
  sym_assume(v >= lo);
  sym_assume(v <= hi);
  return v;
}
// With "guardcalls", every call from the sources to a function outside of them is announced; while a signal handler is
// simulated the function has to be async-signal-safe.
extern "C" void sym_signal_handler(bool on);
