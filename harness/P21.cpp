//@bound K 4 5
//@bounds histories of up to K operations over two nullable objects and a reference optional, operand values symbolic over the whole type minus the reserved value, for uint32_t, int, uint8_t and int64_t; printing for every absent/present combination of line and column with values 0..99 and three large ones
//@entry {"name":"h_hist_u32","jobs":4,"covers":["history"]}
//@entry {"name":"h_hist_i32","jobs":4,"covers":["history"]}
//@entry {"name":"h_hist_u8","jobs":2,"covers":["history"]}
//@entry {"name":"h_hist_i64","jobs":2,"covers":["history"]}
//@entry {"name":"h_print","jobs":2,"covers":["line","nothing"]}
#include "sym.h"
#include <cpptrace/basic.hpp>
#include <optional>
#include <string>
using cpptrace::nullable;
template<class T> static T any(const char* n) {
  T v = (T)sym_u64(n);
  sym_assume(v != std::numeric_limits<T>::max());
  return v;
}
// the reference: presence flag and value, no reserved values
template<class T> struct Ref { bool has = false; T v{}; };
template<class T> static void check(const nullable<T>& a, const Ref<T>& r) {
  sym_assert(a.has_value() == r.has, "presence differs from the history");
  if (r.has) { sym_assert(a.value() == r.v, "value differs from the one set"); }
  T alt = (T)sym_u64("alt");
  sym_assert(a.value_or(alt) == (r.has ? r.v : alt), "value_or differs from an optional");
}
template<class T> static void run() {
  nullable<T> x[2];
  Ref<T> r[2];
  auto init = [&](int i) {
    switch (sym_pick(0, 3, "ctor")) {
      case 0: check(x[i], r[i]); break;
      case 1: { T v = any<T>("v"); x[i] = nullable<T>(v); r[i] = {true, v}; break; }
      case 2: x[i] = nullable<T>::null(); break;
      default: { T v = any<T>("v"); nullable<T> y = v, z(y); x[i] = std::move(z); r[i] = {true, v}; break; }
    }
  };
  init(0); init(1);
  check(x[0], r[0]);
  uint64_t steps = K - 1;
  for (uint64_t s = 0; s < steps; s++) {
    uint64_t i = sym_pick(0, 1, "object"), j = 1 - i;
    switch (sym_pick(0, 6, "op")) {
      case 0: { T v = any<T>("v"); auto& ret = (x[i] = v); sym_assert(&ret == &x[i], "assignment returns its object"); r[i] = {true, v}; break; }
      case 1: x[i].reset(); r[i].has = false; break;
      case 2: x[i].swap(x[j]); std::swap(r[i], r[j]); break;
      case 3: x[i] = x[j]; r[i] = r[j]; break;
      case 4: if (r[i].has) { T v = any<T>("v"); x[i].value() = v; r[i].v = v; } break;
      case 5: x[i] = x[i]; break;
      default: x[i].swap(x[i]); break;
    }
    check(x[0], r[0]);
    check(x[1], r[1]);
    bool eq = r[0].has == r[1].has && (!r[0].has || r[0].v == r[1].v);
    sym_assert((x[0] == x[1]) == eq, "equality differs from optional equality");
    sym_assert((x[0] != x[1]) == !eq, "inequality differs from optional inequality");
    sym_assert(x[i] == x[i] && !(x[i] != x[i]), "an object equals itself");
  }
  sym_cover("history");
}
extern "C" void h_hist_u32() { run<uint32_t>(); }
extern "C" void h_hist_i32() { run<int32_t>(); }
extern "C" void h_hist_u8() { run<uint8_t>(); }
extern "C" void h_hist_i64() { run<int64_t>(); }
extern "C" void h_print() {
  static const uint32_t big[] = {100, 65536, 4294967294u};
  auto pickv = [&](const char* n, nullable<uint32_t>& out, std::string& text) {
    uint64_t k = sym_pick(0, 4, n);
    if (k == 0) return;
    if (k == 1) { uint64_t v = sym_pick(0, 99, n); out = (uint32_t)v; text = std::to_string(v); }
    else { out = big[k - 2]; text = std::to_string(big[k - 2]); }
  };
  cpptrace::stacktrace_frame f{0x10, 0x10, {}, {}, "f.cpp", "s", false};
  std::string lt, ct;
  pickv("line", f.line, lt);
  uint64_t ck = sym_pick(0, 2, "column");
  if (ck == 1) { f.column = 0u; ct = "0"; } else if (ck == 2) { f.column = 41u; ct = "41"; }
  std::string want = "0x0000000000000010 in s at f.cpp";
  if (!lt.empty()) { want += ":" + lt; if (!ct.empty()) want += ":" + ct; }
  sym_assert(f.to_string(false) == want, "printed line and column differ from the values set");
  // equality of frames follows the optional fields
  cpptrace::stacktrace_frame g = f;
  sym_assert(g == f, "copies are equal");
  g.line.reset();
  sym_assert((g == f) == lt.empty(), "clearing the line must be visible in comparison");
  g = f; g.column.reset();
  sym_assert((g == f) == ct.empty(), "clearing the column must be visible in comparison");
  sym_cover(lt.empty() ? "nothing" : "line");
}
