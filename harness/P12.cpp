//@bound H 3 4
//@bounds every history of up to H operations (construct, copy construct, move construct, copy and move assign between three formatters and to themselves, set one of 13 options, format) with every formatter compared by its output to a reference configuration; one allocation failure at any point of a copy
//@assume moved-from formatters are only assigned to or destroyed
//@entry {"name":"h_history","jobs":8,"covers":["self","assigned"]}
//@entry {"name":"h_options","jobs":4,"covers":["option"]}
//@entry {"name":"h_fault","jobs":2,"covers":["failed","fine"]}
#include "common.h"
#include <cpptrace/formatting.hpp>
#include <fstream>
#include <new>
using namespace cpptrace;
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) { return false; }
extern "C" int vp_env_isatty(int) { return 0; }
namespace {
using F = formatter;
enum { NOPT = 5 };
struct M { bool known = true; int v[NOPT] = {0, 0, 0, 0, 0}; };
stacktrace* sample;
void set(F& f, M& m, int opt, int val) {
  m.v[opt] = val;
  switch (opt) {
    case 0: f.header(val ? "A header that is longer than a small buffer" : "H"); break;
    case 1: f.addresses(val ? F::address_mode::object : F::address_mode::raw); break;
    case 2: f.transform([val](stacktrace_frame x) { x.symbol = val ? "transformed" : "other"; return x; }); m.v[2] = val + 1; break;
    case 3: f.filter([val](const stacktrace_frame& x) { return x.raw_address != (frame_ptr)(val + 1); }); m.v[3] = val + 1; break;
    default: f.colors(val ? F::color_mode::always : F::color_mode::none); break;
  }
}
std::string model(const M& m) {
  std::string s = m.v[0] == 0 ? "H\n" : m.v[0] == 1 ? "A header that is longer than a small buffer\n" : "", B = m.v[4] ? "\033[34m" : "", Y = m.v[4] ? "\033[33m" : "", R_ = m.v[4] ? "\033[0m" : "";
  for (int i = 0; i < 2; i++) {
    s += i ? "\n#1 " : "#0 ";
    if (m.v[3] && m.v[3] == i + 1) { s += "(filtered)"; continue; }
    s += B + "0x" + std::string(15, '0') + char('1' + i + (m.v[1] ? 4 : 0)) + R_ + " in " + Y + (m.v[2] == 2 ? "transformed" : m.v[2] == 1 ? "other" : "s") + R_;
  }
  return s;
}
void check(const F& f, const M& m) { if (m.known) sym_assert(f.format(*sample) == model(m), "a formatter does not have the configuration last given to it"); }
}
extern "C" void h_history() {
  stacktrace t; t.frames.push_back({1, 5, {}, {}, "", "s", false}); t.frames.push_back({2, 6, {}, {}, "", "s", false}); sample = &t;
  { F w; (void)w.format(t); }
  uint64_t basec = sym_live_allocs();
  {
    F f[3]; M m[3];
    for (int i = 0; i < 3; i++) { f[i].header("H"); }
    set(f[1], m[1], 0, 1); set(f[2], m[2], 3, 0); set(f[2], m[2], 4, 1);
    for (int s = 0; s < H; s++) {
      uint64_t op = sym_pick(0, 7, "op"), i = sym_pick(0, 2, "i"), j = i;
      if (op < 2) j = (i + sym_pick(1, 2, "other")) % 3;
      if (op >= 4 && op != 6 && !m[i].known) continue;
      switch (op) {
        case 0: if (!m[j].known) continue; f[i] = static_cast<const F&>(f[j]); m[i] = m[j]; sym_cover("assigned"); break;
        case 1: f[i] = std::move(f[j]); m[i] = m[j]; m[j].known = false; break;
        case 2: { if (!m[i].known) continue; const F& self = f[i]; f[i] = self; sym_cover("self"); break; }
        case 3: { F& self = f[i]; f[i] = std::move(self); sym_cover("self"); break; }
        case 4: { F c(static_cast<const F&>(f[i])); M cm = m[i]; check(c, cm); set(c, cm, 1, 1); check(c, cm); break; }
        case 5: { F c(std::move(f[i])); M cm = m[i]; m[i].known = false; set(c, cm, 4, 1); check(c, cm); f[i] = std::move(c); m[i] = cm; break; }
        case 6: f[i] = F(); m[i] = M(); f[i].header("H"); break;
        default: { uint64_t o = sym_pick(0, NOPT - 1, "option"); set(f[i], m[i], (int)o, (int)sym_pick(0, 1, "value")); break; }
      }
      check(f[i], m[i]);
    }
    for (int i = 0; i < 3; i++) check(f[i], m[i]);
  }
  sym_assert(sym_live_allocs() == basec, "storage not released exactly once");
}
// every option is carried along by a copy and by a move, and does not reach the original
extern "C" void h_options() {
  stacktrace t; t.frames.push_back({1, 5, {7}, {8}, "dir/f.cpp", "__cxa_throw", false}); t.frames.push_back({2, 6, {9}, {3}, "dir/f.cpp", "std::vector<int, std::allocator<int> >::f(int)", false});
  uint64_t o = sym_pick(0, 13, "option");
  auto apply = [o](F& f) {
    switch (o) {
      case 0: f.header("X"); break; case 1: f.colors(F::color_mode::always); break; case 2: f.addresses(F::address_mode::none); break;
      case 3: f.paths(F::path_mode::basename); break; case 4: f.snippets(true); break; case 5: f.snippet_context(7); break; case 6: f.columns(false); break;
      case 7: f.symbols(F::symbol_mode::pruned); break; case 8: f.symbols(F::symbol_mode::pretty); break; case 9: f.filtered_frame_placeholders(false).filter([](const stacktrace_frame& x) { return x.raw_address != 2; }); break;
      case 10: f.filter([](const stacktrace_frame&) { return false; }); break; case 11: f.transform([](stacktrace_frame x) { x.symbol = "q"; return x; }); break;
      case 12: f.break_before_filename(); break; default: f.hide_exception_machinery(false); break;
    }
  };
  F plain, set; apply(set);
  std::string p = plain.format(t), s = set.format(t);
  if (o != 4 && o != 5) sym_assert(p != s, "setting an option has no effect");
  F c(set), a; a = set;
  sym_assert(c.format(t) == s && a.format(t) == s, "a copy has another configuration");
  apply(a); F d; d = plain; apply(d);
  sym_assert(d.format(t) == s && plain.format(t) == p, "configuring a copy reached the original");
  F mv(std::move(c)); F ma; ma = std::move(a);
  sym_assert(mv.format(t) == s && ma.format(t) == s, "moving changed the configuration");
  sym_cover("option");
}
extern "C" void h_fault() {
  stacktrace t; t.frames.push_back({1, 5, {}, {}, "", "s", false}); t.frames.push_back({2, 6, {}, {}, "", "s", false}); sample = &t;
  { F w; (void)w.format(t); }
  uint64_t basec = sym_live_allocs();
  bool failed = false;
  {
    F a, b; M ma, mb; a.header("H"); set(b, mb, 0, 1); set(b, mb, 2, 1);
    sym_arm_alloc_failures(1);
    try { if (sym_pick(0, 1, "op")) { a = static_cast<const F&>(b); ma = mb; } else { F c(static_cast<const F&>(b)); } } catch (std::bad_alloc&) { failed = true; }
    sym_arm_alloc_failures(0);
    check(a, ma); check(b, mb);
  }
  sym_assert(sym_live_allocs() == basec, "storage not released exactly once");
  sym_cover(failed ? "failed" : "fine");
}
