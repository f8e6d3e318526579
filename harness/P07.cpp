//@bounds histories of up to OPS operations (register, unregister, clear, load from the debugger list, look up) over OBJS objects in memory, each with one or two code sections of any address and size (empty ones too, between the others), one object being no valid image; any looked-up address; trace exceptions absorbed or not
//@bound OPS 3 4
//@bound OBJS 2 3
//@assume code sections of different live objects do not overlap and do not wrap around; an object's memory stays readable while it is registered
//@entry {"name":"h_history","jobs":8,"covers":["found","not found","found in the second section","registered twice","cleared","unregistered","from the list","refused"]}
//@entry {"name":"h_oom","jobs":4,"covers":["out of memory","found","not found"]}
#include "elfimg.h"
#include "jit/jit_objects.hpp"
#include <cpptrace/gdb_jit.hpp>
using namespace cpptrace;
using detail::elf;

namespace cpptrace { inline namespace v1 { namespace detail { extern "C" { struct jit_descriptor __jit_debug_descriptor; } } } }
namespace {
struct Obj { char* mem; size_t n; uint64_t a[2], e[2]; int sections; bool live, bad; } objs[OBJS + 1];
void make(int i, int sections, bool bad) {
  Obj& o = objs[i];
  Image img;
  size_t shoff = 64, nsh = 5 + (sections - 1), str = shoff + nsh * 64, sy = str + 16, end = sy + 24;
  img.d = (unsigned char*)malloc(end); img.n = end; memset(img.d, 0, end);
  img.header(0, 0, shoff, nsh, 1);
  img.sh(shoff, 0, SHT_NULL, 0, 0, 0, 0, 0); shoff += 64;
  memcpy(img.d + str, "\0.text\0o0\0", 10);
  img.d[str + 8] = '0' + i;
  img.sh(shoff, 0, SHT_STRTAB, 0, str, 16, 0, 0);
  img.sh(shoff + 64, 0, SHT_SYMTAB, 0, sy, 24, 1, 24);
  for (int k = 0; k < 2; k++) {
    o.a[k] = o.e[k] = 0;
    if (k < sections) {
      o.a[k] = sym_u64("section address"); o.e[k] = sym_u64("section end");
      img.sh(shoff + (2 + 2 * k) * 64, 1, SHT_PROGBITS, o.a[k], 0, o.e[k] - o.a[k], 0, 0);
      if (!k) img.sh(shoff + 3 * 64, 0, SHT_PROGBITS, sym_u64("data address"), 0, sym_u64("data size"), 0, 0);
    }
  }
  img.sym(sy, 7, STT_FUNC, 2, 0, ~0ull);
  if (bad) img.d[1] = 'X';
  o.sections = sections; o.mem = (char*)img.d; o.n = end; o.live = false; o.bad = bad;
}
// the sections of all objects lie one after the other in an order of their own
void disjoint(int n) {
  struct R { uint64_t a, e; } r[2 * OBJS]; int m = 0;
  for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) if (k < objs[i].sections) r[m++] = {objs[i].a[k], objs[i].e[k]};
  unsigned used = 0; const R* before = nullptr;
  for (int k = 0; k < m; k++) {
    int i = sym_pick(0, m - 1 - k, "next in order");
    for (int j = 0; j <= i; j++) if (used & (1u << j)) i++;
    used |= 1u << i;
    sym_assume(r[i].a <= r[i].e);
    if (before) sym_assume(before->e <= r[i].a);
    before = &r[i];
  }
}
int want, sec;
__attribute__((noinline)) void hit(int i, int k) { want = i; sec = k; sym_note("in a live section"); }
void lookAt(uint64_t pc, int n) {
  auto r = detail::lookup_jit_object(pc);
  want = -1;
  for (int i = 0; i < n; i++) if (objs[i].live) for (int k = 0; k < 2; k++) if (pc >= objs[i].a[k] && pc < objs[i].e[k]) hit(i, k);
  if (want < 0) { sym_cover("not found"); sym_assert(!r, "no object where none is registered"); return; }
  sym_cover("found"); if (sec) sym_cover("found in the second section");
  sym_assert(!!r, "an address in a live object is found");
  if (!r) return;
  sym_assert(r.unwrap().base == objs[want].a[sec], "the start of the section");
  auto name = r.unwrap().object.lookup_symbol(pc - r.unwrap().base);
  sym_assert(name.has_value(), "the object answers");
  if (name.has_value()) sym_assert(name.unwrap().size() == 2 && name.unwrap()[1] == '0' + want, "the object registered for that address");
}
void look(int n) { lookAt(sym_u64("pc"), n); }
}
// after an object is unregistered its memory may be gone
#define GONE(o) do { if ((o).mem) { free((o).mem); (o).mem = nullptr; } } while (0)
extern "C" void h_history() {
  set_log_callback([](log_level, const char*) {});
  for (int i = 0; i < OBJS; i++) make(i, i == 0 ? 1 + sym_pick(0, 1, "sections") : 1, false);
  make(OBJS, 1, true);
  disjoint(OBJS);
  int n = sym_pick(1, OPS, "operations");
  int count[OBJS + 1] = {};
  for (int k = 0; k < n; k++) {
    uint64_t op = sym_pick(0, 3, "operation");
    if (op == 0 || op == 1) {
      int i = sym_pick(0, op == 0 ? OBJS : OBJS - 1, "object");
      Obj& o = objs[i];
      if (!o.mem) sym_end_path();
      if (op == 0) {
        if (o.bad && sym_pick(0, 1, "propagate")) absorb_trace_exceptions(false);
        if (o.live) sym_cover("registered twice");
        try { register_jit_object(o.mem, o.n); } catch (...) { sym_fail("registering does not throw"); }
        if (o.bad) sym_cover("refused"); else o.live = true;
      } else { unregister_jit_object(o.mem); if (o.live) sym_cover("unregistered"); o.live = false; }
    } else if (op == 2) { clear_all_jit_objects(); sym_cover("cleared"); for (auto& o : objs) o.live = false; }
    else if (op == 3) {
      static detail::jit_code_entry ent[OBJS];
      int m = sym_pick(0, OBJS, "entries"), first = sym_pick(0, OBJS - 1, "first entry");
      detail::__jit_debug_descriptor.first_entry = m ? &ent[0] : nullptr;
      for (auto& o : objs) o.live = false;
      for (int i = 0; i < m; i++) {
        Obj& o = objs[(first + i) % OBJS];
        if (!o.mem) sym_end_path();
        ent[i] = {i + 1 < m ? &ent[i + 1] : nullptr, i ? &ent[i - 1] : nullptr, o.mem, o.n};
        o.live = true;
      }
      if (m) sym_cover("from the list");
      experimental::register_jit_objects_from_gdb_jit_interface();
    }
    if (k + 1 < n && k == 0) lookAt(objs[1].a[0], OBJS);
  }
  for (auto& o : objs) if (!o.live) GONE(o);
  look(OBJS);
}
extern "C" void h_oom() {
  set_log_callback([](log_level, const char*) {});
  for (int i = 0; i < 2; i++) make(i, 1 + (i == 0), false);
  disjoint(2);
  for (int i = 0; i < 2; i++) { register_jit_object(objs[i].mem, objs[i].n); objs[i].live = true; if (!sym_pick(0, 1, "second")) break; }
  int i = sym_pick(0, 1, "object");
  bool failed = false, was = objs[i].live;
  sym_arm_alloc_failures(1);
  try { register_jit_object(objs[i].mem, objs[i].n); } catch (...) { failed = true; sym_cover("out of memory"); }
  sym_arm_alloc_failures(0);
  if (failed) {
    // whatever became of it, unregistering leaves nothing behind
    if (!was || sym_pick(0, 1, "unregister")) { unregister_jit_object(objs[i].mem); objs[i].live = false; GONE(objs[i]); }
  } else objs[i].live = true;
  look(2);
}
