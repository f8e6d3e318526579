//@bounds 0..NF frames over two objects and none, object chosen per frame; per frame the resolver answers fully, without a symbol, with 0..INL inlined frames, or throws; object opening fails or succeeds with or without the symbol; both cache modes; every combination of missing names for the blank filling
//@bound NF 3 4
//@bound INL 2 3
//@assume the debug-information reader, object files and JIT registrations are replaced by functions answering per address
//@group {"defs":{"CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE":false,"CPPTRACE_GET_SYMBOLS_WITH_LIBDWARF":true,"VP_DWARF":true},"skip":["^symbols/dwarf/"]}
//@entry {"name":"h_dwarf","jobs":8,"covers":["inlined","symbol table","resolver failed","jit","object failed"]}
//@entry {"name":"h_collate","jobs":4,"covers":["collated"]}
//@entry {"name":"h_fill","jobs":4,"covers":["asked","nothing blank"]}
//@group {"defs":{"CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE":false,"CPPTRACE_GET_SYMBOLS_WITH_NOTHING":true}}
//@entry {"name":"h_nothing","jobs":1,"covers":["kept"]}
#include "common.h"
#include "symbols/symbols.hpp"
#include "symbols/dwarf/resolver.hpp"
#include "binary/object.hpp"
#include "utils/common.hpp"
#include "utils/error.hpp"
#include "utils/utils.hpp"
#include "jit/jit_objects.hpp"
#include <stdexcept>
using namespace cpptrace;
using detail::frame_with_inlines;
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { *st = -2; return nullptr; }
namespace {
const char* names[3] = {"/obj/first/with/a/long/name", "/obj/b", ""};
uint64_t objectOf[4], answer[4], inl[4];
std::vector<object_frame> input(size_t n) {
  std::vector<object_frame> f;
  for (size_t i = 0; i < n; i++) { objectOf[i] = sym_pick(0, 2, "object"); f.push_back({0x1000 + i, 0xa0 + i, names[objectOf[i]]}); }
  return f;
}
}
#ifdef VP_DWARF
namespace {
stacktrace_frame fr(uintptr_t raw, uintptr_t obj, int line, std::string file, std::string sym, bool in) {
  return {raw, obj, {(uint32_t)line}, {(uint32_t)line + 7}, file, sym, in};
}
bool objectFails;
}
namespace cpptrace { inline namespace v1 { namespace detail { namespace libdwarf {
  struct vp_resolver : symbol_resolver {
    std::string path;
    frame_with_inlines resolve_frame(const object_frame& f) override {
      sym_assert(f.object_path == path, "the resolver of the frame's own object is asked");
      size_t i = f.raw_address - 0x1000;
      sym_assert(i < 4 && f.object_address == 0xa0 + i, "the resolver is asked about an input frame");
      if (answer[i] == 2) throw std::runtime_error("bad debug information");
      frame_with_inlines r{fr(f.raw_address, f.object_address, 100 * i + 1, "s" + std::to_string(i), answer[i] == 1 ? "" : "f" + std::to_string(i), false), {}};
      for (size_t k = 0; k < inl[i]; k++) r.inlines.push_back(fr(0, 0, 100 * i + 10 + k, "c" + std::to_string(i) + std::to_string(k), "g" + std::to_string(i) + std::to_string(k), true));
      return r;
    }
  };
  int made;
  std::unique_ptr<symbol_resolver> make_dwarf_resolver(cstring_view p) {
    made++;
    if (objectFails && !strcmp(p.c_str(), names[0])) throw std::runtime_error("cannot open");
    auto r = new vp_resolver; r->path = p.c_str(); return std::unique_ptr<symbol_resolver>(r);
  }
} } } }
// the symbol-table fall back
#include "binary/elf.hpp"
namespace { alignas(16) char elfStore[2000]; bool tableOpens; std::string asked; }
detail::Result<detail::maybe_owned<detail::elf>, detail::internal_error> vp_open(const std::string& p) VP_ENV("_ZN8cpptrace2v16detail15open_elf_cachedERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
detail::Result<detail::maybe_owned<detail::elf>, detail::internal_error> vp_open(const std::string& p) {
  if (!tableOpens) return detail::internal_error("no object");
  return detail::maybe_owned<detail::elf>(reinterpret_cast<detail::elf*>(elfStore));
}
detail::optional<std::string> vp_lookup(detail::elf*, frame_ptr pc) VP_ENV("_ZN8cpptrace2v16detail3elf13lookup_symbolB5cxx11Em");
detail::optional<std::string> vp_lookup(detail::elf*, frame_ptr pc) {
  if (pc & 1) return "t" + std::to_string(pc - 0xa0);
  return detail::nullopt;
}
detail::optional<detail::jit_object_lookup_result> vp_jit(frame_ptr a) VP_ENV("_ZN8cpptrace2v16detail17lookup_jit_objectEm");
detail::optional<detail::jit_object_lookup_result> vp_jit(frame_ptr a) {
  if (a & 1) return detail::jit_object_lookup_result{*reinterpret_cast<detail::elf*>(elfStore), a - 0xa0 - (a - 0x1000)};
  return detail::nullopt;
}
extern "C" void h_dwarf() {
  (void)stacktrace{}.to_string();
  set_log_callback([](log_level, const char*) {});
  bool absorb = sym_pick(0, 1, "absorb");
  absorb_trace_exceptions(absorb);
  tableOpens = sym_pick(0, 1, "table opens"); objectFails = sym_pick(0, 1, "object fails");
  experimental::set_cache_mode(sym_pick(0, 1, "cache") ? cache_mode::prioritize_speed : cache_mode::prioritize_memory);
  size_t n = sym_pick(0, NF, "frames");
  auto in = input(n);
  for (size_t i = 0; i < n; i++) if (objectOf[i] < 2) { answer[i] = sym_pick(0, 2, "answer"); inl[i] = answer[i] == 0 ? sym_pick(0, INL, "inlines") : 0; }
  bool viaRaw = false;
  std::vector<stacktrace_frame> t;
  bool threw = false;
  uint64_t locks = sym_locks_held();
  for (int round = 0; round < 2; round++) {   // again, with whatever has been remembered
    try { t = detail::resolve_frames(in); } catch (std::runtime_error&) { threw = true; }
    sym_assert(sym_locks_held() == locks, "no lock is left held");
    size_t o = 0;
    bool failing = false;
    for (size_t i = 0; i < n; i++) failing |= (objectOf[i] < 2 && answer[i] == 2) || (objectFails && objectOf[i] == 0);
    sym_assert(threw == (failing && !absorb), "failures escape exactly when asked for");
    if (threw) return;
    for (size_t i = 0; i < n; i++) {
      size_t k = 0;
      bool failed = (objectFails && objectOf[i] == 0) || (objectOf[i] < 2 && answer[i] == 2);
      bool asked = objectOf[i] < 2 && !failed;
      if (asked) k = inl[i];
      sym_assert(t.size() >= o + k + 1, "no frame is lost");
      for (size_t j = 0; j < k; j++) {      // innermost first
        auto& g = t[o + j];
        size_t id = k - 1 - j;
        sym_assert(g.is_inline && g.symbol == "g" + std::to_string(i) + std::to_string(id), "inlined frames come first, innermost first");
        // the innermost is at the address's own location, every other at the call site of the next inner one
        std::string f = j == 0 ? "s" + std::to_string(i) : "c" + std::to_string(i) + std::to_string(id + 1);
        uint32_t l = j == 0 ? 100 * i + 1 : 100 * i + 10 + id + 1;
        sym_assert(g.filename == f && g.line.value() == l && g.column.value() == l + 7, "locations of inlined frames");
        sym_cover("inlined");
      }
      auto& f = t[o + k];
      o += k + 1;
      sym_assert(!f.is_inline && f.raw_address == in[i].raw_address && f.object_address == in[i].object_address, "the frame keeps its addresses");
      if (!asked) {
        bool jit = objectOf[i] == 2 && (in[i].raw_address & 1);
        bool table = objectOf[i] < 2 && answer[i] == 2 && !(objectFails && objectOf[i] == 0) && tableOpens && (in[i].object_address & 1);
        sym_assert(f.symbol == (jit || table ? "t" + std::to_string(i) : std::string()), "an unresolved frame has no symbol, or the symbol table's");
        sym_assert(f.filename == in[i].object_path && !f.line.has_value() && !f.column.has_value(), "an unresolved frame keeps its object name");
        if (jit) sym_cover("jit"); else if (objectFails && objectOf[i] == 0) sym_cover("object failed"); else if (objectOf[i] < 2) sym_cover("resolver failed");
        continue;
      }
      uint32_t l = k ? 100 * i + 10 : 100 * i + 1;
      sym_assert(f.filename == (k ? "c" + std::to_string(i) + "0" : "s" + std::to_string(i)) && f.line.value() == l && f.column.value() == l + 7, "location of the frame");
      std::string want = answer[i] == 0 ? "f" + std::to_string(i) : tableOpens && (in[i].object_address & 1) ? "t" + std::to_string(i) : "";
      sym_assert(f.symbol == want, "symbol of the frame");
      if (answer[i] == 1 && !want.empty()) sym_cover("symbol table");
    }
    sym_assert(t.size() == o, "no frame is invented");
  }
}
extern "C" void h_collate() {
  size_t n = sym_pick(0, NF, "frames");
  auto in = input(n);
  bool il = sym_pick(0, 1, "with inlines");
  std::vector<frame_with_inlines> a(n); std::vector<stacktrace_frame> b(n);
  bool seen[4] = {};
  size_t total = 0;
  auto check = [&](const std::string& name, size_t vecIndex, size_t i, size_t last) {
    sym_assert(i < n && !seen[i] && in[i].object_path == name, "every frame is filed once, under its object");
    sym_assert(vecIndex == 0 || last < i, "frames of one object stay in order");
    seen[i] = true; total++;
  };
  if (il) for (auto& g : detail::collate_frames(in, a)) {
    size_t last = 0, k = 0;
    for (auto& e : g.second) { size_t i = &e.first.get() - in.data(); sym_assert(&e.second.get() == &a[i], "the frame's own slot"); check(g.first, k++, i, last); last = i; }
  }
  else for (auto& g : detail::collate_frames(in, b)) {
    size_t last = 0, k = 0;
    for (auto& e : g.second) { size_t i = &e.first.get() - in.data(); sym_assert(&e.second.get() == &b[i], "the frame's own slot"); check(g.first, k++, i, last); last = i; }
  }
  sym_assert(total == n, "no frame is dropped");
  sym_cover("collated");
}
namespace cpptrace { inline namespace v1 { namespace detail {
  void fill_blanks(std::vector<stacktrace_frame>& vec, std::vector<stacktrace_frame> (*resolver)(const std::vector<frame_ptr>&));
} } }
namespace { std::vector<frame_ptr> askedAddrs; }
extern "C" void h_fill() {
  size_t n = sym_pick(0, NF, "frames");
  std::vector<stacktrace_frame> v;
  uint64_t miss[4];
  size_t blanks = 0;
  for (size_t i = 0; i < n; i++) {
    miss[i] = sym_pick(0, 3, "missing");
    if (miss[i]) blanks++;
    v.push_back(fr(0x1000 + i, 0xa0 + i, 5 + i, miss[i] & 2 ? "" : "file" + std::to_string(i), miss[i] & 1 ? "" : "sym" + std::to_string(i), false));
  }
  auto before = v;
  detail::fill_blanks(v, [](const std::vector<frame_ptr>& a) {
    askedAddrs = a;
    std::vector<stacktrace_frame> r;
    for (auto x : a) r.push_back(fr(x, 0xb0 + x - 0x1000, 50 + x - 0x1000, "newfile" + std::to_string(x - 0x1000), "newsym" + std::to_string(x - 0x1000), false));
    return r;
  });
  sym_assert(askedAddrs.size() == blanks && v.size() == n, "only frames with something missing are asked about");
  size_t k = 0;
  for (size_t i = 0; i < n; i++) {
    if (miss[i]) sym_assert(askedAddrs[k++] == 0x1000 + i, "asked in order by raw address");
    std::string s = std::to_string(i);
    sym_assert(v[i].raw_address == 0x1000 + i && !v[i].is_inline, "address kept");
    sym_assert(v[i].symbol == (miss[i] & 1 ? "newsym" + s : "sym" + s), "symbol");
    sym_assert(v[i].filename == (miss[i] & 2 ? "newfile" + s : "file" + s), "file");
    uint32_t l = miss[i] & 2 ? 50 + i : 5 + i;
    sym_assert(v[i].line.value() == l && v[i].column.value() == l + 7, "line and column belong to the file");
  }
  if (blanks) sym_cover("asked"); else sym_cover("nothing blank");
}
#else
extern "C" void h_nothing() {
  size_t n = sym_pick(0, NF, "frames");
  auto in = input(n);
  uint64_t r = sym_range(1, ~0ull, "raw"), o = sym_u64("object");
  if (n) { in[0].raw_address = r; in[0].object_address = o; }
  auto t = detail::resolve_frames(in);
  sym_assert(t.size() == n, "one frame per input");
  for (size_t i = 0; i < n; i++) sym_assert(t[i].raw_address == in[i].raw_address && t[i].object_address == in[i].object_address && t[i].filename == in[i].object_path && t[i].symbol.empty() && !t[i].line.has_value() && !t[i].column.has_value() && !t[i].is_inline, "the frame keeps what is known");
  std::vector<frame_ptr> raw;
  for (auto& f : in) raw.push_back(f.raw_address);
  t = detail::resolve_frames(raw);
  sym_assert(t.size() == n, "one frame per address");
  for (size_t i = 0; i < n; i++) sym_assert(t[i].raw_address == raw[i] && t[i].symbol.empty() && t[i].filename.empty() && !t[i].line.has_value(), "the frame keeps its address");
  sym_cover("kept");
}
#endif
