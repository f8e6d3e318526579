//@bounds 0..NF frames with symbolic addresses; per frame the linker finds nothing, or an object with symbolic load address with or without an object name and a symbol name; the object's image base is a symbolic value or cannot be read; traces from addresses and from object frames
//@bound NF 3 4
//@assume dladdr and the reading of an object's image base are replaced by functions answering per address
//@group {"defs":{"CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE":false,"CPPTRACE_GET_SYMBOLS_WITH_LIBDL":true}}
//@entry {"name":"h_dl","jobs":8,"covers":["found","not found","no base"]}
#include "common.h"
#include "symbols/symbols.hpp"
#include "binary/object.hpp"
#include "utils/common.hpp"
#include "utils/error.hpp"
#include "utils/utils.hpp"
#include <dlfcn.h>
using namespace cpptrace;
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { *st = -2; return nullptr; }
namespace {
const char* objs[2] = {"/lib/a.so", "/lib/b.so"};
const char* syms[4] = {"_Z1av", "plain", "_Z1cv", "x"};
uint64_t addr[4], kind[4], fbase[4], ibase[2], baseFails[2];
size_t n; int asked;
size_t which(uint64_t a) { for (size_t i = 0; i < n; i++) if (addr[i] == a) return i; sym_fail("asked about another address"); }
}
extern "C" int vp_env_dladdr(const void* a, Dl_info* i) {
  size_t k = which((uint64_t)a);
  asked++;
  memset(i, 0xee, sizeof *i);
  if (kind[k] == 0) return 0;
  i->dli_fname = kind[k] & 1 ? objs[k & 1] : nullptr;
  i->dli_sname = kind[k] & 2 ? syms[k] : nullptr;
  i->dli_fbase = (void*)fbase[k];
  return 1;
}
detail::Result<std::uintptr_t, detail::internal_error> vp_base(const std::string&) VP_ENV("_ZN8cpptrace2v16detail21get_module_image_baseERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
detail::Result<std::uintptr_t, detail::internal_error> vp_base(const std::string& p) {
  for (int o = 0; o < 2; o++) if (p == objs[o]) { if (baseFails[o]) return detail::internal_error("unreadable"); return ibase[o]; }
  sym_assert(p.empty(), "asked for the base of an unknown object");
  return detail::internal_error("no object");
}
extern "C" void h_dl() {
  set_log_callback([](log_level, const char*) {});
  absorb_trace_exceptions(sym_pick(0, 1, "absorb"));
  n = sym_pick(0, NF, "frames");
  for (size_t i = 0; i < n; i++) {
    addr[i] = (sym_u64("address") << 3) | i;      // distinct
    kind[i] = sym_pick(0, 4, "linker's answer");  // 4: an object without names
    if (kind[i]) fbase[i] = sym_u64("load address");
  }
  for (int o = 0; o < 2; o++) { baseFails[o] = sym_pick(0, 1, "base fails"); ibase[o] = sym_u64("image base"); }
  std::vector<stacktrace_frame> t;
  if (sym_pick(0, 1, "from objects")) {
    std::vector<object_frame> f;
    for (size_t i = 0; i < n; i++) f.push_back({addr[i], 77, "other"});
    t = detail::resolve_frames(f);
  } else {
    t = detail::resolve_frames(std::vector<frame_ptr>(addr, addr + n));
  }
  sym_assert(t.size() == n, "one frame per input");
  for (size_t i = 0; i < n; i++) {
    sym_assert(t[i].raw_address == addr[i] && !t[i].is_inline && !t[i].line.has_value() && !t[i].column.has_value(), "raw address kept, no location");
    sym_assert(t[i].filename == (kind[i] & 1 ? objs[i & 1] : ""), "the object's name");
    sym_assert(t[i].symbol == (kind[i] & 2 ? syms[i] : ""), "the linker's symbol");
    bool has = kind[i] && (kind[i] & 1) && !baseFails[i & 1];
    sym_assert(t[i].object_address == (has ? addr[i] - fbase[i] + ibase[i & 1] : 0), "the address inside the object, if it is known");
    sym_cover(kind[i] == 0 ? "not found" : has ? "found" : "no base");
  }
}
