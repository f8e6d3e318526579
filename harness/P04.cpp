//@bounds 0..NF raw frames with symbolic addresses; per frame the linker finds nothing, an object with symbolic load address, the main program (empty or null name; its path readable or not) or, where the linker may omit it, an object without a name; objects whose image base is symbolic or unreadable; all three lookup variants
//@bound NF 3 4
//@assume _dl_find_object, dladdr1, dladdr, readlink and the reading of an object's image base are replaced by functions answering per address
//@entry {"name":"h_find","jobs":8,"covers":["object","none","program"]}
//@group {"defs":{"CPPTRACE_HAS_DL_FIND_OBJECT":false,"CPPTRACE_HAS_DLADDR1":true,"VP_DLADDR1":true}}
//@entry {"name":"h_dladdr1","jobs":8,"covers":["object","none","program","unreadable"]}
//@group {"defs":{"CPPTRACE_HAS_DL_FIND_OBJECT":false,"VP_DLADDR":true}}
//@entry {"name":"h_dladdr","jobs":8,"covers":["object","none","unreadable"]}
#include "common.h"
#include "binary/object.hpp"
#include "utils/error.hpp"
#include "utils/utils.hpp"
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <cerrno>
using namespace cpptrace;
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { *st = -2; return nullptr; }
namespace {
const char* objs[3] = {"/lib/a.so", "/lib/b.so", "/bin/self"};
enum { NONE, OBJ, PROG_EMPTY, PROG_NULL };
size_t n; uint64_t addr[4], kind[4], loadAt[4], ibase[3], baseFails; bool selfFails; link_map lm[4];
size_t which(uint64_t a) { for (size_t i = 0; i < n; i++) if (addr[i] == a) return i; sym_fail("asked about another address"); }
std::string pathOf(size_t i) {
  if (kind[i] == NONE) return "";
  if (kind[i] == OBJ) return objs[i & 1];
#ifdef VP_DLADDR
  return kind[i] == PROG_EMPTY ? "./self" : "";
#else
  return selfFails ? "" : objs[2];
#endif
}
}
extern "C" ssize_t vp_env_readlink(const char* p, char* b, size_t) { sym_assert(!strcmp(p, "/proc/self/exe"), "own path"); if (selfFails) { errno = EACCES; return -1; } memcpy(b, objs[2], 9); return 9; }
#ifdef VP_DLADDR
extern "C" int vp_env_dladdr(const void* a, Dl_info* i) {
  size_t k = which((uint64_t)a);
  memset(i, 0xee, sizeof *i);
  if (kind[k] == NONE) return 0;
  i->dli_fbase = (void*)loadAt[k];
  i->dli_fname = kind[k] == OBJ ? objs[k & 1] : kind[k] == PROG_EMPTY ? "./self" : nullptr;
  i->dli_sname = nullptr; i->dli_saddr = nullptr;
  return 1;
}
#elif defined(VP_DLADDR1)
extern "C" int vp_env_dladdr1(const void* a, Dl_info* i, void** extra, int flag) {
  size_t k = which((uint64_t)a);
  sym_assert(flag == RTLD_DL_LINKMAP, "asks for the link map");
  memset(i, 0xee, sizeof *i);
  if (kind[k] == NONE) return 0;
  i->dli_fbase = (void*)loadAt[k]; i->dli_fname = "argv0"; i->dli_sname = nullptr;
  lm[k].l_name = kind[k] == OBJ ? (char*)objs[k & 1] : kind[k] == PROG_EMPTY ? (char*)"" : nullptr;
  *extra = &lm[k];
  return 1;
}
#else
extern "C" int vp_env__dl_find_object(void* a, dl_find_object* r) {
  size_t k = which((uint64_t)a);
  if (kind[k] == NONE) return -1;
  lm[k].l_addr = loadAt[k]; lm[k].l_name = kind[k] == OBJ ? (char*)objs[k & 1] : kind[k] == PROG_EMPTY ? (char*)"" : nullptr;
  r->dlfo_link_map = &lm[k];
  return 0;
}
#endif
#if defined(VP_DLADDR) || defined(VP_DLADDR1)
detail::Result<std::uintptr_t, detail::internal_error> vp_base(const std::string&) VP_ENV("_ZN8cpptrace2v16detail21get_module_image_baseERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
detail::Result<std::uintptr_t, detail::internal_error> vp_base(const std::string& p) {
  for (int o = 0; o < 3; o++) if (p == objs[o] || (o == 2 && p == "./self")) { if (baseFails >> o & 1) return detail::internal_error("unreadable"); return ibase[o]; }
  sym_assert(p.empty(), "asked for the base of an unknown object");
  return detail::internal_error("no object");
}
#define USES_BASE 1
#else
#define USES_BASE 0
#endif
namespace {
void run() {
  bool absorb = sym_pick(0, 1, "absorb");
  absorb_trace_exceptions(absorb);
  set_log_callback([](log_level, const char*) {});
  n = sym_pick(0, NF, "frames");
  for (size_t i = 0; i < n; i++) { addr[i] = (sym_u64("address") << 2) | i; kind[i] = sym_pick(0, 3, "linker's answer"); loadAt[i] = sym_u64("load address"); }
  selfFails = sym_pick(0, 1, "self fails");
  for (int o = 0; o < 3; o++) ibase[o] = sym_u64("image base");
  baseFails = USES_BASE ? sym_pick(0, 7, "bases that fail") : 0;
  std::vector<object_frame> t;
  bool viaTrace = sym_pick(0, 1, "via raw trace");
  bool wantFail = false;
  for (size_t i = 0; i < n && USES_BASE; i++) if (kind[i] != NONE) {
    std::string p = pathOf(i);
    int o = kind[i] == OBJ ? i & 1 : 2;
    wantFail |= p.empty() || (baseFails >> o & 1);
  }
  bool threw = false;
  try {
    std::vector<frame_ptr> v(addr, addr + n);
    t = viaTrace ? raw_trace{v}.resolve_object_trace().frames : detail::get_frames_object_info(v);
  } catch (detail::internal_error&) { threw = true; }
  if (threw) { sym_assert(!absorb && wantFail, "failures escape only when asked for"); return; }
  sym_assert(t.size() == n, "one frame per input");
  for (size_t i = 0; i < n; i++) {
    sym_assert(t[i].raw_address == addr[i], "raw address unchanged, in order");
    sym_assert(t[i].object_path == pathOf(i), "path of the object containing it");
    if (kind[i] == NONE) { sym_assert(t[i].object_address == 0, "no object, no object address"); sym_cover("none"); continue; }
    int o = kind[i] == OBJ ? i & 1 : 2;
#if USES_BASE
    bool known = !pathOf(i).empty() && !(baseFails >> o & 1);
    sym_assert(t[i].object_address == (known ? addr[i] - loadAt[i] + ibase[o] : 0), "translated from where the object is loaded to its own address space");
    if (!known) { sym_cover("unreadable"); continue; }
#else
    sym_assert(t[i].object_address == addr[i] - loadAt[i], "translated from where the object is loaded to its own address space");
#endif
    if (kind[i] == OBJ) sym_cover("object");
    else sym_cover("program");
  }
}
}
#if defined(VP_DLADDR)
extern "C" void h_dladdr() { run(); }
#elif defined(VP_DLADDR1)
extern "C" void h_dladdr1() { run(); }
#else
extern "C" void h_find() { run(); }
#endif
