//@bounds any address; the linker finds nothing, an object with a path of length 0..LEN of symbolic characters, of lengths just below, at and above the limit, or the main program (empty or null name), whose own path is readable with any of the same lengths or not; the frame's previous contents arbitrary
//@bound LEN 4 8
//@assume _dl_find_object and readlink are replaced by functions giving such answers
//@entry {"name":"h_short","jobs":4,"covers":["object","program","none","unreadable"]}
//@entry {"name":"h_long","jobs":8,"covers":["long object","long program"]}
//@entry {"name":"h_corrupt","jobs":1,"covers":["empty"]}
//@group {"defs":{"CPPTRACE_HAS_DL_FIND_OBJECT":false,"VP_NONE":true}}
//@entry {"name":"h_unavailable","jobs":1,"covers":["unavailable"]}
#include "common.h"
#include "binary/safe_dl.hpp"
#include "binary/object.hpp"
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <cerrno>
using namespace cpptrace;
namespace {
int answer; link_map lm; uint64_t loadAt; char name[5000], self[5000]; bool selfFails; size_t selfLen;
struct Guarded { unsigned char before[16]; safe_object_frame f; unsigned char after[16]; } g;
}
extern "C" int vp_env__dl_find_object(void*, dl_find_object* r) {
  if (answer == 0) return -1;
  lm.l_addr = loadAt; lm.l_name = answer == 1 ? name : answer == 2 ? (char*)"" : nullptr;
  r->dlfo_link_map = &lm;
  return 0;
}
extern "C" ssize_t vp_env_readlink(const char* p, char* b, size_t cap) {
  sym_assert(!strcmp(p, "/proc/self/exe"), "the program's own path is asked for");
  if (selfFails) { errno = EACCES; return -1; }
  size_t k = selfLen < cap ? selfLen : cap;     // truncates and does not terminate, as readlink does
  memcpy(b, self, k);
  return k;
}
namespace {
void fill(char* p, size_t len, size_t symbolic) {
  for (size_t i = 0; i < len; i++) p[i] = 'a' + i % 23;
  for (size_t i = 0; i < symbolic && i < len; i++) { uint8_t c = sym_u8("character"); sym_assume(c != 0); p[i] = c; }
  p[len] = 0;
}
void run(size_t maxLen) {
  uint64_t a = sym_u64("address"); loadAt = sym_u64("load address");
  memset(&g, 0x5a, sizeof g);
  size_t pos = sym_pick(0, 2, "old contents");
  g.f.object_path[pos == 0 ? 0 : pos == 1 ? 3 : CPPTRACE_PATH_MAX] = 0;
  get_safe_object_frame(a, &g.f);
  for (int i = 0; i < 16; i++) sym_assert(g.before[i] == 0x5a && g.after[i] == 0x5a, "nothing outside the frame is written");
  sym_assert(g.f.raw_address == a, "the address is recorded");
  size_t l = 0;
  while (l <= CPPTRACE_PATH_MAX && g.f.object_path[l]) l++;
  sym_assert(l <= CPPTRACE_PATH_MAX, "the path is terminated");
  object_frame o = g.f.resolve();
  object_frame w = detail::get_frames_object_info({a})[0];
  sym_assert(o.raw_address == a, "the address is kept");
  if (answer == 0) { sym_assert(l == 0 && o.object_path.empty() && o.object_address == 0, "no object"); return; }
  if (w.object_path.empty()) { sym_assert(o.object_path.empty(), "an unknown path stays unknown"); return; }
  sym_assert(o.object_address == w.object_address && o.object_address == a - loadAt, "same object-relative address as ordinary resolution");
  // a path that does not fit is cut
  sym_assert(o.object_path == w.object_path.substr(0, CPPTRACE_PATH_MAX), "same object path as ordinary resolution");
}
}
#ifndef VP_NONE
extern "C" void h_short() {
  answer = sym_pick(0, 3, "linker's answer");
  fill(name, answer == 1 ? sym_pick(1, LEN, "length") : 1, LEN);
  selfFails = sym_pick(0, 1, "self fails");
  if (answer >= 2) { selfLen = sym_pick(1, LEN, "self length"); fill(self, selfLen, LEN); }
  sym_cover(answer == 0 ? "none" : answer == 1 ? "object" : selfFails ? "unreadable" : "program");
  run(LEN);
}
extern "C" void h_long() {
  answer = sym_pick(1, 2, "linker's answer");
  static const size_t lens[5] = {CPPTRACE_PATH_MAX - 1, CPPTRACE_PATH_MAX, CPPTRACE_PATH_MAX + 1, CPPTRACE_PATH_MAX + 2, 4900};
  size_t l = lens[sym_pick(0, 4, "length")];
  if (answer == 1) fill(name, l, 1); else { selfLen = l; fill(self, l, 1); }
  sym_cover(answer == 1 ? "long object" : "long program");
  run(l);
}
extern "C" void h_corrupt() {
  // a frame that names no object, whatever address it carries
  memset(&g, 0x5a, sizeof g);
  g.f.raw_address = sym_u64("raw"); g.f.address_relative_to_object_start = sym_u64("relative"); g.f.object_path[0] = 0;
  object_frame o = g.f.resolve();
  sym_assert(o.raw_address == g.f.raw_address && o.object_address == 0 && o.object_path.empty(), "no object");
  sym_assert(can_get_safe_object_frame(), "available");
  sym_cover("empty");
}
#else
extern "C" void h_unavailable() {
  uint64_t a = sym_u64("address");
  memset(&g, 0x5a, sizeof g);
  get_safe_object_frame(a, &g.f);
  sym_assert(!can_get_safe_object_frame() && g.f.raw_address == a && g.f.address_relative_to_object_start == 0 && g.f.object_path[0] == 0, "reports that no object is known");
  object_frame o = g.f.resolve();
  sym_assert(o.raw_address == a && o.object_address == 0 && o.object_path.empty(), "no object");
  sym_cover("unavailable");
}
#endif
