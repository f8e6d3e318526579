//@bound REGIONS 3 4
//@bounds memory maps of 0..REGIONS regions with every arrangement of adjacent, separated and empty regions around the page looked up (page granularity, the page below, inside, or above each), every permission combination, every well-formed permission character, a torn first read, unreadable and malformed maps; one later enlargement of the map; type objects at the start, in the middle and at the end of their page, page sizes -1..64K, failure of each system call
//@assume regions once mapped keep their range and protection; the kernel prints regions in address order except in a torn read
//@entry {"name":"h_protections","jobs":8,"covers":["mapped","unmapped","torn"]}
//@entry {"name":"h_bad_maps","jobs":2,"covers":["unreadable","malformed","torn twice"]}
//@entry {"name":"h_growth","jobs":4,"covers":["grown"]}
//@entry {"name":"h_surgery","jobs":4,"covers":["patched","failed"]}
#include "common.h"
#include <cpptrace/from_current.hpp>
#include "platform/memory_mapping.hpp"
#include <fstream>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cerrno>
using namespace cpptrace;
namespace {
// ---- environment
std::string* maps[3]; int opens; int mapsFail;   // text served by the first, second, later opens
long pageSize = 4096;
struct Call { uintptr_t addr; size_t n; int prot; };
Call calls[8]; int ncalls, failAt, mmapFails;
alignas(4096) unsigned char pages[4096];
}
extern "C" bool vp_fs_lookup(const char* p, vp_file* o) {
  if (strcmp(p, "/proc/self/maps")) return false;
  if (!maps[0]) return false;
  std::string* m = maps[opens < 2 ? opens : 2];
  opens++;
  o->data = m->data(); o->n = m->size();
  o->openFails = mapsFail == 1; o->readFails = mapsFail == 2;
  return true;
}
extern "C" int vp_env_mprotect(void* p, size_t n, int prot) {
  if (ncalls < 8) calls[ncalls] = {(uintptr_t)p, n, prot};
  ncalls++;
  if (failAt == ncalls) { errno = EACCES; return -1; }
#ifdef VP_SYM
  __sym_mprotect(p, n, prot);
#endif
  return 0;
}
extern "C" void* vp_env_mmap(void* at, size_t n, int prot, int flags, int fd, long off) {
  sym_assert(at == nullptr && n == (size_t)pageSize && prot == (PROT_READ | PROT_WRITE) && (flags & MAP_ANONYMOUS) && (flags & MAP_PRIVATE) && fd == -1 && off == 0, "a private anonymous writable page is requested");
  if (mmapFails) { errno = ENOMEM; return MAP_FAILED; }
#ifdef VP_SYM
  return malloc(n);
#else
  static void* p; return p ? p : p = aligned_alloc(4096, 65536);
#endif
}
extern "C" long vp_env_sysconf(int) { return pageSize; }
namespace {
struct Region { uintptr_t lo, hi; int perms; };
void hex(std::string& s, uintptr_t v) { static const char d[] = "0123456789abcdef"; std::string r; do { r.insert(r.begin(), d[v & 15]); v >>= 4; } while (v); while (r.size() < 8) r.insert(r.begin(), '0'); s += r; }
std::string print(const std::vector<Region>& rs) {
  std::string s;
  for (auto& r : rs) {
    hex(s, r.lo); s += '-'; hex(s, r.hi); s += ' ';
    s += r.perms & PROT_READ ? 'r' : '-'; s += r.perms & PROT_WRITE ? 'w' : '-'; s += r.perms & PROT_EXEC ? 'x' : '-';
    s += r.perms & 1 ? 's' : 'p'; s += " 00001000 08:01 1234                       /usr/lib/file with 7f00-8000 rwxp in its name\n";
  }
  return s;
}
// regions at page granularity over pages 0..; gap and length of each chosen
std::vector<Region> layout(uint64_t n, uintptr_t base, uintptr_t page) {
  std::vector<Region> r; uintptr_t at = base;
  for (uint64_t i = 0; i < n; i++) {
    at += 4096 * sym_pick(0, 1, "gap");
    uintptr_t hi = at + 4096 * sym_pick(1, 2, "pages");
    r.push_back({at, hi, (int)(page >= at && page < hi ? sym_pick(0, 7, "perms") : (i * 3 + 1) % 8)});
    at = hi;
  }
  return r;
}
const Region* find(const std::vector<Region>& r, uintptr_t p) { for (auto& x : r) if (x.lo <= p && p < x.hi) return &x; return nullptr; }
void reset() { opens = ncalls = failAt = mmapFails = mapsFail = 0; pageSize = 4096; }
// returns the protections reported, -1 if refused
int lookup(uintptr_t page) {
  try { return detail::mprotect_page_and_return_old_protections((void*)page, 4096, PROT_READ | PROT_WRITE); }
  catch (std::exception&) { return -1; }
}
}
extern "C" void h_protections() {
  reset();
  uintptr_t base = 0x555500000000;
  uintptr_t page = base + 4096 * sym_pick(0, 2 * REGIONS + 1, "page");
  auto rs = layout(sym_pick(0, REGIONS, "regions"), base + 4096, page);
  std::string good = print(rs), torn;
  maps[0] = maps[1] = maps[2] = &good;
  if (rs.size() >= 2 && sym_pick(0, 1, "torn")) {
    auto t = rs; t[1].lo = t[0].lo; torn = print(t); maps[0] = &torn; sym_cover("torn");
  }
  int got = lookup(page);
  const Region* r = find(rs, page);
  if (r) { sym_assert(got == r->perms, "reported protections differ from those of the mapping that contains the page"); sym_assert(ncalls == 1 && calls[0].addr == page && calls[0].n == 4096 && calls[0].prot == (PROT_READ | PROT_WRITE), "the page is made writable once"); sym_cover("mapped"); }
  else { sym_assert(got == -1, "protections reported for an unmapped page"); sym_assert(ncalls == 0, "an unmapped page was changed"); sym_cover("unmapped"); }
}
extern "C" void h_bad_maps() {
  reset();
  uintptr_t page = 0x10000;
  std::string s = "00010000-00012000 r-xp 0 0 0 x\n", bad;
  uint64_t k = sym_pick(0, 3, "kind");
  maps[0] = maps[1] = maps[2] = &s;
  switch (k) {
    case 0: mapsFail = 1; break;
    case 1: { bad = s; bad[sym_pick(0, 16, "at")] = "z \n-"[sym_pick(0, 3, "ch")]; maps[0] = maps[1] = maps[2] = &bad; break; }
    case 2: bad = s + "00011000-00013000 r--p 0 0 0 x\n"; maps[0] = maps[1] = maps[2] = &bad; break;
    default: bad = s.substr(0, sym_pick(0, s.size(), "cut")); maps[0] = maps[1] = maps[2] = &bad; break;
  }
  int got = lookup(page);
  sym_assert(got >= -1 && got <= 7, "nonsense protections");
  if (k == 0) { sym_assert(got == -1, "unreadable maps must be reported"); sym_cover("unreadable"); }
  if (k == 2) { sym_assert(got == -1, "maps that stay torn must be reported"); sym_cover("torn twice"); }
  if (k == 1) sym_cover("malformed");
}
// a mapping that appears after the first lookup (a library loaded later) is seen by later lookups
extern "C" void h_growth() {
  reset();
  uintptr_t base = 0x7f0000000000;
  std::vector<Region> before, after;
  for (uint64_t i = 0; i < 3; i++) {
    Region r{base + 0x4000 * (i + 1), base + 0x4000 * (i + 1) + 0x2000, (int)(i == 0 ? PROT_READ : i == 1 ? PROT_READ | PROT_WRITE : PROT_EXEC)};
    after.push_back(r);
    if (sym_pick(0, 1, "early")) before.push_back(r);
  }
  sym_assume(!before.empty() && before.size() < 3);
  std::string b = print(before), a = print(after);
  maps[0] = maps[1] = maps[2] = &b;
  uintptr_t first = before[0].lo;
  sym_assert(lookup(first) == before[0].perms, "first lookup");
  maps[0] = maps[1] = maps[2] = &a;
  uint64_t which = sym_pick(0, 2, "which");
  sym_assert(lookup(after[which].lo + 0x1000 * sym_pick(0, 1, "page")) == after[which].perms, "a mapping made after the first lookup is reported with other protections");
  sym_assert(lookup(base) == -1, "unmapped page");
  sym_cover("grown");
}
namespace { bool interceptor(const std::type_info*, const std::type_info*, void**, unsigned) { return false; }
const uintptr_t vtable[11] = {0, 11, 22, 33, 44, 55, 66, 77, 88, 99, 1010}; }
extern "C" void h_surgery() {
  reset();
  static const long sizes[] = {-1, 0, 64, 3000, 4096};
  pageSize = sizes[sym_pick(0, 4, "page_size")];
  static const unsigned offs[] = {0, 16, 2048, 4080, 4088, 4092};
  unsigned off = offs[sym_pick(0, 5, "offset")];
  int perms = (int)sym_pick(0, 7, "perms");
  struct TI { const uintptr_t* vptr; const char* name; };
  unsigned char before[4096];
  for (unsigned i = 0; i < 4096; i++) pages[i] = (unsigned char)i;
  uintptr_t ti = (uintptr_t)pages + off;
  const uintptr_t* vp = vtable + 2;
  bool crosses = off + sizeof(void*) > 4096;
  if (!crosses) memcpy((void*)ti, &vp, 8);
  sym_assume(!crosses);
  memcpy(before, pages, 4096);
  std::vector<Region> rs{{(uintptr_t)pages, (uintptr_t)pages + 4096, perms}};
  std::string m = print(rs);
  maps[0] = maps[1] = maps[2] = &m;
  failAt = (int)sym_pick(0, 3, "mprotect_fails"); mmapFails = (int)sym_pick(0, 1, "mmap_fails"); mapsFail = (int)sym_pick(0, 1, "maps_fail");
#ifdef VP_SYM
  __sym_mprotect(pages, 4096, perms);
#endif
  detail::do_prepare_unwind_interceptor(*(const std::type_info*)ti, interceptor);   // never throws
  bool ok = pageSize == 4096 && !failAt && !mmapFails && !mapsFail;
  const uintptr_t* now; memcpy(&now, (void*)ti, 8);
  bool patched = now != vp;
  for (unsigned i = 0; i < 4096; i++) if (i < off || i >= off + 8) sym_assert(pages[i] == before[i], "memory beside the type object's vtable pointer changed");
  if (patched) {
    const uintptr_t* nv = now - 2;
    for (int i = 0; i < 11; i++) sym_assert(nv[i] == (i == 6 ? (uintptr_t)interceptor : vtable[i]), "the copied vtable differs in more than the catch entry");
    int last = -1, page = 0;
    for (int i = 0; i < ncalls; i++) { if (calls[i].addr == (uintptr_t)pages) { last = calls[i].prot; page++; sym_assert(calls[i].n == 4096, "protection changed beyond the page"); } }
    sym_assert(page == 2 && (last == perms), "the page of the type object must get back the protections it had");
    bool ro = false;
    for (int i = 0; i < ncalls; i++) if (calls[i].addr == (uintptr_t)nv) ro = calls[i].prot == PROT_READ;
    sym_assert(ro, "the new vtable is left writable");
  } else {
    // not patched: nothing may stay changed
    int last = perms;
    for (int i = 0; i < ncalls; i++) if (calls[i].addr == (uintptr_t)pages && failAt != i + 1) last = calls[i].prot;
    sym_assert(last == perms, "the page was left with other protections although nothing was patched");
  }
  if (ok) sym_assert(patched, "not patched although nothing failed");
  if (pageSize <= 0 || (pageSize & (pageSize - 1))) sym_assert(!patched && ncalls == 0, "an impossible page size must be refused before anything is changed");
  sym_cover(patched ? "patched" : "failed");
}
