// builds small ELF images of either class and byte order, and models the C stdio calls that read them
#pragma once
#include "common.h"
#include "binary/elf.hpp"
#include "utils/utils.hpp"
#include <elf.h>
#include <cstdio>
#include <cerrno>
namespace {
struct Field { uint16_t off; uint8_t n; };
struct Image {
  unsigned char* d = nullptr; size_t n = 0; bool is64 = true, big = false;
  Field fields[160]; size_t nf = 0;
  void put(size_t off, unsigned k, uint64_t v) { for (unsigned i = 0; i < k; i++) d[off + (big ? k - 1 - i : i)] = (unsigned char)(v >> (8 * i)); }
  // a field that a harness may replace
  void field(size_t& off, unsigned k, uint64_t v) { put(off, k, v); if (nf < 160) fields[nf++] = {(uint16_t)off, (uint8_t)k}; off += k; }
  unsigned word() const { return is64 ? 8 : 4; }
  unsigned ehsize() const { return is64 ? 64 : 52; }
  unsigned phsize() const { return is64 ? 56 : 32; }
  unsigned shsize() const { return is64 ? 64 : 40; }
  unsigned symsize() const { return is64 ? 24 : 16; }
  void header(uint64_t phoff, unsigned phnum, uint64_t shoff, unsigned shnum, unsigned shstrndx) {
    const unsigned char id[8] = {0x7f, 'E', 'L', 'F', (unsigned char)(is64 ? 2 : 1), (unsigned char)(big ? 2 : 1), 1, 0};
    memcpy(d, id, 8); memset(d + 8, 0, 8);
    size_t o = 16;
    put(o, 2, ET_DYN); o += 2; put(o, 2, EM_X86_64); o += 2; put(o, 4, 1); o += 4; put(o, word(), 0); o += word();
    field(o, word(), phoff); field(o, word(), shoff); put(o, 4, 0); o += 4; field(o, 2, ehsize()); field(o, 2, phsize()); field(o, 2, phnum); field(o, 2, shsize()); field(o, 2, shnum); field(o, 2, shstrndx);
  }
  void ph(size_t o, uint32_t type, uint64_t offset, uint64_t vaddr) {
    memset(d + o, 0, phsize());
    if (is64) { field(o, 4, type); put(o, 4, 5); o += 4; field(o, 8, offset); field(o, 8, vaddr); }
    else { field(o, 4, type); field(o, 4, offset); field(o, 4, vaddr); }
  }
  void sh(size_t o, uint32_t name, uint32_t type, uint64_t addr, uint64_t offset, uint64_t size, uint32_t link, uint64_t entsize) {
    memset(d + o, 0, shsize());
    unsigned w = word();
    field(o, 4, name); field(o, 4, type); put(o, w, 6); o += w; field(o, w, addr); field(o, w, offset); field(o, w, size); field(o, 4, link); put(o, 4, 0); o += 4; put(o, w, 8); o += w; field(o, w, entsize);
  }
  void sym(size_t o, uint32_t name, unsigned char info, uint16_t shndx, uint64_t value, uint64_t size) {
    if (is64) { field(o, 4, name); put(o, 1, info); o++; put(o, 1, 0); o++; field(o, 2, shndx); field(o, 8, value); field(o, 8, size); }
    else { field(o, 4, name); field(o, 4, value); field(o, 4, size); put(o, 1, info); o++; put(o, 1, 0); o++; field(o, 2, shndx); }
  }
};
Image* theFile;          // what fopen opens; null: fopen fails
struct FileState { long pos; bool open; } fileState;
int filesOpen, fileFaults;
bool fileFault(const char* w) { if (fileFaults <= 0) return false; if (sym_pick(0, 1, w)) { fileFaults--; return true; } return false; }
}
extern "C" FILE* vp_env_fopen(const char*, const char*) { if (!theFile || fileFault("fopen fails")) { errno = ENOENT; return nullptr; } filesOpen++; fileState.pos = 0; return (FILE*)&fileState; }
extern "C" int vp_env_fclose(FILE*) { filesOpen--; return 0; }
extern "C" int vp_env_fseek(FILE*, long o, int w) { if (o < 0 || fileFault("fseek fails")) { errno = EINVAL; return -1; } sym_assert(w == SEEK_SET, "seeks from the start"); fileState.pos = o; return 0; }
extern "C" size_t vp_env_fread(void* p, size_t sz, size_t cnt, FILE*) {
  sym_assert(cnt == 1, "one item per read");
  if (sz == 0) return 0;
  size_t pos = fileState.pos, have = theFile->n;
  if (pos >= have || fileFault("fread fails")) return 0;
  if (sz > have - pos) { memcpy(p, theFile->d + pos, have - pos); fileState.pos = have; return 0; }
  memcpy(p, theFile->d + pos, sz); fileState.pos += sz;
  return 1;
}
// numbers in error messages: their formatting is decided by P10
std::string vp_fixed_number(unsigned long, const void*) asm("vp_env__ZN8cpptrace2v18microfmt6detail9to_stringB5cxx11EmRKNS2_14format_optionsE");
std::string vp_fixed_number(unsigned long, const void*) { return "0"; }
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { *st = -2; return nullptr; }
