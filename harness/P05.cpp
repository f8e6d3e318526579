//@bounds images of either class and byte order, in memory or in a file, with two program headers, a string table, a symbol table of two symbols and a dynamic symbol table of one; any HAVOC neighbouring fields of the headers, section headers or symbols replaced by any values at once; any truncation; short images of any SHORT bytes; any header bytes; any address; up to FAULTS failing file operations
//@bound HAVOC 1 2
//@bound FAULTS 1 2
//@bound SHORT 9 12
//@assume entry counts are at most four when replaced by a symbolic value; allocations above one megabyte fail
//@entry {"name":"h_havoc","jobs":8,"covers":["symbol","no symbol","ranges","no ranges","base"]}
//@entry {"name":"h_faults","jobs":4,"covers":["symbol","no symbol","ranges","no ranges","refused","opened"]}
//@entry {"name":"h_truncated","jobs":4,"covers":["refused","opened"]}
//@entry {"name":"h_short","jobs":2,"covers":["refused","opened"]}
//@entry {"name":"h_header","jobs":8,"covers":["base","no base"]}
#include "elfimg.h"
using namespace cpptrace;
using detail::elf;
namespace {
Image img;
enum { STR = 16 };
size_t build(bool is64, bool big) {
  img.is64 = is64; img.big = big;
  size_t phoff = img.ehsize(), shoff = phoff + 2 * img.phsize(), strs = shoff + 4 * img.shsize(), syms = strs + STR, dyn = syms + 2 * img.symsize(), end = dyn + img.symsize();
  img.d = (unsigned char*)malloc(end); img.n = end;
  memset(img.d, 0, end);
  img.header(phoff, 2, shoff, 4, 1);
  img.ph(phoff, PT_LOAD, 0, 0x400000); img.ph(phoff + img.phsize(), PT_PHDR, phoff, 0x400000 + phoff);
  memcpy(img.d + strs, "\0.text\0f\0gg\0dyn\0", STR);
  img.sh(shoff, 1, SHT_PROGBITS, 0x1000, 0, 0x100, 0, 0);
  img.sh(shoff + img.shsize(), 0, SHT_STRTAB, 0, strs, STR, 0, 0);
  img.sh(shoff + 2 * img.shsize(), 0, SHT_SYMTAB, 0, syms, 2 * img.symsize(), 1, img.symsize());
  img.sh(shoff + 3 * img.shsize(), 0, SHT_DYNSYM, 0, dyn, img.symsize(), 1, img.symsize());
  img.sym(syms, 7, STT_FUNC, 1, 0x1000, 0x20); img.sym(syms + img.symsize(), 9, STT_FUNC, 1, 0x1020, 0x20);
  img.sym(dyn, 12, STT_FUNC, 1, 0x1080, 0x10);
  return end;
}
void query(elf& e, uint64_t pc) {
  auto b = e.get_module_image_base();
  if (!b.is_error()) sym_cover("base"); else { sym_cover("no base"); }
  for (int again = 0; again < 2; again++) {
    auto s = e.lookup_symbol(again ? 0x1085 : pc);
    if (s) { sym_cover("symbol"); sym_assert(s.unwrap().size() < 64, "a name from the string table"); } else sym_cover("no symbol");
    auto r = e.get_pc_ranges();
    if (!r.is_error()) sym_cover("ranges"); else sym_cover("no ranges");
    auto t = e.get_symtab_entries();
    auto d = e.get_dynamic_symtab_entries();
    if (!t.is_error() && t.unwrap_value()) for (auto& x : t.unwrap_value().unwrap()) sym_assert(x.st_name.size() < 64, "a name from the string table");
  }
}
void openAndQuery(bool file, uint64_t pc) {
  sym_alloc_limit(1 << 20);
  if (file) {
    theFile = &img;
    auto r = elf::open(detail::cstring_view("/x"));
    if (r.is_error()) { sym_cover("refused"); } else { sym_cover("opened"); query(r.unwrap_value(), pc); }
  } else {
    auto r = elf::open(detail::make_span((const char*)img.d, img.n));
    if (r.is_error()) { sym_cover("refused"); } else { sym_cover("opened"); query(r.unwrap_value(), pc); }
  }
}
void done() { sym_assert(filesOpen == 0, "the file is closed"); }
}
extern "C" void h_havoc() {
  set_log_callback([](log_level, const char*) {});
  uint64_t shape = sym_pick(0, 3, "class and order");
  build(shape & 1, shape & 2);
  bool file = sym_pick(0, 1, "file");
  size_t last = 0;
  for (int k = 0; k < HAVOC; k++) {
    size_t f = sym_pick(k ? last + 1 : 0, k && last + 3 < img.nf - 1 ? last + 3 : img.nf - 1, "field");
    last = f;
    uint64_t v = sym_u64("value");
    // the two entry counts
    if (f == 4 || f == 6) sym_assume((uint16_t)v <= 4);
    img.put(img.fields[f].off, img.fields[f].n, v);
    if (last == img.nf - 1) break;
  }
  openAndQuery(file, 0x1025);
  done();
}
// any address, and file operations that fail
extern "C" void h_faults() {
  set_log_callback([](log_level, const char*) {});
  uint64_t shape = sym_pick(0, 3, "class and order");
  build(shape & 1, shape & 2);
  fileFaults = sym_pick(0, FAULTS, "faults");
  openAndQuery(fileFaults || sym_pick(0, 1, "file"), sym_u64("pc"));
  done();
}
extern "C" void h_truncated() {
  set_log_callback([](log_level, const char*) {});
  uint64_t shape = sym_pick(0, 3, "class and order");
  size_t end = build(shape & 1, shape & 2);
  size_t cut = sym_concretize(sym_range(0, end, "length"));
  unsigned char* p = (unsigned char*)malloc(cut); memcpy(p, img.d, cut); img.d = p; img.n = cut;
  openAndQuery(sym_pick(0, 1, "file"), 0x1005);
  done();
}
extern "C" void h_short() {
  set_log_callback([](log_level, const char*) {});
  size_t n = sym_pick(0, SHORT, "length");
  img.d = (unsigned char*)malloc(n); img.n = n;
  if (n) sym_make(img.d, n, "bytes");
  openAndQuery(sym_pick(0, 1, "file"), 0x1005);
  done();
}
// a header of arbitrary bytes after the identification, and arbitrary bytes behind it
extern "C" void h_header() {
  set_log_callback([](log_level, const char*) {});
  uint64_t shape = sym_pick(0, 3, "class and order");
  img.is64 = shape & 1; img.big = shape & 2;
  size_t n = img.ehsize() + img.phsize();
  img.d = (unsigned char*)malloc(n); img.n = n;
  sym_make(img.d, n, "bytes");
  const unsigned char id[7] = {0x7f, 'E', 'L', 'F', (unsigned char)(img.is64 ? 2 : 1), (unsigned char)(img.big ? 2 : 1), 1};
  memcpy(img.d, id, 7);
  size_t pn = img.is64 ? 56 : 44, sn = img.is64 ? 60 : 48;
  sym_assume(img.d[pn + !img.big] == 0 && img.d[pn + img.big] <= 1);
  sym_assume(img.d[sn + !img.big] == 0 && img.d[sn + img.big] == 0);
  openAndQuery(sym_pick(0, 1, "file"), 0x1005);
  done();
}
