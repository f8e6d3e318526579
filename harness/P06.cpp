//@bounds well-formed images of either class and byte order, in memory or in a file, with up to PH program headers and up to SYMS symbols over the two symbol tables, in any order, of any values and sizes; any address; any number of zero-size symbols among them; any section addresses and sizes
//@bound PH 2 3
//@bound SYMS 3 4
//@assume ranges of different symbols do not overlap unless they are equal, and stay within the address space of the class
//@entry {"name":"h_base","jobs":2,"covers":["has PT_PHDR","no PT_PHDR","wide entries"]}
//@entry {"name":"h_lookup","jobs":8,"covers":["symbol","no symbol","dynamic symbol","alias"]}
//@entry {"name":"h_entries","jobs":2,"covers":["both tables","no tables","empty table"]}
//@entry {"name":"h_ranges","jobs":2,"covers":["text","no text","two"]}
#include "elfimg.h"
using namespace cpptrace;
using detail::elf;
namespace {
Image img;
void shape() { uint64_t s = sym_pick(0, 3, "class and order"); img.is64 = s & 1; img.big = s & 2; }
void alloc(size_t n) { img.d = (unsigned char*)malloc(n); img.n = n; memset(img.d, 0, n); }
template<typename F> void with(F f, int file = -1) {
  if (file < 0 ? sym_pick(0, 1, "file") : file) {
    theFile = &img;
    auto r = elf::open(detail::cstring_view("/x"));
    sym_assert(!r.is_error(), "a well-formed file opens");
    if (!r.is_error()) f(r.unwrap_value());
  } else {
    auto r = elf::open(detail::make_span((const char*)img.d, img.n));
    sym_assert(!r.is_error(), "a well-formed image opens");
    if (!r.is_error()) f(r.unwrap_value());
  }
  sym_assert(filesOpen == 0, "the file is closed");
}
uint64_t word(const char* n) { return img.is64 ? sym_u64(n) : sym_u32(n); }
// a range [low, end)
uint64_t size(uint64_t low, const char* n) { if (img.is64) { uint64_t e = sym_u64(n); sym_assume(e >= low); return e - low; } uint32_t e = sym_u32(n); sym_assume(e >= (uint32_t)low); return e - (uint32_t)low; }
void quiet() { set_log_callback([](log_level, const char*) {}); }
const char strs[] = "\0.text\0ab\0c\0de\0.data\0.text.x\0";
enum { N_TEXT = 1, N_AB = 7, N_B = 8, N_C = 10, N_DE = 12, N_DATA = 15, N_TEXTX = 21, STRS = 29 };
const unsigned nameOff[4] = {N_AB, N_B, N_C, N_DE};
const char* const nameStr[4] = {"ab", "b", "c", "de"};
}
extern "C" void h_base() {
  quiet(); shape();
  unsigned n = sym_pick(0, PH, "program headers"), extra = sym_pick(0, 1, "wide") * 8, ent = img.phsize() + extra;
  size_t phoff = img.ehsize() + sym_pick(0, 1, "gap") * 8;
  alloc(phoff + n * ent);
  img.header(phoff, n, 0, 0, 0);
  img.put(img.is64 ? 54 : 42, 2, ent);
  if (extra) sym_cover("wide entries");
  uint64_t want = 0;
  unsigned at = sym_pick(0, n, "position of PT_PHDR");
  for (unsigned i = 0; i < n; i++) {
    uint64_t off = word("p_offset"), va = word("p_vaddr");
    uint32_t type = sym_u32("p_type");
    if (i == at) { type = PT_PHDR; sym_assume(va >= off); want = va - off; } else sym_assume(type != PT_PHDR);
    img.ph(phoff + i * ent, type, off, va);
  }
  if (at < n) sym_cover("has PT_PHDR"); else sym_cover("no PT_PHDR");
  with([&](elf& e) {
    for (int k = 0; k < 2; k++) {
      auto b = e.get_module_image_base();
      sym_assert(!b.is_error(), "a well-formed image has a base");
      if (!b.is_error()) sym_assert(b.unwrap_value() == want, "the image base");
    }
  });
}
namespace {
struct Sym { uint64_t v, s; unsigned name; bool dyn; };
Sym syms[SYMS]; unsigned nsyms;
// sections: 0 null, 1 strings, 2 symtab, 3 dynsym (the tables may come in either order, and be absent)
unsigned nstat, ndyn; bool hasStat, hasDyn;
void tables() {
  size_t shoff = img.ehsize();
  unsigned sections = 2 + hasStat + hasDyn;
  size_t str = shoff + sections * img.shsize(), st = str + STRS, dy = st + nstat * img.symsize();
  alloc(dy + ndyn * img.symsize());
  img.header(0, 0, shoff, sections, 1);
  img.sh(shoff, 0, SHT_NULL, 0, 0, 0, 0, 0);
  memcpy(img.d + str, strs, STRS);
  img.sh(shoff + img.shsize(), 0, SHT_STRTAB, 0, str, STRS, 0, 0);
  unsigned k = 2;
  bool dynFirst = hasStat && hasDyn && sym_pick(0, 1, "dynsym first");
  if (hasStat) img.sh(shoff + (k + dynFirst) * img.shsize(), 0, SHT_SYMTAB, 0, st, nstat * img.symsize(), 1, img.symsize());
  if (hasDyn) img.sh(shoff + (k + (hasStat && !dynFirst)) * img.shsize(), 0, SHT_DYNSYM, 0, dy, ndyn * img.symsize(), 1, img.symsize());
  for (unsigned i = 0, a = 0, b = 0; i < nsyms; i++) {
    size_t o = syms[i].dyn ? dy + b++ * img.symsize() : st + a++ * img.symsize();
    img.sym(o, nameOff[syms[i].name], STT_FUNC, 1, syms[i].v, syms[i].s);
  }
}
bool in(uint64_t pc, const Sym& s) { return pc >= s.v && pc - s.v < s.s; }
}
extern "C" void h_lookup() {
  quiet(); shape();
  nsyms = SYMS;
  ndyn = sym_pick(0, nsyms, "dynamic symbols"); nstat = nsyms - ndyn;
  hasStat = nstat > 0; hasDyn = ndyn > 0;
  // the symbols take increasing ranges in an order of their own; one may repeat the range before it, or be of no size
  unsigned used = 0, odd = ndyn > 1 ? 0 : sym_pick(0, 2, "odd symbol");
  uint64_t low = 0; const Sym* before = nullptr;
  for (unsigned k = 0; k < nsyms; k++) {
    unsigned i = sym_pick(0, nsyms - 1 - k, "next in order");
    for (unsigned j = 0; j <= i; j++) if (used & (1u << j)) i++;
    used |= 1u << i;
    Sym& s = syms[i];
    if (k == 1 && odd == 1) { s = {before->v, before->s, i, i >= nstat}; continue; }
    if (k == 1 && odd == 2) { s = {word("st_value"), 0, i, i >= nstat}; continue; }
    uint64_t v = word("st_value");
    s = {v, size(v, "end of the symbol"), i, i >= nstat};
    sym_assume(s.v >= low);
    low = s.v + s.s; before = &s;
  }
  tables();
  uint64_t pc = word("pc");
  with([&](elf& e) {
    auto r = e.lookup_symbol(pc);
    bool any = false, ok = false;
    for (unsigned i = 0; i < nsyms; i++) any |= in(pc, syms[i]);
    if (!any) { sym_cover("no symbol"); sym_assert(!r.has_value(), "no symbol where there is none"); return; }
    sym_cover("symbol");
    sym_assert(r.has_value(), "a symbol where there is one");
    if (!r.has_value()) return;
    unsigned k = 0; while (k < 4 && r.unwrap() != nameStr[k]) k++;
    sym_assert(k < nsyms, "a name of a symbol");
    if (k >= nsyms) return;
    ok = in(pc, syms[k]);
    sym_assert(ok, "the symbol contains the address");
    if (syms[k].dyn) sym_cover("dynamic symbol");
    for (unsigned i = 0; i < nsyms; i++) if (i != k && in(pc, syms[i])) { sym_cover("alias"); break; }
    auto again = e.lookup_symbol(pc);
    sym_assert(again.has_value() && again.unwrap() == r.unwrap(), "the same answer again");
  }, ndyn & 1);
}
namespace {
void check(const detail::optional<std::vector<elf::symbol_entry>>& got, bool present, bool dyn) {
  sym_assert(got.has_value() == present, "a table is reported when there is one");
  if (!got.has_value() || !present) return;
  // symbols without a size are left out; order by value
  unsigned want = 0;
  for (unsigned i = 0; i < nsyms; i++) if (syms[i].dyn == dyn && syms[i].s) want++;
  auto& v = got.unwrap();
  sym_assert(v.size() == want, "each sized symbol is reported");
  for (unsigned i = 0; i < nsyms; i++) if (syms[i].dyn == dyn && syms[i].s) {
    unsigned n = 0;
    for (auto& x : v) if (x.st_name == nameStr[syms[i].name]) { n++; sym_assert(x.st_value == syms[i].v, "its value"); sym_assert(x.st_size == syms[i].s, "its size"); sym_assert(x.st_shndx == 1, "its section"); }
    sym_assert(n == 1, "once");
  }
}
}
extern "C" void h_entries() {
  quiet(); shape();
  hasStat = sym_pick(0, 1, "symbol table"); hasDyn = sym_pick(0, 1, "dynamic symbol table");
  nstat = hasStat ? sym_pick(0, 2, "symbols") : 0; ndyn = hasDyn ? sym_pick(0, 1, "dynamic symbols") : 0;
  nsyms = nstat + ndyn;
  for (unsigned i = 0; i < nsyms; i++) syms[i] = {word("st_value"), word("st_size"), i, i >= nstat};
  if (hasStat && hasDyn) sym_cover("both tables");
  if (!hasStat && !hasDyn) sym_cover("no tables");
  if (hasStat && !nstat) sym_cover("empty table");
  tables();
  with([&](elf& e) {
    auto a = e.get_symtab_entries(); auto b = e.get_dynamic_symtab_entries();
    sym_assert(!a.is_error() && !b.is_error(), "the tables of a well-formed image can be read");
    if (a.is_error() || b.is_error()) return;
    check(a.unwrap_value(), hasStat, false); check(b.unwrap_value(), hasDyn, true);
  });
}
extern "C" void h_ranges() {
  quiet(); shape();
  const unsigned names[4] = {0, N_TEXT, N_DATA, N_TEXTX};
  size_t shoff = img.ehsize(), str = shoff + 4 * img.shsize();
  alloc(str + STRS);
  unsigned strndx = sym_pick(0, 3, "string section");
  img.header(0, 0, shoff, 4, strndx);
  memcpy(img.d + str, strs, STRS);
  elf::pc_range want[3]; unsigned n = 0;
  for (unsigned i = 0; i < 4; i++) {
    if (i == strndx) { img.sh(shoff + i * img.shsize(), 0, SHT_STRTAB, 0, str, STRS, 0, 0); continue; }
    unsigned k = sym_pick(0, 3, "section name");
    uint64_t a = word("sh_addr"), s = size(a, "end of the section");
    img.sh(shoff + i * img.shsize(), names[k], SHT_PROGBITS, a, word("sh_offset"), s, 0, 0);
    if (k == 1) want[n++] = {(frame_ptr)a, (frame_ptr)(a + s)} ;
  }
  sym_cover(n == 0 ? "no text" : n == 1 ? "text" : "two");
  with([&](elf& e) {
    auto r = e.get_pc_ranges();
    sym_assert(!r.is_error(), "the ranges of a well-formed image can be read");
    if (r.is_error()) return;
    auto& v = r.unwrap_value();
    sym_assert(v.size() == n, "one range per text section");
    for (unsigned i = 0; i < n && i < v.size(); i++) { sym_assert(v[i].low == want[i].low, "low"); sym_assert(v[i].high == want[i].high, "high"); }
  });
}
