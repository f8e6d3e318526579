// Models of the C and C++ runtime used inside the symbolic engine. Compiled with -fno-builtin.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <new>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <string>
#include <list>
#include <map>
#include <unordered_map>
#include <memory>
#include <typeinfo>
#include <cxxabi.h>
#include <iosfwd>
#include <cerrno>
#include <future>
#include "sym.h"

extern "C" {
void* __sym_new(size_t); void* __sym_new_array(size_t); void* __sym_malloc(size_t);
void __sym_delete(void*); void __sym_delete_array(void*);
void free(void*); void* malloc(size_t);

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char* a, const char* b, size_t n) {
  for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
const void* __memchr(const void* p, int c, size_t n) {
  const unsigned char* q = (const unsigned char*)p;
  for (; n; n--, q++) if (*q == (unsigned char)c) return q;
  return nullptr;
}
char* __strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* __strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* __strstr(const char* h, const char* n) {
  for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); if (p) for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
char* strerror(int) { return (char*)"error"; }
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int vp_errno;
int* __errno_location() { return &vp_errno; }
unsigned long long strtoull(const char* s, char** end, int base) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, ovf = false;
  for (;; p++) {
    int d;
    if (*p >= '0' && *p <= '9') d = *p - '0';
    else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
    else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
    else break;
    if (d >= base) break;
    any = true;
    if (v > (~0ULL - d) / base) ovf = true;
    v = v * base + d;
  }
  if (end) *end = (char*)(any ? p : s);
  if (ovf) { vp_errno = ERANGE; return ~0ULL; }
  return neg ? -v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long strtol(const char* s, char** e, int b) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = *p == '-';
  unsigned long long v = strtoull(s, e, b);
  if (neg) { unsigned long long m = -v; if (m > (1ULL << 63)) { vp_errno = ERANGE; return (long)(1ULL << 63); } return (long)v; }
  if (v > 0x7fffffffffffffffULL) { vp_errno = ERANGE; return 0x7fffffffffffffffL; }
  return (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
void* calloc(size_t n, size_t m) { void* p = malloc(n * m); if (p) for (size_t i = 0; i < n * m; i++) ((char*)p)[i] = 0; return p; }
char __libc_single_threaded = 0;
}
void* vp_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* vp_memchr(const void* p, int c, size_t n) { return (void*)__memchr(p, c, n); }
char* vp_strchr(const char* s, int c) __asm__("strchr");
char* vp_strchr(const char* s, int c) { return __strchr(s, c); }
char* vp_strrchr(const char* s, int c) __asm__("strrchr");
char* vp_strrchr(const char* s, int c) { return __strrchr(s, c); }
char* vp_strstr(const char* a, const char* b) __asm__("strstr");
char* vp_strstr(const char* a, const char* b) { return __strstr(a, b); }

void* operator new(size_t n) { void* p = __sym_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = __sym_new_array(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __sym_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __sym_new_array(n); }
void operator delete(void* p) noexcept { __sym_delete(p); }
void operator delete[](void* p) noexcept { __sym_delete_array(p); }
void operator delete(void* p, size_t) noexcept { __sym_delete(p); }
void operator delete[](void* p, size_t) noexcept { __sym_delete_array(p); }
const std::nothrow_t std::nothrow{};

// ---------------------------------------------------------------- standard exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
nested_exception::~nested_exception() noexcept {}

// reference counted message: [count][text]
static const char* mkmsg(const char* s) {
  size_t n = strlen(s);
  char* p = (char*)__sym_malloc(n + 1 + 16);
  if (!p) throw bad_alloc();
  *(long*)p = 1;
  for (size_t i = 0; i <= n; i++) p[16 + i] = s[i];
  return p + 16;
}
static const char* mkmsg(const string& s) {
  size_t n = s.size();
  char* p = (char*)__sym_malloc(n + 1 + 16);
  if (!p) throw bad_alloc();
  *(long*)p = 1;
  for (size_t i = 0; i < n; i++) p[16 + i] = s[i];
  p[16 + n] = 0;
  return p + 16;
}
static void unref(const char* m) { char* p = (char*)m - 16; if (--*(long*)p == 0) free(p); }
static const char* addref(const char* m) { ++*(long*)(m - 16); return m; }
__cow_string::__cow_string() { _M_p = mkmsg(""); }
__cow_string::__cow_string(const std::string& s) { _M_p = mkmsg(s); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = mkmsg(std::string(s, n)); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = addref(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* n = addref(o._M_p); unref(_M_p); _M_p = n; return *this; }
__cow_string::~__cow_string() { unref(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = addref(o._M_p); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* n = addref(o._M_p); unref(_M_p); _M_p = n; return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
LE(length_error, logic_error) LE(out_of_range, logic_error) LE(invalid_argument, logic_error) LE(domain_error, logic_error)
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_exception() { throw bad_exception(); }
type_info::~type_info() {}
// error categories: message() is "error <n>"
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("", 0); }
namespace {
struct VpCategory final : error_category {
  const char* n;
  constexpr VpCategory(const char* n) : n(n) {}
  const char* name() const noexcept override { return n; }
  std::string message(int i) const override {
    std::string r = "error "; bool neg = i < 0; unsigned v = neg ? 0u - (unsigned)i : (unsigned)i; std::string d;
    do { d.insert(d.begin(), (char)('0' + v % 10)); v /= 10; } while (v);
    return r + (neg ? "-" : "") + d;
  }
};
VpCategory vpGeneric{"generic"}, vpSystem{"system"};
}
const error_category& generic_category() noexcept { return vpGeneric; }
const error_category& system_category() noexcept { return vpSystem; }
}

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* const t = this->_M_prev;
    this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_reverse() noexcept { __builtin_trap(); }
// bucket policy: small prime-like sizes, load factor 1
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t t[] = {2, 5, 11, 23, 47, 97, 197, 397, 797, 1597, 3203, 6421};
  for (size_t p : t) if (p >= n) { const_cast<size_t&>(_M_next_resize) = p; return p; }
  return n * 2 + 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > bkt || bkt == 1) { size_t want = elt + ins > 11 ? elt + ins : 11; if (bkt * 2 > want) want = bkt * 2; return {true, _M_next_bkt(want + 1)}; }
  return {false, 0};
}
}
// constant hash: every hash function is a legal one; equality then decides everything
size_t _Hash_bytes(const void*, size_t, size_t) { return 7; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 7; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced insertion is observationally equivalent for the bounded sizes explored
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& leftm = h._M_left; _Rb_tree_node_base*& rightm = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftm == z) { if (z->_M_right == 0) leftm = z->_M_parent; else { leftm = x; while (leftm->_M_left) leftm = leftm->_M_left; } }
    if (rightm == z) { if (z->_M_left == 0) rightm = z->_M_parent; else { rightm = x; while (rightm->_M_right) rightm = rightm->_M_right; } }
  }
  (void)xp;
  return y;
}
}
// defining the key function makes the compiler emit the type information of the fundamental types
extern "C" bool __sym_type_match(const void* thrown, const void* want, void** obj);
namespace __cxxabiv1 {
__fundamental_type_info::~__fundamental_type_info() {}
__class_type_info::~__class_type_info() {}
bool __class_type_info::__do_catch(const type_info* t, void** o, unsigned) const { return __sym_type_match(t, this, o); }
bool __class_type_info::__do_upcast(const __class_type_info*, void**) const { __builtin_trap(); }
bool __class_type_info::__do_upcast(const __class_type_info*, const void*, __upcast_result&) const { __builtin_trap(); }
__class_type_info::__sub_kind __class_type_info::__do_find_public_src(ptrdiff_t, const void*, const __class_type_info*, const void*) const { __builtin_trap(); }
bool __class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info*, const void*, const __class_type_info*, const void*, __dyncast_result&) const { __builtin_trap(); }
__si_class_type_info::~__si_class_type_info() {}
bool __si_class_type_info::__do_upcast(const __class_type_info*, const void*, __upcast_result&) const { __builtin_trap(); }
__class_type_info::__sub_kind __si_class_type_info::__do_find_public_src(ptrdiff_t, const void*, const __class_type_info*, const void*) const { __builtin_trap(); }
bool __si_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info*, const void*, const __class_type_info*, const void*, __dyncast_result&) const { __builtin_trap(); }
__vmi_class_type_info::~__vmi_class_type_info() {}
bool __vmi_class_type_info::__do_upcast(const __class_type_info*, const void*, __upcast_result&) const { __builtin_trap(); }
__class_type_info::__sub_kind __vmi_class_type_info::__do_find_public_src(ptrdiff_t, const void*, const __class_type_info*, const void*) const { __builtin_trap(); }
bool __vmi_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info*, const void*, const __class_type_info*, const void*, __dyncast_result&) const { __builtin_trap(); }
}
namespace std {
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info* t, void** o, unsigned) const { return __sym_type_match(t, this, o); }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
}
extern "C" void __cxa_pure_virtual() { __builtin_trap(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_exception(); }
extern "C" void __assert_fail(const char* e, const char*, unsigned, const char*) { sym_fail(e); }
template class std::basic_string<char>;

#include "announce.inc"
