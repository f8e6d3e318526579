//@bound H 4 5
//@bounds every history of up to H operations over two holders with operand choices symbolic: optional of an instrumented owning type, of a reference, of a trivial value; Result of an instrumented value or instrumented error; plus every history of up to 2 operations with one throwing copy or allocation failure
//@entry {"name":"h_optional","jobs":6,"covers":["value","empty"]}
//@entry {"name":"h_optional_ref","jobs":4,"covers":["value","empty"]}
//@entry {"name":"h_optional_int","jobs":4,"covers":["value","empty"]}
//@entry {"name":"h_result","jobs":6,"covers":["value","error"]}
//@entry {"name":"h_optional_fault","jobs":4,"covers":["failed","fine"]}
//@entry {"name":"h_misuse","jobs":1,"covers":["rejected"]}
#include "sym.h"
#include "utils/optional.hpp"
#include "utils/result.hpp"
#include <string>
using namespace cpptrace;
using namespace cpptrace::detail;
// Contents own a heap cell: a double destruction is a double free, a forgotten one a leak, use of a dead or never
// constructed object an invalid access.
struct T {
  int* p;
  explicit T(int v) : p(new int(v)) {}
  T(const T& o) : p(new int(o.get())) {}
  T(T&& o) : p(o.p ? new int(*o.p) : nullptr) { if (o.p) { *o.p = -1; } }
  T& operator=(const T& o) { int v = o.get(); *p = v; return *this; }
  T& operator=(T&& o) { int v = *o.p; *o.p = -1; *p = v; return *this; }
  ~T() { delete p; }
  int get() const { return *p; }
};
struct E {
  int* p; char w[2] = {'e', 0};
  explicit E(int v) : p(new int(v)) {}
  E(const E& o) : p(new int(*o.p)) {}
  E(E&& o) : p(new int(*o.p)) { *o.p = -1; }
  ~E() { delete p; }
  const char* what() const { (void)*(volatile int*)p; return w; }
};
static int val(const char* n) { int v = (int)sym_u32(n); sym_assume(v >= 0); return v; }
// ---- optional<T>; -1 = moved-from content, presence tracked separately
struct M { bool has = false; int v = 0; };
static void same(const optional<T>& o, const M& m) {
  sym_assert(o.has_value() == m.has && bool(o) == m.has, "presence differs from the reference");
  if (m.has) sym_assert(o.unwrap().get() == m.v, "content differs from the reference");
}
static void mv(M& d, M& s, M& src) { (void)s; d = src; if (src.has) src.v = -1; }
extern "C" void h_optional() {
  uint64_t base = sym_live_allocs();
  {
    optional<T> o[2]; M m[2];
    int a = val("a");
    if (sym_pick(0, 1, "init")) { o[1] = T(a); m[1] = {true, a}; }
    for (int s = 0; s < H; s++) {
      uint64_t i = sym_pick(0, 1, "object"), j = 1 - i;
      switch (sym_pick(0, 13, "op")) {
        case 0: { int v = val("v"); o[i] = T(v); m[i] = {true, v}; break; }
        case 1: { int v = val("v"); T t(v); o[i] = t; sym_assert(t.get() == v, "the source of a copy changed"); m[i] = {true, v}; break; }
        case 2: o[i] = nullopt; m[i].has = false; break;
        case 3: o[i].reset(); m[i].has = false; break;
        case 4: { const optional<T>& src = o[j]; o[i] = src; m[i] = m[j]; break; }
        case 5: o[i] = std::move(o[j]); mv(m[i], m[i], m[j]); break;
        case 6: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
        case 7: { const optional<T>& src = o[i]; o[i] = src; break; }
        case 8: { auto& src = o[i]; o[i] = std::move(src); break; }
        case 9: { optional<T> c(static_cast<const optional<T>&>(o[i])); same(c, m[i]); break; }
        case 10: { M old = m[i]; optional<T> c(std::move(o[i])); same(c, old); if (m[i].has) m[i].v = -1; break; }
        case 11: { int d = val("d"); T r = static_cast<const optional<T>&>(o[i]).value_or(T(d)); sym_assert(r.get() == (m[i].has ? m[i].v : d), "value_or"); break; }
        case 12: { int d = val("d"); T r = std::move(o[i]).value_or(T(d)); sym_assert(r.get() == (m[i].has ? m[i].v : d), "value_or of a temporary"); if (m[i].has) m[i].v = -1; break; }
        default: if (m[i].has) { T t = std::move(o[i]).unwrap(); sym_assert(t.get() == m[i].v, "unwrap of a temporary"); m[i].v = -1; } break;
      }
      same(o[0], m[0]); same(o[1], m[1]);
    }
    sym_cover(m[0].has ? "value" : "empty");
  }
  sym_assert(sym_live_allocs() == base, "a contained object was not destroyed exactly once");
}
extern "C" void h_optional_ref() {
  int cell[2] = {(int)sym_u32("c0"), (int)sym_u32("c1")};
  optional<int&> o[2]; int* m[2] = {nullptr, nullptr};
  for (int s = 0; s < H; s++) {
    uint64_t i = sym_pick(0, 1, "object"), j = 1 - i, c = sym_pick(0, 1, "cell");
    switch (sym_pick(0, 6, "op")) {
      case 0: o[i] = cell[c]; m[i] = &cell[c]; break;
      case 1: o[i] = nullopt; m[i] = nullptr; break;
      case 2: o[i] = static_cast<const optional<int&>&>(o[j]); m[i] = m[j]; break;
      case 3: o[i] = std::move(o[j]); m[i] = m[j]; break;
      case 4: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
      case 5: { optional<int&> k(o[i]); sym_assert(k.has_value() == (m[i] != nullptr), "copy"); if (m[i]) { int v = (int)sym_u32("w"); k.unwrap() = v; sym_assert(*m[i] == v, "a reference optional refers to its object"); } break; }
      default: o[i].reset(); m[i] = nullptr; break;
    }
    for (int q = 0; q < 2; q++) {
      sym_assert(o[q].has_value() == (m[q] != nullptr), "presence of a reference");
      if (m[q]) sym_assert(&o[q].unwrap() == m[q], "the reference was rebound or copied");
      int d = 7;
      sym_assert(&static_cast<const optional<int&>&>(o[q]).value_or(d) == (m[q] ? m[q] : &d), "value_or of a reference");
    }
  }
  sym_cover(m[0] ? "value" : "empty");
}
extern "C" void h_optional_int() {
  optional<uint64_t> o[2]; bool has[2] = {false, false}; uint64_t v[2] = {0, 0};
  for (int s = 0; s < H; s++) {
    uint64_t i = sym_pick(0, 1, "object"), j = 1 - i;
    switch (sym_pick(0, 6, "op")) {
      case 0: v[i] = sym_u64("v"); o[i] = v[i]; has[i] = true; break;
      case 1: o[i] = nullopt; has[i] = false; break;
      case 2: o[i] = static_cast<const optional<uint64_t>&>(o[j]); has[i] = has[j]; v[i] = v[j]; break;
      case 3: o[i].swap(o[j]); std::swap(has[i], has[j]); std::swap(v[i], v[j]); break;
      case 4: { optional<uint64_t> k(v[i]); o[i] = std::move(k); has[i] = true; break; }
      case 5: o[i].reset(); has[i] = false; break;
      default: if (has[i]) { v[i] = sym_u64("v"); o[i].unwrap() = v[i]; } break;
    }
    for (int q = 0; q < 2; q++) {
      sym_assert(o[q].has_value() == has[q], "presence");
      if (has[q]) sym_assert(o[q].unwrap() == v[q], "value");
      sym_assert(static_cast<const optional<uint64_t>&>(o[q]).value_or(v[1 - q]) == (has[q] ? v[q] : v[1 - q]), "value_or");
    }
  }
  sym_cover(has[0] ? "value" : "empty");
}
// ---- Result<T,E>
struct R { bool ok; int v; };
using Res = Result<T, E>;
static void same(Res& r, const R& m) {
  const Res& c = r;
  sym_assert(c.has_value() == m.ok && c.is_error() == !m.ok && bool(c) == m.ok, "state differs from the reference");
  if (m.ok) sym_assert(c.unwrap_value().get() == m.v && r.unwrap_value().get() == m.v, "value differs");
  else sym_assert(*c.unwrap_error().p == m.v && *r.unwrap_error().p == m.v, "error differs");
  auto v = c.value(); auto e = c.error();
  sym_assert(v.has_value() == m.ok && e.has_value() == !m.ok, "value() and error() presence");
  if (m.ok) sym_assert(v.unwrap().get() == m.v, "value()"); else sym_assert(*e.unwrap().p == m.v, "error()");
}
static Res mk(R& m, const char* n) {
  uint64_t k = sym_pick(0, 3, n); int v = val("v");
  m = {k < 2, v};
  switch (k) { case 0: return Res(T(v)); case 1: { T t(v); return Res(t); } case 2: return Res(E(v)); default: { E e(v); return Res(e); } }
}
extern "C" void h_result() {
  uint64_t base = sym_live_allocs();
  {
    R m0, m1;
    Res r0 = mk(m0, "make"), r1 = mk(m1, "make");
    Res* r[2] = {&r0, &r1}; R* m[2] = {&m0, &m1};
    for (int s = 0; s < H - 1; s++) {
      uint64_t i = sym_pick(0, 1, "object"), j = 1 - i;
      Res& x = *r[i]; Res& y = *r[j];
      switch (sym_pick(0, 9, "op")) {
        case 0: x = static_cast<const Res&>(y); *m[i] = *m[j]; break;
        case 1: x = std::move(y); *m[i] = *m[j]; m[j]->v = -1; break;
        case 2: x = static_cast<const Res&>(x); break;
        case 3: { Res& z = x; x = std::move(z); break; }
        case 4: { R old = *m[i]; Res k(std::move(x)); same(k, old); m[i]->v = -1; break; }
        case 5: { bool ok = m[i]->ok; int d = val("d"); T t = static_cast<const Res&>(x).value_or(T(d)); sym_assert(t.get() == (ok ? m[i]->v : d), "value_or"); break; }
        case 6: { int calls = 0; int seen = 0; Result<long, E> q = x.transform([&](T& t) { calls++; seen = t.get(); return (long)t.get() + 1; });
          sym_assert(calls == (m[i]->ok ? 1 : 0) && q.has_value() == m[i]->ok, "transform calls the function once, on values only");
          if (m[i]->ok) sym_assert(seen == m[i]->v && q.unwrap_value() == (long)m[i]->v + 1, "transform's result"); else sym_assert(*q.unwrap_error().p == m[i]->v, "transform passes the error on");
          break; }
        case 7: if (m[i]->ok) { T t = std::move(x).unwrap_value(); sym_assert(t.get() == m[i]->v, "unwrap_value"); } else { E e = std::move(x).unwrap_error(); sym_assert(*e.p == m[i]->v, "unwrap_error"); } m[i]->v = -1; break;
        case 8: x.drop_error(); break;
        default: { auto o = std::move(x).value(); sym_assert(o.has_value() == m[i]->ok, "value() of a temporary"); if (m[i]->ok) { sym_assert(o.unwrap().get() == m[i]->v, "extracted value"); m[i]->v = -1; } break; }
      }
      same(r0, m0); same(r1, m1);
    }
    sym_cover(m0.ok ? "value" : "error");
  }
  sym_assert(sym_live_allocs() == base, "a contained object was not destroyed exactly once");
}
// copies that fail leave the target as it was (assignment is copy-and-swap) and leak nothing
extern "C" void h_optional_fault() {
  uint64_t base = sym_live_allocs();
  bool failed = false;
  {
    struct S { std::string s; S(int n) : s((size_t)n, 'x') {} };
    optional<S> a, b;
    int la = 0, lb = 0;
    if (sym_pick(0, 1, "a")) { a = S(20); la = 20; }
    if (sym_pick(0, 1, "b")) { b = S(30); lb = 30; }
    sym_arm_alloc_failures(1);
    try {
      switch (sym_pick(0, 2, "op")) {
        case 0: a = static_cast<const optional<S>&>(b); break;
        case 1: { optional<S> c(static_cast<const optional<S>&>(a)); break; }
        default: { S s(25); a = static_cast<const S&>(s); break; }
      }
    } catch (std::bad_alloc&) { failed = true; }
    sym_arm_alloc_failures(0);
    if (failed) {
      sym_assert(a.has_value() == (la != 0) && b.has_value() == (lb != 0), "a failed copy changed a holder");
      if (la) sym_assert(a.unwrap().s.size() == 20u, "a failed copy changed the content");
    }
  }
  sym_assert(sym_live_allocs() == base, "leak");
  sym_cover(failed ? "failed" : "fine");
}
extern "C" void h_misuse() {
  int n = 0;
  optional<int> e; const optional<int>& ce = e;
  Result<int, internal_error> v(3), er(internal_error("x"));
  (void)ce;
#ifndef NDEBUG
  try { (void)e.unwrap(); } catch (std::exception&) { n++; }
  try { (void)ce.unwrap(); } catch (std::exception&) { n++; }
  try { (void)v.unwrap_error(); } catch (std::exception&) { n++; }
  try { (void)er.unwrap_value(); } catch (std::exception&) { n++; }
  sym_assert(n == 4, "extracting what is not there must be refused when assertions are on");
#endif
  sym_assert(std::string(er.unwrap_error().what()).find("x") != std::string::npos, "error text");
  sym_cover("rejected");
}
