//@bound H 4 5
//@bound KEYS 3 4
//@bounds every history of up to H operations (get, const get, touch, set, insert, change of capacity) over KEYS keys with arbitrary distinct 64-bit values for keys, arbitrary 32-bit values stored, capacities 1..3 or unlimited, integer and string keys; contents and recency order observed at the end of every history by shrinking the capacity one step at a time; one allocation failure at any point of a two-step history
//@entry {"name":"h_hist","jobs":8,"covers":["full","evicted"]}
//@entry {"name":"h_string","jobs":4,"covers":["full","evicted"]}
//@entry {"name":"h_bad_capacity","jobs":1,"covers":["rejected"]}
//@entry {"name":"h_fault","jobs":2,"covers":["failed","fine"]}
#include "sym.h"
#include "utils/lru_cache.hpp"
#include <string>
#include <vector>
using namespace cpptrace;
using namespace cpptrace::detail;
// any hash function is legal for a key type: the constant one puts every key in one bucket
struct Key { uint64_t v; bool operator==(const Key& o) const { return v == o.v; } bool operator!=(const Key& o) const { return v != o.v; } };
namespace std { template<> struct hash<Key> { size_t operator()(const Key&) const { return 7; } }; }
struct Ent { uint64_t k; uint32_t v; };
// reference: most recently used first
struct Model {
  std::vector<Ent> e; uint64_t cap = 0; bool evicted = false;
  int find(uint64_t k) { for (size_t i = 0; i < e.size(); i++) if (e[i].k == k) return (int)i; return -1; }
  void front(int i) { Ent x = e[i]; e.erase(e.begin() + i); e.insert(e.begin(), x); }
  void trim() { while (cap && e.size() > cap) { e.pop_back(); evicted = true; } }
};
template<class K> struct Keys;
template<> struct Keys<Key> {
  uint64_t k[KEYS];
  Keys() { for (int i = 0; i < KEYS; i++) { k[i] = sym_u64("key"); for (int j = 0; j < i; j++) sym_assume(k[i] != k[j]); } }
  Key operator[](uint64_t i) { return Key{k[i]}; }
};
template<> struct Keys<std::string> { std::string operator[](uint64_t i) { static const char* const n[] = {"", "a", "/usr/lib/object/file.so", "ab"}; return n[i]; } };
static optional<std::size_t> capv(uint64_t c) { return c ? optional<std::size_t>((std::size_t)c) : optional<std::size_t>(nullopt); }
template<class K> static void hist(int steps) {
  Keys<K> key;
  Model m;
  m.cap = sym_pick(0, 3, "capacity");
  lru_cache<K, uint32_t> c{capv(m.cap)};
  const lru_cache<K, uint32_t>& cc = c;
  for (int s = 0; s < steps; s++) {
    uint64_t op = sym_pick(0, 5, "op");
    if (op == 5) { m.cap = sym_pick(0, 3, "capacity"); c.set_max_size(capv(m.cap)); m.trim(); }
    else {
      uint64_t k = sym_pick(0, KEYS - 1, "which");
      int at = m.find(k);
      switch (op) {
        case 0: {
          auto r = c.maybe_get(key[k]);
          sym_assert(r.has_value() == (at >= 0), "lookup presence");
          if (at >= 0) {
            sym_assert(r.unwrap() == m.e[at].v, "lookup returns the latest value");
            uint32_t v = sym_u32("through"); r.unwrap() = v; m.e[at].v = v;
            m.front(at);
          }
          break;
        }
        case 1: {
          auto r = cc.maybe_get(key[k]);
          sym_assert(r.has_value() == (at >= 0), "const lookup presence");
          if (at >= 0) { sym_assert(r.unwrap() == m.e[at].v, "const lookup returns the latest value"); m.front(at); }
          break;
        }
        case 2: c.maybe_touch(key[k]); if (at >= 0) m.front(at); break;
        case 3: {
          uint32_t v = sym_u32("value");
          c.set(key[k], v);
          if (at >= 0) { m.e[at].v = v; m.front(at); } else { m.e.insert(m.e.begin(), Ent{k, v}); m.trim(); }
          break;
        }
        default: {
          uint32_t v = sym_u32("value");
          auto r = c.insert(key[k], v);
          sym_assert(r.has_value() == (at < 0), "insert reports whether it inserted");
          if (at < 0) { sym_assert(r.unwrap() == v, "insert returns the value"); m.e.insert(m.e.begin(), Ent{k, v}); m.trim(); }
          break;
        }
      }
    }
    sym_assert(c.size() == m.e.size(), "size differs from the reference");
    sym_assert(!m.cap || c.size() <= m.cap, "over capacity");
  }
  if (m.evicted) sym_cover("evicted");
  if (m.cap && m.e.size() == m.cap) sym_cover("full");
  // which keys are held, with which values; reading in order of increasing recency leaves the order as it was
  for (uint64_t k = 0; k < KEYS; k++) if (m.find(k) < 0) sym_assert(!cc.maybe_get(key[k]).has_value(), "an evicted or unknown key is present");
  for (size_t i = m.e.size(); i-- > 0;) {
    auto r = cc.maybe_get(key[m.e[i].k]);
    sym_assert(r.has_value() && r.unwrap() == m.e[i].v, "a held key is missing or has an old value");
  }
  // that reading imposed the model's order, so look at the real order in the other half of the paths
}
template<class K> static void order(int steps) {
  Keys<K> key;
  Model m;
  m.cap = sym_pick(0, 3, "capacity");
  lru_cache<K, uint32_t> c{capv(m.cap)};
  const lru_cache<K, uint32_t>& cc = c;
  for (int s = 0; s < steps; s++) {
    uint64_t op = sym_pick(0, 5, "op");
    if (op == 5) { m.cap = sym_pick(0, 3, "capacity"); c.set_max_size(capv(m.cap)); m.trim(); continue; }
    uint64_t k = sym_pick(0, KEYS - 1, "which");
    int at = m.find(k);
    switch (op) {
      case 0: (void)c.maybe_get(key[k]); if (at >= 0) m.front(at); break;
      case 1: (void)cc.maybe_get(key[k]); if (at >= 0) m.front(at); break;
      case 2: c.maybe_touch(key[k]); if (at >= 0) m.front(at); break;
      case 3: c.set(key[k], (uint32_t)s); if (at >= 0) { m.e[at].v = s; m.front(at); } else { m.e.insert(m.e.begin(), Ent{k, (uint32_t)s}); m.trim(); } break;
      default: c.insert(key[k], (uint32_t)s); if (at < 0) { m.e.insert(m.e.begin(), Ent{k, (uint32_t)s}); m.trim(); } break;
    }
  }
  if (m.evicted) sym_cover("evicted");
  if (m.cap && m.e.size() == m.cap) sym_cover("full");
  // shrink to `keep`: exactly the most recently used stay
  if (m.e.size() > 1) {
    uint64_t keep = sym_pick(1, m.e.size() - 1, "keep");
    c.set_max_size((std::size_t)keep);
    for (size_t i = 0; i < m.e.size(); i++) {
      auto r = cc.maybe_get(key[m.e[i].k]);
      sym_assert(r.has_value() == (i < keep), "shrinking dropped something other than the least recently used");
      if (i < keep) sym_assert(r.unwrap() == m.e[i].v, "value after shrinking");
    }
  }
}
extern "C" void h_hist() { if (sym_pick(0, 1, "part")) hist<Key>(H); else order<Key>(H); }
extern "C" void h_string() { if (sym_pick(0, 1, "part")) hist<std::string>(H - 1); else order<std::string>(H - 1); }
extern "C" void h_bad_capacity() {
  int thrown = 0;
  try { lru_cache<int, int> c(optional<std::size_t>((std::size_t)0)); } catch (std::exception&) { thrown++; }
  lru_cache<int, int> c;
  c.set(1, 1);
  try { c.set_max_size((std::size_t)0); } catch (std::exception&) { thrown++; }
  sym_assert(thrown == 2, "a capacity of zero must be refused");
  sym_assert(c.size() == 1, "contents survive a refused capacity");
  sym_cover("rejected");
}
extern "C" void h_fault() {
  uint64_t base = sym_live_allocs();
  bool failed = false;
  {
    lru_cache<Key, std::string> c{optional<std::size_t>((std::size_t)2)};
    sym_arm_alloc_failures(1);
    try {
      for (uint64_t s = 0; s < 2; s++) {
        uint64_t k = sym_pick(0, 1, "which");
        if (sym_pick(0, 1, "op")) c.set(Key{k}, "a value longer than the small buffer"); else c.insert(Key{k}, "a value longer than the small buffer");
      }
    } catch (std::bad_alloc&) { failed = true; }
    sym_arm_alloc_failures(0);
  }
  sym_assert(sym_live_allocs() == base, "storage leaked");
  sym_cover(failed ? "failed" : "fine");
}
