#include "expr.h"
#include <unistd.h>
#include <string>
#include <functional>
#include <z3.h>
#include <unordered_set>
#include <set>
#include <map>
#include <deque>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>

std::vector<VarInfo> g_vars;
SolverStats g_ss;

// ---------------------------------------------------------------- hash consing
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
struct EHash {
  size_t operator()(Ex e) const {
    u64 h = e->k * 131 + e->w;
    h = mix(h, (u64)e->val); h = mix(h, (u64)(e->val >> 64));
    h = mix(h, (u64)e->a); h = mix(h, (u64)e->b); h = mix(h, (u64)e->c);
    return h;
  }
};
struct EEq {
  bool operator()(Ex x, Ex y) const {
    return x->k == y->k && x->w == y->w && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c;
  }
};
static std::unordered_set<Ex, EHash, EEq> g_tab;
static std::deque<Expr> g_arena;
static std::vector<Ex> g_byId;
static const VarSet g_emptyVS;
struct VSLess { bool operator()(const VarSet* a, const VarSet* b) const { return *a < *b; } };
static std::set<const VarSet*, VSLess> g_vsTab;
size_t exprCount() { return g_arena.size(); }

static const VarSet* internVS(VarSet&& v) {
  auto it = g_vsTab.find(&v);
  if (it != g_vsTab.end()) return *it;
  auto* p = new VarSet(std::move(v));
  g_vsTab.insert(p);
  return p;
}
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
  if (std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
  VarSet r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return internVS(std::move(r));
}
static Ex mk(Kind k, unsigned w, u128 val, Ex a = nullptr, Ex b = nullptr, Ex c = nullptr) {
  Expr t; t.k = k; t.w = w; t.val = val; t.a = a; t.b = b; t.c = c;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  t.id = g_arena.size();
  t.stamp = 0;
  t.undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
  if (k == KVar) {
    t.undef = g_vars[(size_t)val].undef;
    t.vars = internVS(VarSet{(uint32_t)val});
  } else if (!a) t.vars = &g_emptyVS;
  else {
    t.vars = a->vars;
    if (b) t.vars = unionVS(t.vars, b->vars);
    if (c) t.vars = unionVS(t.vars, c->vars);
  }
  g_arena.push_back(t);
  Ex r = &g_arena.back();
  g_tab.insert(r);
  g_byId.push_back(r);
  return r;
}
static Ex g_small[65][257];
Ex mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  if (w <= 64 && v <= 256) {
    Ex& s = g_small[w][(size_t)v];
    if (!s) s = mk(KConst, w, v);
    return s;
  }
  return mk(KConst, w, v);
}
Ex mkVar(uint32_t i) { return mk(KVar, g_vars[i].width, i); }
uint32_t newVar(const std::string& n, unsigned w, bool undef) {
  g_vars.push_back({n, w, undef});
  return g_vars.size() - 1;
}

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
    case KAdd: return (a + b) & m;
    case KSub: return (a - b) & m;
    case KMul: return (a * b) & m;
    case KUDiv: return b ? a / b : m;
    case KURem: return b ? a % b : a;
    case KSDiv: {
      if (!b) return (sextw(a, w) >> 127) ? 1 : m;
      __int128 x = (__int128)sextw(a, w), y = (__int128)sextw(b, w);
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case KSRem: {
      if (!b) return a;
      __int128 x = (__int128)sextw(a, w), y = (__int128)sextw(b, w);
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case KLShr: return b >= w ? 0 : a >> (unsigned)b;
    case KAShr: {
      __int128 x = (__int128)sextw(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m;
    }
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return (__int128)sextw(a, w) < (__int128)sextw(b, w);
    case KSle: return (__int128)sextw(a, w) <= (__int128)sextw(b, w);
    default: abort();
  }
}

Ex mkNot(Ex a) {
  if (isC(a)) return mkConst(!a->val, 1);
  return mkBin(KXor, a, mkConst(1, 1));
}

static bool isNot(Ex e, Ex& inner) {
  if (e->w == 1 && e->k == KXor && isC(e->b) && e->b->val == 1) { inner = e->a; return true; }
  return false;
}

// cheap structural upper bound of an unsigned value
static u128 umax(Ex e, int d = 8) {
  u128 m = maskw(e->w);
  if (e->k == KConst) return e->val;
  if (!d) return m;
  switch (e->k) {
    case KZExt: return umax(e->a, d - 1);
    case KUDiv: if (isC(e->b) && e->b->val) return umax(e->a, d - 1) / e->b->val; return m;
    case KURem: if (isC(e->b) && e->b->val) return e->b->val - 1; return m;
    case KAnd: return std::min(umax(e->a, d - 1), umax(e->b, d - 1));
    case KAdd: { u128 x = umax(e->a, d - 1), y = umax(e->b, d - 1); u128 r = x + y; return r >= x && r <= m ? r : m; }
    case KMul: { u128 x = umax(e->a, d - 1), y = umax(e->b, d - 1); if (x >> 64 || y >> 64) return m; u128 r = x * y; return r <= m ? r : m; }
    case KIte: return std::max(umax(e->b, d - 1), umax(e->c, d - 1));
    case KConcat: return ((umax(e->a, d - 1) << e->b->w) | maskw(e->b->w));
    default: return m;
  }
}
static unsigned bitsFor(u128 v) { unsigned n = 1; while (n < 128 && (v >> n)) n++; return n; }
Ex mkBin(Kind k, Ex a, Ex b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch k=%d %u %u\n", k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), w);
  bool comm = k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor;
  if (comm && isC(a)) std::swap(a, b);
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  u128 m = maskw(w);
  switch (k) {
    case KAdd:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, a->a, mkConst(a->b->val + b->val, w));
        if (a->k == KIte && (isC(a->b) && isC(a->c))) return mkIte(a->a, mkBin(KAdd, a->b, b), mkBin(KAdd, a->c, b));
      } else {
        if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, mkBin(KAdd, a->a, b), a->b);
        if (b->k == KAdd && isC(b->b)) return mkBin(KAdd, mkBin(KAdd, a, b->a), b->b);
        if (a->k == KSub && a->b == b) return a->a;
        if (b->k == KSub && b->b == a) return b->a;
        if (w == 1) return mkBin(KXor, a, b);
      }
      break;
    case KSub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(KAdd, a, mkConst(-b->val, w));
      if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, mkBin(KSub, a->a, b), a->b);
      if (b->k == KAdd && isC(b->b)) return mkBin(KAdd, mkBin(KSub, a, b->a), mkConst(-b->b->val, w));
      if (a->k == KAdd) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      if (isC(a) && b->k == KSub && isC(b->a)) return mkBin(KAdd, b->b, mkConst(a->val - b->a->val, w));
      if (b->k == KAdd) {
        if (b->a == a) return mkBin(KSub, mkConst(0, w), b->b);
        if (b->b == a) return mkBin(KSub, mkConst(0, w), b->a);
      }
      if (w == 1) return mkBin(KXor, a, b);
      break;
    case KMul:
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) {
          unsigned s = 0; while (((b->val >> s) & 1) == 0) s++;
          return mkBin(KShl, a, mkConst(s, w));
        }
      }
      break;
    case KUDiv:
      if (isC(b)) {
        if (b->val == 1) return a;
        if (b->val && (b->val & (b->val - 1)) == 0) {
          unsigned s = 0; while (((b->val >> s) & 1) == 0) s++;
          return mkBin(KLShr, a, mkConst(s, w));
        }
        if (a->k == KZExt && b->val <= maskw(a->a->w)) return mkZExt(mkBin(KUDiv, a->a, mkConst(b->val, a->a->w)), w);
        if (a->k == KZExt && b->val > maskw(a->a->w)) return mkConst(0, w);
        if (b->val) { u128 x = umax(a); if (x < b->val) return mkConst(0, w); unsigned n = bitsFor(x); if (n < w) return mkZExt(mkBin(KUDiv, mkExtract(a, 0, n), mkConst(b->val, n)), w); }
      }
      break;
    case KURem:
      if (isC(b)) {
        if (b->val == 1) return mkConst(0, w);
        if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(KAnd, a, mkConst(b->val - 1, w));
        if (a->k == KZExt && b->val <= maskw(a->a->w)) return mkZExt(mkBin(KURem, a->a, mkConst(b->val, a->a->w)), w);
        if (a->k == KZExt && b->val > maskw(a->a->w)) return a;
        if (b->val) { u128 x = umax(a); if (x < b->val) return a; unsigned n = bitsFor(x); if (n < w) return mkZExt(mkBin(KURem, mkExtract(a, 0, n), mkConst(b->val, n)), w); }
      }
      break;
    case KSDiv: if (isC(b) && b->val == 1) return a; break;
    case KSRem: if (isC(b) && b->val == 1) return mkConst(0, w); break;
    case KAnd:
      if (a == b) return a;
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        if (a->k == KAnd && isC(a->b)) return mkBin(KAnd, a->a, mkConst(a->b->val & b->val, w));
        if (a->k == KZExt) {
          u128 lm = maskw(a->a->w);
          if ((b->val & lm) == lm) return a;
          return mkZExt(mkBin(KAnd, a->a, mkConst(b->val, a->a->w)), w);
        }
        if (w > 1 && (b->val & (b->val + 1)) == 0) {  // low mask
          unsigned n = 0; while ((b->val >> n) & 1) n++;
          return mkZExt(mkExtract(a, 0, n), w);
        }
        if (a->k == KConcat) {
          unsigned lw = a->b->w;
          return mkConcat(mkBin(KAnd, a->a, mkConst(b->val >> lw, a->a->w)), mkBin(KAnd, a->b, mkConst(b->val, lw)));
        }
      }
      if (w == 1) { Ex i; if ((isNot(a, i) && i == b) || (isNot(b, i) && i == a)) return mkConst(0, 1);
        if (a->k == KAnd && (a->a == b || a->b == b)) return a;
        if (b->k == KAnd && (b->a == a || b->b == a)) return b;
      }
      break;
    case KOr:
      if (a == b) return a;
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val == m) return b;
      }
      if (w == 1) { Ex i; if ((isNot(a, i) && i == b) || (isNot(b, i) && i == a)) return mkConst(1, 1); }
      // or of zext(low) and shl(zext(high)) -> concat
      if (w > 1) {
        for (int s = 0; s < 2; s++) {
          Ex x = s ? b : a, y = s ? a : b;
          if (x->k == KZExt && y->k == KConcat && isC(y->b) && y->b->val == 0 && y->b->w >= x->a->w) {
            unsigned lw = y->b->w;
            return mkConcat(y->a, mkZExt(x->a, lw));
          }
          if (x->k == KZExt && y->k == KZExt && y->a->k == KConcat && isC(y->a->b) && y->a->b->val == 0 && y->a->b->w >= x->a->w)
            return mkZExt(mkConcat(y->a->a, mkZExt(x->a, y->a->b->w)), w);
          if (x->k == KConcat && y->k == KConcat && x->b->w == y->b->w)
            return mkConcat(mkBin(KOr, x->a, y->a), mkBin(KOr, x->b, y->b));
          if (x->k == KConcat && y->k == KZExt && y->a->w <= x->b->w)
            return mkConcat(x->a, mkBin(KOr, x->b, mkZExt(y->a, x->b->w)));
          if (x->k == KConcat && y->k == KZExt)
            return mkConcat(mkBin(KOr, x->a, mkExtract(y, x->b->w, x->a->w)), mkBin(KOr, x->b, mkExtract(y, 0, x->b->w)));
        }
      }
      break;
    case KXor:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (a->k == KXor && isC(a->b)) return mkBin(KXor, a->a, mkConst(a->b->val ^ b->val, w));
        if (w == 1) {
          // push negation into comparisons
          if (a->k == KUlt) return mkCmp(KUle, a->b, a->a);
          if (a->k == KUle) return mkCmp(KUlt, a->b, a->a);
          if (a->k == KSlt) return mkCmp(KSle, a->b, a->a);
          if (a->k == KSle) return mkCmp(KSlt, a->b, a->a);
        }
      }
      break;
    case KShl:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      break;
    case KLShr:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      break;
    case KAShr:
      if (isC(b)) {
        if (b->val == 0) return a;
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  return mk(k, w, 0, a, b);
}

Ex mkCmp(Kind k, Ex a, Ex b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkCmp width mismatch %u %u\n", a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), 1);
  if (a == b) return mkConst(k == KEq || k == KUle || k == KSle, 1);
  u128 m = maskw(w);
  if (k == KEq) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (w == 1) return b->val ? a : mkNot(a);
      switch (a->k) {
        case KZExt: {
          unsigned iw = a->a->w;
          if (b->val > maskw(iw)) return mkFalse();
          return mkCmp(KEq, a->a, mkConst(b->val, iw));
        }
        case KSExt: {
          unsigned iw = a->a->w;
          u128 t = b->val & maskw(iw);
          if ((sextw(t, iw) & m) != b->val) return mkFalse();
          return mkCmp(KEq, a->a, mkConst(t, iw));
        }
        case KConcat: {
          unsigned lw = a->b->w;
          return mkAnd1(mkCmp(KEq, a->a, mkConst(b->val >> lw, a->a->w)), mkCmp(KEq, a->b, mkConst(b->val, lw)));
        }
        case KAdd: if (isC(a->b)) return mkCmp(KEq, a->a, mkConst(b->val - a->b->val, w)); break;
        case KXor: if (isC(a->b)) return mkCmp(KEq, a->a, mkConst(b->val ^ a->b->val, w)); break;
        case KSub: if (b->val == 0) return mkCmp(KEq, a->a, a->b); break;
        case KIte:
          if (isC(a->b) && isC(a->c)) {
            bool x = a->b->val == b->val, y = a->c->val == b->val;
            if (x && y) return mkTrue();
            if (!x && !y) return mkFalse();
            return x ? a->a : mkNot(a->a);
          }
          if (isC(a->b)) {
            if (a->b->val == b->val) return mkOr1(a->a, mkCmp(KEq, a->c, b));
            return mkAnd1(mkNot(a->a), mkCmp(KEq, a->c, b));
          }
          if (isC(a->c)) {
            if (a->c->val == b->val) return mkOr1(mkNot(a->a), mkCmp(KEq, a->b, b));
            return mkAnd1(a->a, mkCmp(KEq, a->b, b));
          }
          break;
        default: break;
      }
    } else {
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkCmp(KEq, a->a, b->a);
      if (a->k == KAdd && b->k == KAdd && isC(a->b) && isC(b->b) ) {
        if (a->b == b->b) return mkCmp(KEq, a->a, b->a);
      }
      if (a->k == KAdd && (a->a == b)) return mkCmp(KEq, a->b, mkConst(0, w));
      if (b->k == KAdd && (b->a == a)) return mkCmp(KEq, b->b, mkConst(0, w));
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(KEq, 1, 0, a, b);
  }
  if (k == KUlt) {
    if (isC(b)) {
      if (b->val == 0) return mkFalse();
      if (b->val == 1) return mkCmp(KEq, a, mkConst(0, w));
      if (b->val == m) return mkNot(mkCmp(KEq, a, b));
      if (a->k == KZExt) {
        unsigned iw = a->a->w;
        if (b->val > maskw(iw)) return mkTrue();
        return mkCmp(KUlt, a->a, mkConst(b->val, iw));
      }
    }
    if (isC(a)) {
      if (a->val == m) return mkFalse();
      if (a->val == 0) return mkNot(mkCmp(KEq, b, a));
      if (b->k == KZExt) {
        unsigned iw = b->a->w;
        if (a->val >= maskw(iw)) return mkFalse();
        return mkCmp(KUlt, mkConst(a->val, iw), b->a);
      }
    }
    if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkCmp(KUlt, a->a, b->a);
  }
  if (k == KUle) {
    if (isC(b)) {
      if (b->val == m) return mkTrue();
      return mkCmp(KUlt, a, mkConst(b->val + 1, w));
    }
    if (isC(a)) {
      if (a->val == 0) return mkTrue();
      return mkCmp(KUlt, mkConst(a->val - 1, w), b);
    }
    if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkCmp(KUle, a->a, b->a);
  }
  if (k == KSlt || k == KSle) {
    Kind uk = k == KSlt ? KUlt : KUle;
    // zero-extended values are non-negative
    auto nonneg = [&](Ex e) { return (e->k == KZExt) || (isC(e) && !((e->val >> (w - 1)) & 1)); };
    if (nonneg(a) && nonneg(b)) return mkCmp(uk, a, b);
    if (a->k == KZExt && isC(b)) return mkFalse();       // b negative
    if (b->k == KZExt && isC(a)) return mkTrue();        // a negative
    if (a->k == KSExt && isC(b)) {
      unsigned iw = a->a->w;
      if ((sextw(b->val & maskw(iw), iw) & m) == b->val) return mkCmp(k, a->a, mkConst(b->val, iw));
      return ((b->val >> (w - 1)) & 1) ? mkFalse() : mkTrue();
    }
    if (b->k == KSExt && isC(a)) {
      unsigned iw = b->a->w;
      if ((sextw(a->val & maskw(iw), iw) & m) == a->val) return mkCmp(k, mkConst(a->val, iw), b->a);
      return ((a->val >> (w - 1)) & 1) ? mkTrue() : mkFalse();
    }
    if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
  }
  if (isC(b) && (k == KUlt || k == KUle)) { u128 x = umax(a); if (x < b->val || (k == KUle && x == b->val)) return mkTrue(); }
  if (isC(a) && (k == KUlt || k == KUle)) { u128 x = umax(b); if (x < a->val || (k == KUlt && x == a->val)) return mkFalse(); }
  if (a->k == KIte && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (b->k == KIte && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return mk(k, 1, 0, a, b);
}

Ex mkExtract(Ex a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) { fprintf(stderr, "bad extract lo=%u w=%u of %u\n", lo, w, a->w); abort(); }
  switch (a->k) {
    case KConst: return mkConst(a->val >> lo, w);
    case KExtract: return mkExtract(a->a, lo + (unsigned)a->val, w);
    case KConcat: {
      unsigned lw = a->b->w;
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case KZExt: {
      unsigned iw = a->a->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case KSExt: {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
      break;
    }
    case KAnd: case KOr: case KXor: return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case KAdd: case KSub: case KMul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case KIte:
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    default: break;
  }
  return mk(KExtract, w, lo, a);
}

Ex mkConcat(Ex hi, Ex lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
  if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && (unsigned)hi->val == (unsigned)lo->val + lo->w)
    return mkExtract(hi->a, (unsigned)lo->val, w);
  if (hi->k == KExtract && hi->a == lo && (unsigned)hi->val == lo->w) return mkExtract(lo, 0, w);
  // the low part may have been narrowed into its operands
  if (hi->k == KExtract && (unsigned)hi->val == lo->w && hi->a->k != KConcat && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
  // concat(extract(x, n..), concat(extract(x, ..n), rest))
  if (lo->k == KConcat && hi->k == KExtract && lo->a->k == KExtract && hi->a == lo->a->a &&
      (unsigned)hi->val == (unsigned)lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
  if (isC(hi) && lo->k == KConcat && isC(lo->a)) return mkConcat(mkConst((hi->val << lo->a->w) | lo->a->val, hi->w + lo->a->w), lo->b);
  if (hi->k == KConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));  // right-associate
  if (hi->k == KZExt) return mkZExt(mkConcat(hi->a, lo), w);
  // bytewise ite with the same condition (whole words selected together)
  if (hi->k == KIte && lo->k == KIte && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return mk(KConcat, w, 0, hi, lo);
}
Ex mkZExt(Ex a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) { fprintf(stderr, "bad zext\n"); abort(); }
  if (isC(a)) return mkConst(a->val, w);
  if (a->k == KZExt) return mkZExt(a->a, w);
  return mk(KZExt, w, 0, a);
}
Ex mkSExt(Ex a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(sextw(a->val, a->w), w);
  if (a->k == KSExt) return mkSExt(a->a, w);
  if (a->k == KZExt) return mkZExt(a->a, w);
  return mk(KSExt, w, 0, a);
}
Ex mkIte(Ex c, Ex a, Ex b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  Ex i;
  if (isNot(c, i)) return mkIte(i, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a)) return a->val ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->val ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (a->k == KIte && a->a == c) a = a->b;
  if (b->k == KIte && b->a == c) b = b->c;
  if (a == b) return a;
  return mk(KIte, a->w, 0, c, a, b);
}

std::string exprStr(Ex e, int d) {
  static const char* n[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite"};
  char buf[64];
  if (e->k == KConst) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->val, e->w); return buf; }
  if (e->k == KVar) return g_vars[(size_t)e->val].name + "#" + std::to_string((unsigned)e->val);
  if (d == 0) return "..";
  std::string r = std::string("(") + n[e->k];
  if (e->k == KExtract) { snprintf(buf, 64, "[%u+%u]", (unsigned)e->val, e->w); r += buf; }
  if (e->a) r += " " + exprStr(e->a, d - 1);
  if (e->b) r += " " + exprStr(e->b, d - 1);
  if (e->c) r += " " + exprStr(e->c, d - 1);
  return r + ")";
}

// ---------------------------------------------------------------- evaluation
static Ex substR(Ex e, const std::function<Ex(uint32_t)>& f, std::unordered_map<Ex, Ex>& memo) {
  if (!e->undef) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Ex r;
  auto S = [&](Ex x) { return substR(x, f, memo); };
  switch (e->k) {
    case KConst: r = e; break;
    case KVar: r = f((uint32_t)e->val); break;
    case KExtract: r = mkExtract(S(e->a), (unsigned)e->val, e->w); break;
    case KConcat: r = mkConcat(S(e->a), S(e->b)); break;
    case KZExt: r = mkZExt(S(e->a), e->w); break;
    case KSExt: r = mkSExt(S(e->a), e->w); break;
    case KIte: r = mkIte(S(e->a), S(e->b), S(e->c)); break;
    case KEq: case KUlt: case KUle: case KSlt: case KSle: r = mkCmp(e->k, S(e->a), S(e->b)); break;
    default: r = mkBin(e->k, S(e->a), S(e->b)); break;
  }
  memo[e] = r;
  return r;
}
// replace the variables that stand for uninitialised bytes
Ex substUndef(Ex e, const std::function<Ex(uint32_t)>& f) { std::unordered_map<Ex, Ex> memo; return substR(e, f, memo); }
static uint32_t g_stamp = 0;
static u128 ev(Ex e, const Model& m) {
  if (e->k == KConst) return e->val;
  if (e->stamp == g_stamp) return e->ev;
  u128 r;
  switch (e->k) {
    case KVar: r = m.get((uint32_t)e->val) & maskw(e->w); break;
    case KConcat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case KExtract: r = (ev(e->a, m) >> (unsigned)e->val) & maskw(e->w); break;
    case KZExt: r = ev(e->a, m); break;
    case KSExt: r = sextw(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case KIte: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    default: r = foldBin(e->k, ev(e->a, m), ev(e->b, m), e->a->w); break;
  }
  e->stamp = g_stamp; e->ev = r;
  return r;
}
u128 evalE(Ex e, const Model& m) { ++g_stamp; return ev(e, m); }
bool evalAll(const std::vector<Ex>& es, const Model& m) {
  ++g_stamp;
  for (Ex e : es) if (!ev(e, m)) return false;
  return true;
}

// ---------------------------------------------------------------- z3
static Z3_context C;
static Z3_solver S, SO;
static Z3_tactic g_tac;
static Z3_params g_params;
static std::vector<Z3_ast> g_bv, g_bool;
static std::vector<Z3_ast> g_varAst;

static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  exit(3);
}
void solverInit(unsigned timeoutMs) {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, zerr);
  Z3_symbol lg = Z3_mk_string_symbol(C, "QF_BV");
  S = Z3_mk_solver_for_logic(C, lg);
  Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  // the incremental solver gets a short time; what it does not decide goes to the one-shot tactic
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs < 150 ? timeoutMs : 150);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), 1);
  g_params = Z3_mk_params(C);
  Z3_params_inc_ref(C, g_params);
  Z3_params_set_uint(C, g_params, Z3_mk_string_symbol(C, "timeout"), timeoutMs);
  g_tac = Z3_mk_tactic(C, "qfbv");
  Z3_tactic_inc_ref(C, g_tac);
  Z3_solver_set_params(C, S, p);
  SO = Z3_mk_solver_for_logic(C, lg);
  Z3_solver_inc_ref(C, SO);
}
static Z3_ast keep(std::vector<Z3_ast>& t, uint32_t id, Z3_ast a) {
  Z3_inc_ref(C, a);
  if (t.size() <= id) t.resize(std::max<size_t>(id + 1, g_arena.size()), nullptr);
  t[id] = a;
  return a;
}
static Z3_ast toBool(Ex e);
static Z3_ast num(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64));
  Z3_inc_ref(C, hi);
  Z3_ast lo = Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64));
  Z3_inc_ref(C, lo);
  return Z3_mk_concat(C, hi, lo);
}
static Z3_ast toBV(Ex e) {
  if (e->id < g_bv.size() && g_bv[e->id]) return g_bv[e->id];
  Z3_ast r = nullptr;
  auto A = [&] { return toBV(e->a); };
  auto B = [&] { return toBV(e->b); };
  switch (e->k) {
    case KConst: r = num(e->val, e->w); break;
    case KVar: {
      size_t i = (size_t)e->val;
      std::string n = "v" + std::to_string(i);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, e->w));
      if (g_varAst.size() <= i) g_varAst.resize(i + 1, nullptr);
      Z3_inc_ref(C, r);
      g_varAst[i] = r;
      break;
    }
    case KAdd: r = Z3_mk_bvadd(C, A(), B()); break;
    case KSub: r = Z3_mk_bvsub(C, A(), B()); break;
    case KMul: r = Z3_mk_bvmul(C, A(), B()); break;
    case KUDiv: r = Z3_mk_bvudiv(C, A(), B()); break;
    case KSDiv: r = Z3_mk_bvsdiv(C, A(), B()); break;
    case KURem: r = Z3_mk_bvurem(C, A(), B()); break;
    case KSRem: r = Z3_mk_bvsrem(C, A(), B()); break;
    case KAnd: r = Z3_mk_bvand(C, A(), B()); break;
    case KOr: r = Z3_mk_bvor(C, A(), B()); break;
    case KXor: r = Z3_mk_bvxor(C, A(), B()); break;
    case KShl: r = Z3_mk_bvshl(C, A(), B()); break;
    case KLShr: r = Z3_mk_bvlshr(C, A(), B()); break;
    case KAShr: r = Z3_mk_bvashr(C, A(), B()); break;
    case KConcat: r = Z3_mk_concat(C, A(), B()); break;
    case KExtract: r = Z3_mk_extract(C, (unsigned)e->val + e->w - 1, (unsigned)e->val, A()); break;
    case KZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, A()); break;
    case KSExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, A()); break;
    case KIte: r = Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)); break;
    default: r = Z3_mk_ite(C, toBool(e), num(1, 1), num(0, 1)); break;
  }
  return keep(g_bv, e->id, r);
}
static Z3_ast toBool(Ex e) {
  if (e->id < g_bool.size() && g_bool[e->id]) return g_bool[e->id];
  Z3_ast r = nullptr;
  switch (e->k) {
    case KConst: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case KEq: r = e->a->w == 1 ? Z3_mk_iff(C, toBool(e->a), toBool(e->b)) : Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
    case KUlt: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
    case KUle: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
    case KSle: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
    case KAnd: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case KOr: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case KXor:
      if (isC(e->b) && e->b->val == 1) r = Z3_mk_not(C, toBool(e->a));
      else r = Z3_mk_xor(C, toBool(e->a), toBool(e->b));
      break;
    case KIte: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = Z3_mk_eq(C, toBV(e), num(1, 1)); break;
  }
  return keep(g_bool, e->id, r);
}

// Formulas that only compare variables of one width with each other and with constants are decided over the least
// domain that can tell their orders apart: between two constants at most as many values matter as there are variables.
struct OrderQuery {
  unsigned w = 0, nw = 0;
  std::vector<uint32_t> vars;
  std::vector<u64> consts;                   // sorted
  std::vector<u64> cpos, gapStart;           // position of each constant; of the first slot after constant i-1 (gap i)
  std::map<std::pair<Ex, Ex>, bool> le;      // a <= b among the facts
  std::map<Ex, std::vector<Ex>> up;
  std::unordered_map<Ex, Ex> memo;
  bool leq(Ex a, Ex b) {
    if (a == b) return true;
    auto it = le.find({a, b});
    if (it != le.end()) return it->second;
    std::set<Ex> seen{a}; std::vector<Ex> st{a};
    bool r = false;
    while (!st.empty() && !r) { Ex x = st.back(); st.pop_back(); for (Ex y : up[x]) { if (y == b) { r = true; break; } if (seen.insert(y).second) st.push_back(y); } }
    return le[{a, b}] = r;
  }
  // differences with a common subtrahend compare like their minuends when nothing wraps
  Ex norm(Ex e) {
    if (e->w != 1 || isC(e)) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Ex r = e;
    switch (e->k) {
      case KAnd: case KOr: case KXor: r = mkBin(e->k, norm(e->a), norm(e->b)); break;
      case KIte: r = mkIte(norm(e->a), norm(e->b), norm(e->c)); break;
      case KEq: case KUlt: case KUle:
        if (e->a->w == 1) { r = mkCmp(e->k, norm(e->a), norm(e->b)); break; }
        if (e->a->k == KSub && e->b->k == KSub && e->a->b == e->b->b && (e->k == KEq || (leq(e->a->b, e->a->a) && leq(e->a->b, e->b->a)))) r = mkCmp(e->k, e->a->a, e->b->a);
        else if (e->k == KEq && e->a->k == KSub && isC(e->b) && e->b->val == 0) r = mkCmp(KEq, e->a->a, e->a->b);
        break;
      default: break;
    }
    return memo[e] = r;
  }
  bool term(Ex e) {
    if (w == 0) w = e->w;
    if (e->w != w || w > 64 || w < 8) return false;
    if (e->k == KVar) { vars.push_back((uint32_t)e->val); return true; }
    if (isC(e)) { consts.push_back((u64)e->val); return true; }
    return false;
  }
  std::set<Ex> seen;
  bool scan(Ex e) {
    if (isC(e) || !seen.insert(e).second) return true;
    if (e->w != 1) return false;
    switch (e->k) {
      case KAnd: case KOr: case KXor: return scan(e->a) && scan(e->b);
      case KIte: return scan(e->a) && scan(e->b) && scan(e->c);
      case KEq: case KUlt: case KUle: if (e->a->w == 1) return scan(e->a) && scan(e->b); return term(e->a) && term(e->b);
      default: return false;
    }
  }
  static void facts(Ex e, OrderQuery& q) {
    if (e->k == KAnd && e->w == 1) { facts(e->a, q); facts(e->b, q); }
    else if ((e->k == KUle || e->k == KUlt) && e->a->w > 1) q.up[e->a].push_back(e->b);
    else if (e->k == KXor && e->w == 1 && isC(e->b) && (e->a->k == KUlt || e->a->k == KUle) && e->a->a->w > 1) q.up[e->a->b].push_back(e->a->a);
    else if (e->k == KEq && e->a->w > 1) { q.up[e->a].push_back(e->b); q.up[e->b].push_back(e->a); }
  }
  bool prepare(std::vector<Ex>& all) {
    bool grow = true;
    std::vector<Ex> n = all;
    for (int i = 0; i < 3 && grow; i++) {
      grow = false; up.clear(); le.clear(); memo.clear();
      for (Ex e : n) facts(e, *this);
      for (Ex& e : n) { Ex f = norm(e); if (f != e) { e = f; grow = true; } }
    }
    for (Ex e : n) if (!scan(e)) return false;
    if (w == 0) return false;
    auto uniq = [](auto& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
    uniq(vars); uniq(consts);
    u128 pos = 0; u64 top = (u64)maskw(w), k = vars.size();
    gapStart.clear(); cpos.clear();
    for (size_t i = 0; i <= consts.size(); i++) {
      gapStart.push_back((u64)pos);
      u128 room = i < consts.size() ? (i ? (u128)consts[i] - consts[i - 1] - 1 : (u128)consts[i]) : (i ? (u128)top - consts[i - 1] : (u128)top + 1);
      pos += room < k ? (u64)room : k;
      if (i < consts.size()) cpos.push_back((u64)pos++);
    }
    slots = (u64)pos;
    nw = 1; while (nw < 63 && (1ull << nw) < slots) nw++;
    if (nw + 8 > w) return false;
    all = n;
    return true;
  }
  u64 slots = 0;
  u64 back(u64 p) const {
    for (size_t i = consts.size(); i-- > 0;) { if (p == cpos[i]) return consts[i]; if (p > cpos[i]) return consts[i] + (p - cpos[i]); }
    return p;
  }
  std::unordered_map<Ex, Z3_ast> asts;
  std::vector<Z3_ast> own;
  Z3_ast hold(Z3_ast a) { Z3_inc_ref(C, a); own.push_back(a); return a; }
  Z3_ast var(uint32_t i) { std::string n = "o" + std::to_string(i) + "_" + std::to_string(nw); return hold(Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, nw))); }
  Z3_ast bv(Ex e) {
    auto it = asts.find(e); if (it != asts.end()) return it->second;
    Z3_ast r;
    if (e->k == KVar) r = var((uint32_t)e->val);
    else r = num(cpos[std::lower_bound(consts.begin(), consts.end(), (u64)e->val) - consts.begin()], nw);
    Z3_inc_ref(C, r); return asts[e] = r;
  }
  Z3_ast boolean(Ex e) {
    auto it = asts.find(e); if (it != asts.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->k) {
      case KConst: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
      case KAnd: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(C, 2, x); break; }
      case KOr: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(C, 2, x); break; }
      case KXor: r = Z3_mk_xor(C, boolean(e->a), boolean(e->b)); break;
      case KIte: r = Z3_mk_ite(C, boolean(e->a), boolean(e->b), boolean(e->c)); break;
      case KEq: r = e->a->w == 1 ? Z3_mk_iff(C, boolean(e->a), boolean(e->b)) : Z3_mk_eq(C, bv(e->a), bv(e->b)); break;
      case KUlt: r = e->a->w == 1 ? Z3_mk_and(C, 2, std::vector<Z3_ast>{hold(Z3_mk_not(C, boolean(e->a))), boolean(e->b)}.data()) : Z3_mk_bvult(C, bv(e->a), bv(e->b)); break;
      default: r = e->a->w == 1 ? Z3_mk_implies(C, boolean(e->a), boolean(e->b)) : Z3_mk_bvule(C, bv(e->a), bv(e->b)); break;
    }
    Z3_inc_ref(C, r); return asts[e] = r;
  }
  ~OrderQuery() { for (auto& p : asts) Z3_dec_ref(C, p.second); for (auto a : own) Z3_dec_ref(C, a); }
};

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { u64 h = v.size(); for (auto x : v) h = mix(h, x); return h; } };
struct CacheEnt { SRes r; std::vector<std::pair<uint32_t, u64>> vals; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> g_cache;
static std::deque<ModelP> g_recent;

SRes solve(const std::vector<Ex>& cons, Ex cond, const ModelP& base, ModelP& out) {
  if (isC(cond)) { if (cond->val) { out = base; return SSat; } return SUnsat; }
  g_ss.queries++;
  // independence slicing
  static std::vector<uint8_t> in, used;
  in.assign(g_vars.size(), 0);
  used.assign(cons.size(), 0);
  std::vector<uint32_t> work(cond->vars->begin(), cond->vars->end());
  for (auto v : work) in[v] = 1;
  bool ch = true;
  std::vector<Ex> slice;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto v : *cons[i]->vars) if (in[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      slice.push_back(cons[i]);
      for (auto v : *cons[i]->vars) if (!in[v]) { in[v] = 1; ch = true; work.push_back(v); }
    }
  }
  std::sort(slice.begin(), slice.end(), [](Ex x, Ex y) { return x->id < y->id; });
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  std::vector<uint32_t> key;
  key.reserve(slice.size() + 1);
  for (Ex e : slice) key.push_back(e->id);
  key.push_back(cond->id);
  auto merge = [&](const std::vector<std::pair<uint32_t, u64>>& vals) {
    auto nm = std::make_shared<Model>(*base);
    for (auto& p : vals) { if (nm->v.size() <= p.first) nm->v.resize(p.first + 1, 0); nm->v[p.first] = p.second; }
    out = nm;
  };
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == SSat) merge(it->second.vals);
    return it->second.r;
  }
  auto store = [&](SRes r, const Model* m) {
    CacheEnt ce; ce.r = r;
    if (m) for (auto v : work) ce.vals.push_back({v, m->get(v)});
    if (m) merge(ce.vals);
    g_cache.emplace(std::move(key), std::move(ce));
  };
  std::vector<Ex> all = slice; all.push_back(cond);
  for (auto& m : g_recent) {
    if (evalAll(all, *m)) { g_ss.modelHits++; store(SSat, m.get()); return SSat; }
  }
  auto t0 = std::chrono::steady_clock::now();
  OrderQuery oq;
  std::vector<Ex> ordered = all;
  bool order = oq.prepare(ordered);
  Z3_solver S = order ? SO : ::S;
  Z3_solver_push(C, S);
  if (order) {
    g_ss.order++;
    for (uint32_t v : oq.vars) { Z3_ast x = oq.var(v), y = oq.hold(num(oq.slots - 1, oq.nw)), b = oq.hold(Z3_mk_bvule(C, x, y)); Z3_solver_assert(C, S, b); }
    for (Ex e : ordered) Z3_solver_assert(C, S, oq.boolean(e));
  } else for (Ex e : all) Z3_solver_assert(C, S, toBool(e));
  Z3_lbool r = Z3_solver_check(C, S);
  SRes res = SUnknown;
  Z3_solver from = S, one = nullptr;
  if (r == Z3_L_UNDEF && !order) {
    g_ss.slow++;
    one = Z3_mk_solver_from_tactic(C, g_tac);
    Z3_solver_inc_ref(C, one);
    Z3_solver_set_params(C, one, g_params);
    for (Ex e : all) Z3_solver_assert(C, one, toBool(e));
    if (const char* d = getenv("VP_DUMP_SLOW")) { static int n; FILE* f = fopen((std::string(d) + std::to_string(getpid()) + "-" + std::to_string(n++) + ".smt2").c_str(), "w"); if (f) { fputs(Z3_solver_to_string(C, one), f); fputs("(check-sat)\n", f); fclose(f); } }
    r = Z3_solver_check(C, one);
    from = one;
  }
  if (r == Z3_L_TRUE) {
    res = SSat;
    Z3_model zm = Z3_solver_get_model(C, from);
    Z3_model_inc_ref(C, zm);
    auto m = std::make_shared<Model>(*base);
    for (auto v : work) {
      u64 val = 0;
      Z3_ast o = nullptr;
      if (order) {
        if (std::binary_search(oq.vars.begin(), oq.vars.end(), v) && Z3_model_eval(C, zm, oq.var(v), true, &o)) {
          Z3_inc_ref(C, o);
          uint64_t x = 0;
          if (Z3_get_numeral_uint64(C, o, &x)) val = oq.back(x);
          Z3_dec_ref(C, o);
        } else val = base->get(v);
      } else if (v < g_varAst.size() && g_varAst[v] && Z3_model_eval(C, zm, g_varAst[v], true, &o)) {
        Z3_inc_ref(C, o);
        uint64_t x = 0;
        if (Z3_get_numeral_uint64(C, o, &x)) val = x;
        Z3_dec_ref(C, o);
      }
      if (m->v.size() <= v) m->v.resize(v + 1, 0);
      m->v[v] = val;
    }
    Z3_model_dec_ref(C, zm);
    if (!evalAll(all, *m)) {
      fprintf(stderr, "symx: solver model does not satisfy query (encoding error)\n");
      for (Ex e : all) if (!evalE(e, *m)) fprintf(stderr, "  violated: %s\n", exprStr(e, 8).c_str());
      exit(3);
    }
    g_recent.push_front(m);
    if (g_recent.size() > 12) g_recent.pop_back();
    g_ss.sat++;
    store(SSat, m.get());
  } else if (r == Z3_L_FALSE) { res = SUnsat; g_ss.unsat++; store(SUnsat, nullptr); }
  else g_ss.unknown++;
  if (one) Z3_solver_dec_ref(C, one);
  Z3_solver_pop(C, S, 1);
  g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return res;
}
