// Bit-vector expressions (hash-consed), evaluation, and the solver interface.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>
#include <functional>

typedef unsigned __int128 u128;
typedef uint64_t u64;

enum Kind : uint8_t {
  KConst, KVar, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KConcat, KExtract, KZExt, KSExt, KEq, KUlt, KUle, KSlt, KSle, KIte
};

typedef std::vector<uint32_t> VarSet;  // sorted

struct Expr {
  Kind k;
  uint16_t w;
  uint32_t id;
  bool undef;          // depends on an uninitialised value
  u128 val;            // constant value, variable index, or extract low bit
  const Expr *a, *b, *c;
  const VarSet* vars;
  mutable uint32_t stamp;
  mutable u128 ev;
};
typedef const Expr* Ex;

struct VarInfo { std::string name; unsigned width; bool undef; };
extern std::vector<VarInfo> g_vars;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u128 sextw(u128 v, unsigned w) {
  if (w >= 128) return v;
  u128 m = (u128)1 << (w - 1);
  return ((v & maskw(w)) ^ m) - m;
}

Ex mkConst(u128 v, unsigned w);
Ex mkVar(uint32_t idx);
uint32_t newVar(const std::string& name, unsigned w, bool undef = false);
Ex mkBin(Kind k, Ex a, Ex b);
Ex mkCmp(Kind k, Ex a, Ex b);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkIte(Ex c, Ex a, Ex b);
Ex substUndef(Ex e, const std::function<Ex(uint32_t)>& f);
Ex mkNot(Ex a);  // width 1
inline bool isC(Ex e) { return e->k == KConst; }
inline Ex mkAnd1(Ex a, Ex b) { return mkBin(KAnd, a, b); }
inline Ex mkOr1(Ex a, Ex b) { return mkBin(KOr, a, b); }
inline Ex mkTrue() { return mkConst(1, 1); }
inline Ex mkFalse() { return mkConst(0, 1); }
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
std::string exprStr(Ex e, int depth = 6);

struct Model {
  std::vector<u64> v;  // indexed by variable; missing = 0
  u64 get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};
typedef std::shared_ptr<const Model> ModelP;
u128 evalE(Ex e, const Model& m);   // memoised per top-level call
bool evalAll(const std::vector<Ex>& es, const Model& m);

struct SolverStats {
  u64 queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, asserts = 0, slow = 0, order = 0;
  double time = 0;
};
extern SolverStats g_ss;
enum SRes { SUnsat, SSat, SUnknown };
// satisfiability of (slice of constraints relevant to cond) && cond.
// base is an assignment that satisfies the constraints; on SSat out = base overwritten with the solution.
SRes solve(const std::vector<Ex>& constraints, Ex cond, const ModelP& base, ModelP& out);
void solverInit(unsigned timeoutMs);
size_t exprCount();
