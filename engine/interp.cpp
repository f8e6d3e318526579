// Symbolic executor for LLVM IR.
#include "symx.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <algorithm>
#include <cmath>

using namespace llvm;

Ex UNINIT;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<const Function*, std::unique_ptr<DFunc>> g_funcs;
static std::map<u64, DFunc*> g_funcByAddr;
static std::map<u64, int> g_builtinByAddr;
static std::map<const GlobalValue*, u64> g_gaddr;
static std::map<u64, ObjP> g_globals;          // pristine globals
static u64 g_gbump = 0x10000000ULL;
static u64 g_fbump = 0x100000ULL;
static const u64 GAP = 0x10000;

struct Opts {
  std::string guardCalls, entry = "harness", out = "out", rewrite;
  double timeLimit = 600;
  u64 maxInsts = 20000000, maxPaths = 100000000;
  int jobs = 1, maxViol = 4;
  bool verbose = false, listUnknown = false, checkUninit = true;
  u64 memMB = 6000;
} O;

// ------------------------------------------------------------ run-wide results
static u64 R_paths = 0, R_insts = 0, R_forks = 0, R_killed = 0, R_states = 0, R_assumed = 0, R_maxPathInsts = 0;
static std::vector<Violation> R_viol;
static std::map<std::string, u64> R_violCount;
static std::set<std::string> R_covers;
static std::map<std::string, u64> R_incomplete;
struct Witness { std::vector<std::string> names; std::vector<unsigned> widths; std::vector<u64> values; std::set<std::string> covers; };
static std::map<std::string, int> R_witOf;   // cover -> index
static std::vector<Witness> R_wit;
static std::deque<StateP> work;
static std::chrono::steady_clock::time_point T0;
static volatile int* g_shared;   // [0] next index, [1] stop flag
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static void incomplete(const std::string& why) { R_incomplete[why]++; if (O.verbose) fprintf(stderr, "incomplete: %s\n", why.c_str()); }

enum St { CONT, DEAD, JUMP };   // CONT: store result, advance; JUMP: control already set

typedef St (*BFn)(State&, DInst&, std::vector<Val>&, Val&);
struct Builtin { std::string name; BFn fn; };
static std::vector<Builtin> g_builtins;
static std::map<std::string, int> g_builtinIdx;

// ------------------------------------------------------------ helpers
static unsigned tyW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 64;
  return 0;
}
static std::string locOf(const Instruction* I) {
  if (const DebugLoc& d = I->getDebugLoc()) {
    auto* sc = d.get();
    std::string f = sc->getFilename().str();
    return f + ":" + std::to_string(d.getLine());
  }
  return "?";
}
static std::string demangleName(const std::string& n) { return n; }
static std::vector<std::string> stackOf(State& s) {
  std::vector<std::string> r;
  for (int i = (int)s.stack.size() - 1; i >= 0; i--) {
    Frame& f = *s.stack[i];
    auto& bb = f.f->blocks[f.bb];
    const Instruction* I = bb.insts[std::min<size_t>(f.ip, bb.insts.size() - 1)].I;
    r.push_back(demangleName(f.f->name) + " " + locOf(I));
    // inlined-at chain
    if (const DebugLoc& d = I->getDebugLoc()) {
      const DILocation* l = d.get();
      while (const DILocation* in = l->getInlinedAt()) {
        auto* sp = l->getScope()->getSubprogram();
        r.back() = std::string(sp ? sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str() : "?") + " " + l->getFilename().str() + ":" + std::to_string(l->getLine());
        r.push_back(f.f->name + " " + in->getFilename().str() + ":" + std::to_string(in->getLine()));
        l = in;
      }
    }
  }
  return r;
}
static std::string whereOf(State& s) {
  // innermost location inside repo source (or harness), skipping library headers
  auto st = stackOf(s);
  for (auto& x : st) if (x.find("/usr/") == std::string::npos && x.find("/rt/") == std::string::npos) return x;
  return st.empty() ? "?" : st[0];
}
static void violation(State& s, const std::string& kind, const std::string& msg, const ModelP& m) {
  Violation v;
  v.kind = kind; v.msg = msg; v.where = whereOf(s); v.stack = stackOf(s);
  std::string key = kind + "|" + msg + "|" + v.where;
  u64 n = R_violCount[key]++;
  if (O.verbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
  if (n >= 1) return;
  for (size_t i = 0; i < s.made.size(); i++) {
    v.names.push_back(s.madeNames[i]);
    v.widths.push_back(g_vars[s.made[i]].width);
    v.values.push_back(m->get(s.made[i]));
  }
  v.notes = s.trace;
  R_viol.push_back(v);
  if (kind == "unsupported") incomplete("unsupported: " + msg + " at " + v.where);
  int real = 0;
  for (auto& x : R_viol) if (x.kind != "unsupported") real++;
  if (real >= O.maxViol) g_shared[1] = 1;
}
static void viol(State& s, const std::string& kind, const std::string& msg) { violation(s, kind, msg, s.model); }

static Frame& top(State& s) {
  auto& p = s.stack.back();
  if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
  return *p;
}

static StateP cloneState(State& s) {
  auto n = std::make_unique<State>(s);
  static u64 ids = 1;
  n->id = ids++;
  R_states++;
  return n;
}

static bool inCons(State& s, Ex e) {
  for (size_t i = s.cons.size(); i-- > 0;) if (s.cons[i] == e) return true;
  return false;
}
static void addCons(State& s, Ex e) {
  if (isC(e)) return;
  if (e->k == KAnd) { addCons(s, e->a); addCons(s, e->b); return; }
  if (!inCons(s, e)) s.cons.push_back(e);
}
static void undefUse(State& s, const char* what) {
  viol(s, "uninit", std::string("uninitialised value decides ") + what);
}
// Does the value really depend on uninitialised bytes under the path condition? If not, e is replaced by an equivalent
// expression without them.
static bool undefMatters(State& s, Ex& e) {
  static std::map<uint32_t, Ex> other;
  Ex z = substUndef(e, [](uint32_t i) { return mkConst(0, g_vars[i].width); });
  Ex o = substUndef(e, [](uint32_t i) { Ex& x = other[i]; if (!x) x = mkVar(newVar("uninit'", g_vars[i].width, true)); return x; });
  if (z == o) { e = z; return false; }
  ModelP m;
  SRes r = solve(s.cons, mkNot(mkCmp(KEq, z, o)), s.model, m);
  if (r == SUnsat) { e = z; return false; }
  return true;
}
// returns 1/0 for the side the current state continues on, -1 if state is dead
static int decide(State& s, Ex c) {
  if (isC(c)) return c->val ? 1 : 0;
  if (c->undef && O.checkUninit && undefMatters(s, c)) { undefUse(s, "a branch"); return -1; }
  if (isC(c)) return c->val ? 1 : 0;
  if (inCons(s, c)) return 1;
  Ex nc = mkNot(c);
  if (inCons(s, nc)) return 0;
  bool dir = evalE(c, *s.model) != 0;
  Ex other = dir ? nc : c;
  ModelP om;
  SRes r = solve(s.cons, other, s.model, om);
  if (r == SUnknown) { incomplete("solver timeout at branch " + whereOf(s)); }
  if (r == SSat) {
    auto n = cloneState(s);
    addCons(*n, other);
    n->model = om;
    n->forks++;
    R_forks++;
    work.push_back(std::move(n));
  }
  if (r != SUnsat) { addCons(s, dir ? c : nc); s.forks++; }
  return dir;
}
// fork over all values of e
static bool concretize(State& s, Val v, unsigned w, u64& out) {
  if (!v.sym()) { out = v.c; return true; }
  if (isC(v.e)) { out = (u64)v.e->val; return true; }
  if (v.e->undef && O.checkUninit) { Ex e = v.e; if (undefMatters(s, e)) { undefUse(s, "an address or size"); return false; } v.e = e; if (isC(e)) { out = (u64)e->val; return true; } }
  u64 x = (u64)evalE(v.e, *s.model);
  int d = decide(s, mkCmp(KEq, v.e, mkConst(x, w)));
  if (d < 0) return false;
  out = x;
  return true;
}
static bool mayBeTrue(State& s, Ex c, ModelP& m) {
  if (isC(c)) { m = s.model; return c->val; }
  if (evalE(c, *s.model)) { m = s.model; return true; }
  SRes r = solve(s.cons, c, s.model, m);
  if (r == SUnknown) { incomplete("solver timeout"); return false; }
  return r == SSat;
}

// ------------------------------------------------------------ memory
static ObjP findObj(State& s, u64 a) {
  auto it = s.mem.upper_bound(a);
  ObjP best;
  if (it != s.mem.begin()) { --it; best = it->second; }
  if (best && a >= best->base && a < best->base + best->size) return best;
  auto g = g_globals.upper_bound(a);
  if (g != g_globals.begin()) {
    --g;
    if (a >= g->second->base && a < g->second->base + g->second->size) return g->second;
  }
  if (best && a == best->base) return best;  // zero sized
  return nullptr;
}
static ObjP nearObj(State& s, u64 a) {   // object whose neighbourhood contains a
  ObjP r = findObj(s, a);
  if (r) return r;
  auto chk = [&](const std::map<u64, ObjP>& m) -> ObjP {
    auto it = m.upper_bound(a);
    ObjP x;
    u64 bd = GAP / 2;
    if (it != m.begin()) { auto p = std::prev(it); u64 e = p->second->base + p->second->size; u64 d = a - e; if (a >= e && d < bd) { x = p->second; bd = d; } }
    if (it != m.end()) { u64 d = it->second->base - a; if (d < bd) x = it->second; }
    return x;
  };
  r = chk(s.mem);
  if (!r) r = chk(g_globals);
  return r;
}
static ObjP writable(State& s, const ObjP& o) {
  auto it = s.mem.find(o->base);
  if (it == s.mem.end()) {
    auto n = std::make_shared<Object>(*o);
    s.mem[o->base] = n;
    return n;
  }
  if (it->second.use_count() > 2 || it->second.get() != o.get()) {
    it->second = std::make_shared<Object>(*it->second);
  }
  return it->second;
}
static ObjP newObj(State& s, u64 size, OKind k, const char* name) {
  auto o = std::make_shared<Object>();
  o->base = s.bump;
  o->size = size;
  o->kind = k;
  o->seq = s.seq++;
  o->name = name;
  o->b.assign(size, 0);
  o->s.assign(size, UNINIT);
  s.bump += ((size + 15) & ~15ULL) + GAP;
  s.mem[o->base] = o;
  return o;
}
static std::string objDesc(const ObjP& o) {
  const char* k[] = {"global", "stack", "heap", "function", "exception"};
  return std::string(k[o->kind]) + " object '" + o->name + "' of " + std::to_string(o->size) + " bytes";
}
struct Loc { ObjP o; u64 off; Ex soff; };  // soff non-null if symbolic
static unsigned trailingZeros(Ex e) {
  switch (e->k) {
    case KConst: { if (!e->val) return 6; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
    case KConcat: { unsigned l = trailingZeros(e->b); if (isC(e->b) && e->b->val == 0) return e->b->w + trailingZeros(e->a); return l; }
    case KAdd: case KSub: return std::min(trailingZeros(e->a), trailingZeros(e->b));
    case KMul: return trailingZeros(e->a) + trailingZeros(e->b);
    case KIte: return std::min(trailingZeros(e->b), trailingZeros(e->c));
    case KZExt: case KSExt: { if (isC(e->a) && !e->a->val) return 6; return std::min(trailingZeros(e->a), (unsigned)e->a->w); }
    default: return 0;
  }
}
// Resolve [addr, addr+n). Returns false if the state died.
static bool resolve(State& s, const Val& av, u64 n, bool write, Loc& L) {
  const char* what = write ? "write" : "read";
  if (!av.sym()) {
    u64 a = av.c;
    ObjP o = findObj(s, a);
    if (!o || a < o->base || a - o->base + n > o->size || a - o->base + n < n) {
      if (n == 0) { if (!o) o = nearObj(s, a); if (!o) { static ObjP dummy = std::make_shared<Object>(); L.o = dummy; L.off = 0; L.soff = nullptr; return true; } L.o = o; L.off = a - o->base; L.soff = nullptr; return true; }
      std::string d;
      ObjP nr = nearObj(s, a);
      if (a < 4096) d = "null pointer";
      else if (nr) d = "near " + objDesc(nr) + " offset " + std::to_string((long long)(a - nr->base));
      else d = "dangling or wild pointer";
      viol(s, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: " + d);
      return false;
    }
    if (o->symSize) {
      Ex inb = mkCmp(KUle, mkConst(a - o->base + n, 64), o->symSize);
      int d = decide(s, inb);
      if (d < 0) return false;
      if (!d) { viol(s, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes past the end of " + objDesc(o) + " (symbolic size)"); return false; }
    }
    if (write && o->ro) { viol(s, "memory", "write to read-only " + objDesc(o)); return false; }
    L.o = o; L.off = a - o->base; L.soff = nullptr;
    return true;
  }
  Ex a = av.e;
  if (a->undef && O.checkUninit) { if (undefMatters(s, a)) { undefUse(s, "an address"); return false; } return resolve(s, Val(a), n, write, L); }
  ObjP o;
  Ex t = a;
  if (t->k == KAdd && isC(t->b)) o = nearObj(s, (u64)t->b->val);
  if (o && o->base + o->size + GAP / 2 < (u64)t->b->val) o = nullptr;
  bool prov = (bool)o;
  if (!o) {
    u64 mv = (u64)evalE(a, *s.model);
    o = findObj(s, mv);
    if (!o) {
      viol(s, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: wild symbolic pointer");
      return false;
    }
  }
  if (o->size < n) { viol(s, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes in " + objDesc(o)); return false; }
  Ex off = mkBin(KSub, a, mkConst(o->base, 64));
  Ex inb = mkCmp(KUle, off, mkConst(o->size - n, 64));
  if (o->symSize) inb = mkAnd1(inb, mkCmp(KUle, mkBin(KAdd, off, mkConst(n, 64)), o->symSize));
  int d = decide(s, inb);
  if (d < 0) return false;
  if (!d) {
    // with provenance any out-of-bounds value is an error; otherwise another object is tried on re-execution
    if (prov) { viol(s, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes outside " + objDesc(o)); return false; }
    return resolve(s, av, n, write, L);
  }
  if (write && o->ro) { viol(s, "memory", "write to read-only " + objDesc(o)); return false; }
  L.o = o;
  if (isC(off)) { L.off = (u64)off->val; L.soff = nullptr; return true; }
  unsigned tz = std::min(trailingZeros(off), 6u);
  u64 nvals = (o->size - n) / (1ULL << tz) + 1;
  if (nvals > (write ? 300 : 2100)) {
    u64 v;
    if (!concretize(s, Val(off), 64, v)) return false;
    L.off = v; L.soff = nullptr;
    return true;
  }
  L.soff = off; L.off = 0;
  return true;
}
static Ex readUninit(State& s) {
  // one variable per (position in path) keeps naming deterministic
  static std::vector<uint32_t> pool;
  size_t k = s.tag[~0ULL]++;
  while (pool.size() <= k) pool.push_back(newVar("uninit", 8, true));
  return mkVar(pool[k]);
}
static Ex byteAt(State& s, ObjP& o, u64 i) {
  if (!o->s.empty() && o->s[i] == UNINIT) {
    Ex e = readUninit(s);
    o = writable(s, o);
    o->setByte(i, e);
    return e;
  }
  return o->byte(i);
}
static bool loadInt(State& s, Loc& L, unsigned nbytes, unsigned w, Val& out) {
  Object& o = *L.o;
  if (!L.soff) {
    bool conc = true;
    if (!o.s.empty()) for (unsigned i = 0; i < nbytes; i++) if (o.s[L.off + i]) { conc = false; break; }
    if (conc) {
      if (nbytes <= 8) {
        u64 v = 0;
        memcpy(&v, &o.b[L.off], nbytes);
        out = Val(w >= 64 ? v : (v & (u64)maskw(w)));
        return true;
      }
    }
    Ex e = nullptr;
    for (unsigned i = 0; i < nbytes; i++) {
      Ex b = byteAt(s, L.o, L.off + i);
      e = e ? mkConcat(b, e) : b;
    }
    out = Val(mkExtract(e, 0, w));
    return true;
  }
  unsigned tz = std::min(trailingZeros(L.soff), 6u);
  u64 step = 1ULL << tz;
  Ex r = nullptr;
  // value-level chain
  std::vector<std::pair<Ex, Ex>> arms;
  for (u64 p = 0; p + nbytes <= o.size; p += step) {
    Ex e = nullptr;
    bool un = false;
    for (unsigned i = 0; i < nbytes; i++) {
      if (!L.o->s.empty() && L.o->s[p + i] == UNINIT) { un = true; }
    }
    if (un) {  // only materialise if reachable
      ModelP m;
      if (!mayBeTrue(s, mkCmp(KEq, L.soff, mkConst(p, 64)), m)) continue;
    }
    for (unsigned i = 0; i < nbytes; i++) { Ex b = byteAt(s, L.o, p + i); e = e ? mkConcat(b, e) : b; }
    e = mkExtract(e, 0, w);
    arms.push_back({mkConst(p, 64), e});
  }
  // group equal values into contiguous ranges, last arm is the default
  for (size_t i = arms.size(); i-- > 0;) {
    if (!r) { r = arms[i].second; continue; }
    if (r == arms[i].second) continue;
    if (i && arms[i - 1].second == arms[i].second) {
      size_t j = i;
      while (j && arms[j - 1].second == arms[i].second) j--;
      // positions j..i share a value: test off <= arms[i] (positions below j are handled outside)
      r = mkIte(mkCmp(KUle, L.soff, arms[i].first), arms[i].second, r);
      i = j;
      if (i == 0) break;
      continue;
    }
    r = mkIte(mkCmp(KUle, L.soff, arms[i].first), arms[i].second, r);
  }
  if (!r) { viol(s, "unsupported", "empty symbolic read"); return false; }
  out = Val(r);
  return true;
}
static void storeInt(State& s, Loc& L, unsigned nbytes, unsigned w, const Val& v) {
  ObjP o = writable(s, L.o);
  L.o = o;
  if (!L.soff) {
    if (!v.sym() && nbytes <= 8) {
      u64 x = v.c;
      memcpy(&o->b[L.off], &x, nbytes);
      if (!o->s.empty()) for (unsigned i = 0; i < nbytes; i++) o->s[L.off + i] = nullptr;
      return;
    }
    Ex e = mkZExt(toEx(v, w), nbytes * 8);
    for (unsigned i = 0; i < nbytes; i++) o->setByte(L.off + i, mkExtract(e, i * 8, 8));
    return;
  }
  unsigned tz = std::min(trailingZeros(L.soff), 6u);
  u64 step = 1ULL << tz;
  Ex e = mkZExt(toEx(v, w), nbytes * 8);
  for (u64 p = 0; p + nbytes <= o->size; p += step) {
    Ex c = mkCmp(KEq, L.soff, mkConst(p, 64));
    if (isC(c) && !c->val) continue;
    for (unsigned i = 0; i < nbytes; i++) {
      if (!o->s.empty() && o->s[p + i] == UNINIT) {
        ModelP m;
        if (!mayBeTrue(s, c, m)) break;
      }
      Ex old = byteAt(s, o, p + i);
      o = writable(s, o);
      o->setByte(p + i, mkIte(c, mkExtract(e, i * 8, 8), old));
    }
  }
  L.o = o;
}
// aggregates
static bool loadTy(State& s, Loc L, Type* t, Val& out) {
  if (unsigned w = tyW(t)) return loadInt(s, L, DL->getTypeStoreSize(t), w, out);
  out = Val();
  out.agg = std::make_shared<std::vector<Val>>();
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeStoreSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); i++) {
      Loc l = L; if (l.soff) l.soff = mkBin(KAdd, l.soff, mkConst(i * es, 64)); else l.off += i * es;
      Val x; if (!loadTy(s, l, v->getElementType(), x)) return false;
      out.agg->push_back(x);
    }
    return true;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      Loc l = L; u64 o = sl->getElementOffset(i); if (l.soff) l.soff = mkBin(KAdd, l.soff, mkConst(o, 64)); else l.off += o;
      Val x; if (!loadTy(s, l, st->getElementType(i), x)) return false;
      out.agg->push_back(x);
    }
    return true;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) {
      Loc l = L; if (l.soff) l.soff = mkBin(KAdd, l.soff, mkConst(i * es, 64)); else l.off += i * es;
      Val x; if (!loadTy(s, l, at->getElementType(), x)) return false;
      out.agg->push_back(x);
    }
    return true;
  }
  viol(s, "unsupported", "load type");
  return false;
}
static bool storeTy(State& s, Loc& L, Type* t, const Val& v) {
  if (unsigned w = tyW(t)) { storeInt(s, L, DL->getTypeStoreSize(t), w, v); return true; }
  auto sub = [&](u64 o, Type* et, const Val& x) {
    Loc l = L; if (l.soff) l.soff = mkBin(KAdd, l.soff, mkConst(o, 64)); else l.off += o;
    bool r = storeTy(s, l, et, x);
    L.o = l.o;
    return r;
  };
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) if (!sub(i * es, vt->getElementType(), (*v.agg)[i])) return false;
    return true;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) if (!sub(sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i])) return false;
    return true;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) if (!sub(i * es, at->getElementType(), (*v.agg)[i])) return false;
    return true;
  }
  viol(s, "unsupported", "store type");
  return false;
}
static u64 peek64(State& s, u64 a) {   // concrete read used for type information
  ObjP o = findObj(s, a);
  if (!o || a - o->base + 8 > o->size) return 0;
  if (!o->s.empty()) for (int i = 0; i < 8; i++) if (o->s[a - o->base + i]) return 0;
  u64 v; memcpy(&v, &o->b[a - o->base], 8);
  return v;
}
static uint32_t peek32(State& s, u64 a) {
  ObjP o = findObj(s, a);
  if (!o || a - o->base + 4 > o->size) return 0;
  uint32_t v; memcpy(&v, &o->b[a - o->base], 4);
  return v;
}
static std::string peekStr(State& s, u64 a) {
  std::string r;
  for (;;) {
    ObjP o = findObj(s, a);
    if (!o) return r;
    u64 i = a - o->base;
    Ex e = o->byte(i);
    char c = 0;
    if (e == UNINIT) c = '?';
    else c = (char)evalE(e, *s.model);
    if (!c) return r;
    r += c; a++;
    if (r.size() > 4096) return r;
  }
}

// ------------------------------------------------------------ constants and globals
static DFunc* getFunc(const Function* F) {
  auto& p = g_funcs[F];
  if (!p) { p = std::make_unique<DFunc>(); p->F = F; p->name = F->getName().str(); }
  return p.get();
}
static std::map<std::string, const Function*> g_envOverride;   // "read" -> vp_env_read
static const Function* redirect(const Function* F) {
  auto it = g_envOverride.find(F->getName().str());
  if (it != g_envOverride.end() && it->second != F) return it->second;
  return F;
}
static u64 gvAddr(const GlobalValue* gv) {
  auto it = g_gaddr.find(gv);
  if (it != g_gaddr.end()) return it->second;
  if (auto* ga = dyn_cast<GlobalAlias>(gv)) {
    u64 a = gvAddr(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
    g_gaddr[gv] = a;
    return a;
  }
  if (auto* F = dyn_cast<Function>(gv)) {
    const Function* R = redirect(F);
    if (R != F) { u64 a = gvAddr(R); g_gaddr[gv] = a; return a; }
    u64 a = g_fbump; g_fbump += 0x1000;   // every function spans a page of the code address space
    g_gaddr[gv] = a;
    if (!F->isDeclaration()) { auto* d = getFunc(F); d->addr = a; g_funcByAddr[a] = d; }
    else { auto b = g_builtinIdx.find(F->getName().str()); g_builtinByAddr[a] = b == g_builtinIdx.end() ? -1 : b->second; }
    return a;
  }
  auto* g = cast<GlobalVariable>(gv);
  u64 sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 0;
  if (g->isDeclaration() && sz < 256) sz = 256;
  u64 al = std::max<u64>(g->getAlign() ? g->getAlign()->value() : 16, 16);
  u64 a = (g_gbump + al - 1) & ~(al - 1);
  g_gbump = a + sz + GAP;
  g_gaddr[gv] = a;
  auto o = std::make_shared<Object>();
  o->base = a; o->size = sz; o->kind = OGlobal; o->name = g->getName().str();
  o->b.assign(sz, 0);
  o->ro = g->isConstant();
  g_globals[a] = o;
  return a;
}
static Val evalConst(const Constant* c);
static Val aggOf(const Constant* c) {
  Val v; v.agg = std::make_shared<std::vector<Val>>();
  Type* t = c->getType();
  unsigned n = 0;
  if (auto* st = dyn_cast<StructType>(t)) n = st->getNumElements();
  else if (auto* at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
  for (unsigned i = 0; i < n; i++) v.agg->push_back(evalConst(c->getAggregateElement(i)));
  return v;
}
static Val evalConst(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    u128 v = ci->getValue().extractBitsAsZExtValue(64, 0);
    v |= (u128)ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64) << 64;
    return Val(mkConst(v, ci->getBitWidth()));
  }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (auto* gv = dyn_cast<GlobalValue>(c)) return Val(gvAddr(gv));
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isX86_FP80Ty()) {
      APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      return Val(f.bitcastToAPInt().getZExtValue());
    }
    return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (t->isAggregateType() || t->isVectorTy()) return aggOf(c);
    unsigned w = tyW(t);
    if (w > 64) return Val(mkConst(0, w));
    return Val(0);
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c) || isa<ConstantDataSequential>(c)) return aggOf(c);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* gep = cast<GEPOperator>(ce);
        if (!gep->accumulateConstantOffset(*DL, off)) break;
        Val b = evalConst(cast<Constant>(gep->getPointerOperand()));
        return Val(b.c + (u64)off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return evalConst(ce->getOperand(0));
      case Instruction::Sub: return Val((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & (u64)maskw(tyW(t)));
      case Instruction::Add: return Val((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & (u64)maskw(tyW(t)));
      case Instruction::Trunc: return Val(evalConst(ce->getOperand(0)).c & (u64)maskw(tyW(t)));
      case Instruction::ICmp: {
        u64 a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c;
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: return Val((u64)(a == b));
          case CmpInst::ICMP_NE: return Val((u64)(a != b));
          default: break;
        }
        break;
      }
      default: break;
    }
  }
  std::string str; raw_string_ostream os(str); c->print(os);
  incomplete("unsupported constant: " + os.str());
  return Val(0);
}
static void initMem(Object& o, u64 off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cs = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cs->getRawDataValues();
    memcpy(&o.b[off], r.data(), r.size());
    return;
  }
  if (unsigned w = tyW(t)) {
    Val v = evalConst(c);
    u64 n = DL->getTypeStoreSize(t);
    if (w > 64) { u128 x = v.e->val; memcpy(&o.b[off], &x, n); return; }
    memcpy(&o.b[off], &v.c, n);
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  incomplete("unsupported initializer");
}

// ------------------------------------------------------------ decoding
static void decode(DFunc* d) {
  d->decoded = true;
  const Function* F = d->F;
  std::map<const Value*, int> slot;
  int n = 0;
  for (auto& a : F->args()) slot[&a] = n++;
  std::map<const BasicBlock*, int> bidx;
  int nb = 0;
  for (auto& bb : *F) {
    bidx[&bb] = nb++;
    for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++;
  }
  d->nslots = n;
  d->blocks.resize(nb);
  auto operand = [&](const Value* v) {
    Operand o;
    auto it = slot.find(v);
    if (it != slot.end()) { o.slot = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) o.cv = evalConst(c);
    return o;
  };
  for (auto& bb : *F) {
    DBlock& B = d->blocks[bidx[&bb]];
    for (auto* p : predecessors(&bb)) { int pi = bidx[p]; if (std::find(B.preds.begin(), B.preds.end(), pi) == B.preds.end()) B.preds.push_back(pi); }
    for (auto& I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DInst D;
      D.I = &I;
      D.op = I.getOpcode();
      auto it = slot.find(&I);
      if (it != slot.end()) D.dst = it->second;
      D.w = tyW(I.getType());
      switch (I.getOpcode()) {
        case Instruction::PHI: {
          auto& P = cast<PHINode>(I);
          B.nphi++;
          D.phiIn.resize(B.preds.size());
          for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
            int pi = bidx[P.getIncomingBlock(i)];
            for (size_t k = 0; k < B.preds.size(); k++) if (B.preds[k] == pi) D.phiIn[k] = {operand(P.getIncomingValue(i))};
          }
          break;
        }
        case Instruction::Br: {
          auto& br = cast<BranchInst>(I);
          if (br.isConditional()) D.ops.push_back(operand(br.getCondition()));
          D.b0 = bidx[br.getSuccessor(0)];
          if (br.isConditional()) D.b1 = bidx[br.getSuccessor(1)];
          break;
        }
        case Instruction::Switch: {
          auto& sw = cast<SwitchInst>(I);
          D.ops.push_back(operand(sw.getCondition()));
          D.w = tyW(sw.getCondition()->getType());
          D.b0 = bidx[sw.getDefaultDest()];
          for (auto& c : sw.cases()) D.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]});
          break;
        }
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(I);
          D.ops.push_back(operand(g.getPointerOperand()));
          for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
            Value* ix = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) {
              D.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              u64 es = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix)) D.gepConst += es * (u64)ci->getSExtValue();
              else {
                D.ops.push_back(operand(ix));
                D.gepVar.push_back({(int)D.ops.size() - 1, es});
                D.cases.push_back({tyW(ix->getType()), 0});
              }
            }
          }
          break;
        }
        case Instruction::Invoke: {
          auto& iv = cast<InvokeInst>(I);
          D.b0 = bidx[iv.getNormalDest()];
          D.b1 = bidx[iv.getUnwindDest()];
          [[fallthrough]];
        }
        case Instruction::Call: {
          auto& cb = cast<CallBase>(I);
          for (auto& a : cb.args()) {
            if (a->getType()->isMetadataTy()) D.ops.push_back(Operand());
            else D.ops.push_back(operand(a));
          }
          const Value* cv = cb.getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
          if (auto* CF = dyn_cast<Function>(cv)) {
            const Function* R = redirect(CF);
            if (R->isDeclaration()) {
              auto b = g_builtinIdx.find(R->getName().str());
              D.builtin = b == g_builtinIdx.end() ? -2 : b->second;
            } else {
              auto b = g_builtinIdx.find("!" + R->getName().str());   // forced override
              if (b != g_builtinIdx.end()) D.builtin = b->second;
              else D.callee = getFunc(R);
            }
          } else D.ops.push_back(operand(cb.getCalledOperand()));
          break;
        }
        case Instruction::Alloca:
          D.size = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType());
          for (auto& o : I.operands()) D.ops.push_back(operand(o));
          break;
        case Instruction::ExtractValue: case Instruction::InsertValue:
        default:
          for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) D.ops.push_back(operand(o)); else D.ops.push_back(Operand());
          break;
      }
      B.insts.push_back(std::move(D));
    }
  }
}

// ------------------------------------------------------------ frames
static inline const Val& opv(Frame& f, const Operand& o) { return o.slot >= 0 ? f.regs[o.slot] : o.cv; }
static void gotoBlock(State& s, Frame& f, int b) {
  f.prevbb = f.bb;
  f.bb = b;
  f.ip = 0;
  DBlock& B = f.f->blocks[b];
  if (B.nphi) {
    size_t k = 0;
    while (k < B.preds.size() && B.preds[k] != f.prevbb) k++;
    std::vector<Val> tmp;
    for (int i = 0; i < B.nphi; i++) tmp.push_back(opv(f, B.insts[i].phiIn[k][0]));
    for (int i = 0; i < B.nphi; i++) f.regs[B.insts[i].dst] = tmp[i];
    f.ip = B.nphi;
  }
}
static std::set<DFunc*> R_hit;
static std::set<std::pair<std::string, std::string>> inlinedIn(DFunc* d) {
  std::set<std::pair<std::string, std::string>> r;
  for (auto& B : d->blocks) for (auto& D : B.insts) if (const DebugLoc& dl = D.I->getDebugLoc())
    for (const DILocation* l = dl.get(); l && l->getInlinedAt(); l = l->getInlinedAt())
      if (auto* sp = l->getScope()->getSubprogram()) r.insert({sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str(), sp->getFilename().str()});
  return r;
}
static void pushFrame(State& s, DFunc* d, const std::vector<Val>& args, int retKind = 0, u64 retArg = 0) {
  if (!d->decoded) decode(d);
  if (!d->hit) { d->hit = true; R_hit.insert(d); }
  auto f = std::make_shared<Frame>();
  f->f = d;
  f->regs.resize(d->nslots);
  size_t na = d->F->arg_size();
  for (size_t i = 0; i < na && i < args.size(); i++) f->regs[i] = args[i];
  for (size_t i = na; i < args.size(); i++) f->varargs.push_back(args[i]);
  f->retKind = retKind;
  f->retArg = retArg;
  s.stack.push_back(f);
  if (s.stack.size() > 4000) { viol(s, "stack-overflow", "recursion deeper than 4000 frames"); }
}
static void popFrame(State& s) {
  Frame& f = *s.stack.back();
  for (u64 a : f.allocas) s.mem.erase(a);
  s.stack.pop_back();
}
static void setResult(State& s, const DInst& D, const Val& v) {
  if (D.dst >= 0) top(s).regs[D.dst] = v;
}
// advance the top frame past the call/invoke instruction it is at
static void advance(State& s) {
  Frame& f = top(s);
  DInst& D = f.f->blocks[f.bb].insts[f.ip];
  if (D.op == Instruction::Invoke) gotoBlock(s, f, D.b0);
  else f.ip++;
}

// ------------------------------------------------------------ exceptions
static std::map<u64, int> g_selector;
static int selectorFor(u64 ti) {
  auto it = g_selector.find(ti);
  if (it != g_selector.end()) return it->second;
  int n = g_selector.size() + 1;
  g_selector[ti] = n;
  return n;
}
static u64 g_vtClass, g_vtSi, g_vtVmi, g_vtFund, g_vtPtr;
static u64 symAddr(const char* n) {
  if (auto* g = M->getNamedValue(n)) return gvAddr(g);
  return 0;
}
static std::string tiName(State& s, u64 ti) { return peekStr(s, peek64(s, ti + 8)); }
static bool tiEq(State& s, u64 a, u64 b) { return a == b || (a && b && tiName(s, a) == tiName(s, b)); }
// is `base` an unambiguous-enough public base of `der`?  off: offset of base inside der
static bool upcast(State& s, u64 der, u64 base, long& off) {
  if (tiEq(s, der, base)) { off = 0; return true; }
  u64 vt = peek64(s, der);
  if (g_vtSi && vt == g_vtSi + 16) { return upcast(s, peek64(s, der + 16), base, off); }
  if (g_vtVmi && vt == g_vtVmi + 16) {
    uint32_t n = peek32(s, der + 20);
    for (uint32_t i = 0; i < n; i++) {
      u64 bt = peek64(s, der + 24 + 16 * i);
      long fl = (long)peek64(s, der + 24 + 16 * i + 8);
      long o2;
      if (upcast(s, bt, base, o2)) {
        if (fl & 1) { incomplete("virtual base in exception type"); return false; }
        off = (fl >> 8) + o2;
        return true;
      }
    }
  }
  return false;
}
static St callDtorAndFree(State& s, u64 hdr);
static St doTerminate(State& s, const std::string& why) {
  if (s.expectTerminate) { s.covers.insert("terminate"); return DEAD; }
  viol(s, "terminate", why);
  return DEAD;
}
// Custom type-info objects (vtable not one of the ABI ones) get their __do_catch called once per catch clause during
// the search phase; results are remembered per propagation in s.tag.
static bool customTI(State& s, u64 ti) {
  u64 vt = peek64(s, ti);
  for (u64 k : {g_vtClass, g_vtSi, g_vtVmi, g_vtFund, g_vtPtr}) if (k && vt == k + 16) return false;
  return vt != 0;
}
static int catchMatch(State& s, const ExcInfo& x, u64 ti, u64& adj) {
  long off = 0;
  adj = x.obj;
  if (ti == 0) return 1;
  if (upcast(s, x.ti, ti, off)) { adj = x.obj + off; return 1; }
  return 0;
}
struct UnwindPos { int frame; unsigned clause; };
// propagate exception hdr starting at frame index `from` (top of stack). Two phases as in the Itanium ABI.
static St unwind(State& s, u64 hdr, bool resume = false) {
  auto it = s.excs.find(hdr);
  if (it == s.excs.end()) { viol(s, "unsupported", "unknown exception object"); return DEAD; }
  ExcInfo x = it->second;
  s.unwinding = hdr;
  // phase 1 (search). tag[hdr+1] = packed resume position when a custom __do_catch call is outstanding
  int startF = (int)s.stack.size() - 1; unsigned startC = 0;
  auto pend = s.tag.find(hdr + 1);
  if (pend != s.tag.end()) { startF = (int)(pend->second >> 16); startC = pend->second & 0xffff; s.tag.erase(pend); }
  bool found = resume;   // resuming after a cleanup continues phase 2, nothing is searched again
  u64 resultTag = hdr + 2;
  for (int i = startF; i >= 0 && !found; i--) {
    Frame& f = *s.stack[i];
    DInst& D = f.f->blocks[f.bb].insts[f.ip];
    if (f.retKind == 1) continue;
    if (D.op != Instruction::Invoke) { startC = 0; continue; }
    auto* LP = cast<InvokeInst>(D.I)->getLandingPadInst();
    for (unsigned c = (i == startF ? startC : 0); c < LP->getNumClauses(); c++) {
      if (!LP->isCatch(c)) { continue; }
      u64 ti = evalConst(cast<Constant>(LP->getClause(c))).c;
      if (ti && customTI(s, ti)) {
        // virtual call  bool __do_catch(const type_info* thrown, void** obj, unsigned outer)
        u64 fn = peek64(s, peek64(s, ti) + 4 * 8);
        auto fi = g_funcByAddr.find(fn);
        if (fi == g_funcByAddr.end()) { viol(s, "unsupported", "type info with unknown vtable"); return DEAD; }
        u64 nc = c + 1;
        s.tag[hdr + 1] = ((u64)i << 16) | nc;
        // scratch pointer cell
        ObjP cell = newObj(s, 8, OHeap, "thrown_ptr");
        cell->s.clear(); memcpy(&cell->b[0], &x.obj, 8);
        pushFrame(s, fi->second, {Val(ti), Val(x.ti), Val(cell->base), Val(1)}, 1, hdr);
        s.tag[hdr + 3] = ti;
        return JUMP;
      }
      u64 adj;
      if (catchMatch(s, x, ti, adj)) { found = true; break; }
    }
    startC = 0;
  }
  if (!found) return doTerminate(s, "uncaught exception of type " + tiName(s, x.ti));
  (void)resultTag;
  // phase 2
  for (;;) {
    if (s.stack.empty()) { viol(s, "unsupported", "unwound past entry"); return DEAD; }
    Frame& f = top(s);
    DInst& D = f.f->blocks[f.bb].insts[f.ip];
    if (D.op == Instruction::Invoke && f.retKind != 1) {
      auto* LP = cast<InvokeInst>(D.I)->getLandingPadInst();
      int sel = -1;
      for (unsigned c = 0; c < LP->getNumClauses(); c++) {
        if (!LP->isCatch(c)) continue;
        u64 ti = evalConst(cast<Constant>(LP->getClause(c))).c;
        if (ti && customTI(s, ti)) continue;
        u64 adj;
        if (catchMatch(s, x, ti, adj)) { sel = selectorFor(ti); s.tag[hdr + 4] = adj; break; }
      }
      if (sel >= 0 || LP->isCleanup()) {
        gotoBlock(s, f, D.b1);
        // execute the landingpad here: it is the first non-phi
        DInst& L = f.f->blocks[f.bb].insts[f.ip];
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(Val(hdr)); v.agg->push_back(Val((u64)(sel >= 0 ? sel : 0)));
        f.regs[L.dst] = v;
        f.ip++;
        return JUMP;
      }
    }
    popFrame(s);
  }
}
static St throwTI(State& s, u64 obj, u64 ti, u64 dtor) {
  ExcInfo x; x.obj = obj; x.ti = ti; x.dtor = dtor; x.refs = 1;
  s.excs[obj] = x;
  s.uncaught++;
  return unwind(s, obj);
}
static void freeExc(State& s, u64 a) { s.mem.erase(a); s.excs.erase(a); }
// drop a reference to the primary exception object
static void releaseExc(State& s, u64 obj) {
  auto it = s.excs.find(obj);
  if (it == s.excs.end()) { viol(s, "memory", "release of unknown exception object"); return; }
  if (--it->second.refs > 0) return;
  u64 dtor = it->second.dtor;
  auto fi = g_funcByAddr.find(dtor);
  if (dtor && fi != g_funcByAddr.end()) pushFrame(s, fi->second, {Val(obj)}, 2, obj);
  else freeExc(s, obj);
}

// ------------------------------------------------------------ builtins
#define B(name) static St name(State& s, DInst& D, std::vector<Val>& a, Val& ret)
static u64 argc_(State&, Val& v) { return v.c; }

static bool doAlloc(State& s, Val size, uint8_t kind, Val& ret, const char* nm) {
  // failure injection
  if (s.failArmed && s.failBudget > 0) {
    if (s.choice < 0) {
      uint32_t k = s.made.size();
      extern uint32_t madeVar(State&, unsigned, const std::string&);
      uint32_t v = madeVar(s, 1, "alloc_fail");
      (void)k;
      Ex e = mkVar(v);
      // both values are feasible: fresh variable
      auto n = cloneState(s);
      n->choice = 1;
      n->cons.push_back(e);
      auto m = std::make_shared<Model>(*s.model);
      if (m->v.size() <= v) m->v.resize(v + 1, 0);
      auto m0 = std::make_shared<Model>(*m);
      m->v[v] = 1; m0->v[v] = 0;
      n->model = m; s.model = m0;
      s.cons.push_back(mkNot(e));
      R_forks++;
      work.push_back(std::move(n));
      s.choice = 0;
    }
    int c = s.choice;
    s.choice = -1;
    if (c == 1) { s.failBudget--; ret = Val(0); return true; }
  }
  u64 cap;
  Ex symSize = nullptr;
  if (size.sym()) {
    int big = decide(s, mkCmp(KUlt, mkConst(s.allocLimit, 64), size.e));
    if (big < 0) return false;
    if (big) { ret = Val(0); return true; }
    if (s.allocLimit <= 8192) { cap = s.allocLimit; symSize = size.e; }
    else {
      // find a small cap
      cap = 4096;
      int b2 = decide(s, mkCmp(KUlt, mkConst(cap, 64), size.e));
      if (b2 < 0) return false;
      if (b2) { viol(s, "unsupported", "symbolic allocation above 4096 bytes"); return false; }
      symSize = size.e;
    }
    ModelP m;
    // shrink the capacity to what is feasible
    while (cap > 16 && !mayBeTrue(s, mkCmp(KUlt, mkConst(cap / 2, 64), size.e), m)) cap /= 2;
  } else {
    cap = size.c;
    if (cap > s.allocLimit) { ret = Val(0); return true; }
  }
  ObjP o = newObj(s, cap, OHeap, nm);
  o->alloc = kind;
  o->symSize = symSize;
  s.liveAllocs++;
  s.totalAllocs++;
  ret = Val(o->base);
  return true;
}
uint32_t madeVar(State& s, unsigned w, const std::string& name) {
  static std::map<std::pair<u64, std::string>, uint32_t> tab;
  u64 key = ((u64)s.made.size() << 16) | w;
  auto k = std::make_pair(key, name);
  auto it = tab.find(k);
  uint32_t v;
  if (it == tab.end()) { v = newVar(name, w); tab[k] = v; }
  else v = it->second;
  s.made.push_back(v);
  s.madeNames.push_back(name);
  return v;
}
static bool doFree(State& s, Val p, uint8_t kind) {
  u64 a;
  if (!concretize(s, p, 64, a)) return false;
  if (!a) return true;
  auto it = s.mem.find(a);
  if (it == s.mem.end() || it->second->kind != OHeap || !it->second->alloc) {
    viol(s, "memory", "free of a pointer that is not a live heap block (double free or wild free)");
    return false;
  }
  if (it->second->alloc != kind) { viol(s, "memory", "mismatched allocation and release functions"); return false; }
  s.mem.erase(it);
  s.liveAllocs--;
  return true;
}
#define ALLOC(fn, kind, nm) B(fn) { return doAlloc(s, a[0], kind, ret, nm) ? CONT : DEAD; }
ALLOC(b_new, 'n', "new") ALLOC(b_newa, 'a', "new[]") ALLOC(b_malloc, 'm', "malloc")
#define FREE(fn, kind) B(fn) { return doFree(s, a[0], kind) ? CONT : DEAD; }
FREE(b_del, 'n') FREE(b_dela, 'a') FREE(b_free, 'm')

// copies; symbolic length handled by conditional bytes
static bool copyMem(State& s, Val d, Val sr, Val len) {
  if (len.sym() && !isC(len.e)) {
    bool ok = !d.sym() && !sr.sym();
    ObjP od = ok ? findObj(s, d.c) : nullptr, os = ok ? findObj(s, sr.c) : nullptr;
    if (od && os && od->base + od->size - d.c <= 8192) {
      u64 cap = std::min(od->base + od->size - d.c, os->base + os->size - sr.c);
      Ex inb = mkCmp(KUle, len.e, mkConst(cap, 64));
      if (od->symSize) inb = mkAnd1(inb, mkCmp(KUle, mkBin(KAdd, len.e, mkConst(d.c - od->base, 64)), od->symSize));
      if (os->symSize) inb = mkAnd1(inb, mkCmp(KUle, mkBin(KAdd, len.e, mkConst(sr.c - os->base, 64)), os->symSize));
      int r = decide(s, inb);
      if (r < 0) return false;
      if (!r) { viol(s, "memory", "copy of symbolic length runs outside " + objDesc(od) + " or " + objDesc(os)); return false; }
      ModelP mm;
      while (cap > 1 && !mayBeTrue(s, mkCmp(KUlt, mkConst(cap / 2, 64), len.e), mm)) cap /= 2;
      std::vector<Ex> src;
      for (u64 i = 0; i < cap; i++) src.push_back(byteAt(s, os, sr.c - os->base + i));
      ObjP w = writable(s, od);
      if (w->ro) { viol(s, "memory", "copy into read-only memory"); return false; }
      for (u64 i = 0; i < cap; i++) {
        u64 p = d.c - w->base + i;
        Ex old = (!w->s.empty() && w->s[p] == UNINIT) ? readUninit(s) : w->byte(p);
        w = writable(s, w);
        w->setByte(p, mkIte(mkCmp(KUlt, mkConst(i, 64), len.e), src[i], old));
      }
      return true;
    }
  }
  u64 n;
  if (!concretize(s, len, 64, n)) return false;
  if (n == 0) return true;
  Loc L, W;
  if (!resolve(s, sr, n, false, L)) return false;
  if (!resolve(s, d, n, true, W)) return false;
  if (L.soff) { u64 v; if (!concretize(s, Val(L.soff), 64, v)) return false; L.off = v; L.soff = nullptr; }
  if (W.soff) { u64 v; if (!concretize(s, Val(W.soff), 64, v)) return false; W.off = v; W.soff = nullptr; }
  ObjP w = writable(s, W.o);
  Object& src = L.o->base == w->base ? *w : *L.o;
  std::vector<uint8_t> tb(src.b.begin() + L.off, src.b.begin() + L.off + n);
  std::vector<Ex> ts;
  if (!src.s.empty()) ts.assign(src.s.begin() + L.off, src.s.begin() + L.off + n);
  memcpy(&w->b[W.off], tb.data(), n);
  if (!ts.empty()) {
    if (w->s.empty()) w->s.assign(w->size, nullptr);
    std::copy(ts.begin(), ts.end(), w->s.begin() + W.off);
  } else if (!w->s.empty()) std::fill(w->s.begin() + W.off, w->s.begin() + W.off + n, nullptr);
  return true;
}
static bool setMem(State& s, Val d, Val c, Val len) {
  Ex cb = c.sym() ? mkExtract(c.e, 0, 8) : mkConst(c.c, 8);
  if (len.sym() && !isC(len.e) && !d.sym()) {
    ObjP od = findObj(s, d.c);
    if (od && od->base + od->size - d.c <= 8192) {
      u64 cap = od->base + od->size - d.c;
      Ex inb = mkCmp(KUle, len.e, mkConst(cap, 64));
      if (od->symSize) inb = mkAnd1(inb, mkCmp(KUle, mkBin(KAdd, len.e, mkConst(d.c - od->base, 64)), od->symSize));
      int r = decide(s, inb);
      if (r < 0) return false;
      if (!r) { viol(s, "memory", "fill of symbolic length runs outside " + objDesc(od)); return false; }
      ObjP w = writable(s, od);
      for (u64 i = 0; i < cap; i++) {
        u64 p = d.c - w->base + i;
        Ex lt = mkCmp(KUlt, mkConst(i, 64), len.e);
        if (!w->s.empty() && w->s[p] == UNINIT) {
          // bytes beyond the symbolic length of a fresh block can never be read in bounds
          w->setByte(p, od->symSize ? cb : mkIte(lt, cb, readUninit(s)));
        } else w->setByte(p, mkIte(lt, cb, w->byte(p)));
        w = writable(s, w);
      }
      return true;
    }
  }
  u64 n;
  if (!concretize(s, len, 64, n)) return false;
  if (n == 0) return true;
  Loc W;
  if (!resolve(s, d, n, true, W)) return false;
  if (W.soff) { u64 v; if (!concretize(s, Val(W.soff), 64, v)) return false; W.off = v; W.soff = nullptr; }
  ObjP w = writable(s, W.o);
  if (isC(cb)) {
    memset(&w->b[W.off], (int)cb->val, n);
    if (!w->s.empty()) std::fill(w->s.begin() + W.off, w->s.begin() + W.off + n, nullptr);
  } else for (u64 i = 0; i < n; i++) w->setByte(W.off + i, cb);
  return true;
}
B(b_memcpy) { if (!copyMem(s, a[0], a[1], a[2])) return DEAD; ret = a[0]; return CONT; }
B(b_memset) { if (!setMem(s, a[0], a[1], a[2])) return DEAD; ret = a[0]; return CONT; }
// memcmp == 0 fast path used by equality: full result by byte-wise ite
B(b_memcmp) {
  u64 n;
  if (!concretize(s, a[2], 64, n)) return DEAD;
  if (n == 0) { ret = Val(0); return CONT; }
  Loc L, R;
  if (!resolve(s, a[0], n, false, L) || !resolve(s, a[1], n, false, R)) return DEAD;
  u64 v;
  if (L.soff) { if (!concretize(s, Val(L.soff), 64, v)) return DEAD; L.off = v; }
  if (R.soff) { if (!concretize(s, Val(R.soff), 64, v)) return DEAD; R.off = v; }
  Ex r = mkConst(0, 32);
  for (u64 i = n; i-- > 0;) {
    Ex x = byteAt(s, L.o, L.off + i), y = byteAt(s, R.o, R.off + i);
    Ex ne = mkNot(mkCmp(KEq, x, y));
    Ex lt = mkIte(mkCmp(KUlt, x, y), mkConst(~(u128)0, 32), mkConst(1, 32));
    r = mkIte(ne, lt, r);
  }
  ret = Val(r);
  return CONT;
}
B(b_nop) { ret = Val(0); return CONT; }
B(b_ret1) { ret = Val(1); return CONT; }

// harness API
B(b_sym_make) {
  u64 p = a[0].c, n = a[1].c;
  std::string nm = peekStr(s, a[2].c);
  Loc L;
  if (!resolve(s, Val(p), n, true, L)) return DEAD;
  ObjP w = writable(s, L.o);
  for (u64 i = 0; i < n; i++) {
    uint32_t v = madeVar(s, 8, nm);
    w->setByte(L.off + i, mkVar(v));
  }
  return CONT;
}
template <unsigned W> static St b_sym_int(State& s, DInst& D, std::vector<Val>& a, Val& ret) {
  std::string nm = peekStr(s, a[0].c);
  uint32_t v = madeVar(s, W, nm);
  ret = Val(mkVar(v));
  if (D.w && D.w != W) ret = Val(mkZExt(ret.e, D.w));
  return CONT;
}
B(b_sym_assume) {
  Ex c = toEx(a[0], tyW(cast<CallBase>(D.I)->getArgOperand(0)->getType()));
  if (c->w != 1) c = mkNot(mkCmp(KEq, c, mkConst(0, c->w)));
  if (isC(c)) { if (!c->val) { R_assumed++; return DEAD; } return CONT; }
  ModelP m;
  if (!mayBeTrue(s, c, m)) { R_assumed++; return DEAD; }
  s.model = m;
  addCons(s, c);
  return CONT;
}
B(b_sym_assert) {
  Ex c = toEx(a[0], tyW(cast<CallBase>(D.I)->getArgOperand(0)->getType()));
  std::string msg = peekStr(s, a[1].c);
  if (c->w != 1) c = mkNot(mkCmp(KEq, c, mkConst(0, c->w)));
  g_ss.asserts++;
  if (isC(c)) { if (!c->val) { viol(s, "assert", msg); return DEAD; } return CONT; }
  if (c->undef && O.checkUninit) { if (undefMatters(s, c)) { undefUse(s, ("assertion: " + msg).c_str()); return DEAD; } if (isC(c)) { if (!c->val) { viol(s, "assert", msg); return DEAD; } return CONT; } }
  ModelP m;
  if (mayBeTrue(s, mkNot(c), m)) {
    violation(s, "assert", msg, m);
    ModelP m2;
    if (!mayBeTrue(s, c, m2)) return DEAD;
    s.model = m2;
  }
  addCons(s, c);
  return CONT;
}
B(b_sym_cover) { std::string m = peekStr(s, a[0].c); s.covers.insert(m); R_covers.insert(m); return CONT; }
B(b_sym_concretize) { u64 v; if (!concretize(s, a[0], 64, v)) return DEAD; ret = Val(v); return CONT; }
B(b_sym_note) { s.trace.push_back(peekStr(s, a[0].c)); return CONT; }
B(b_sym_fail) { viol(s, "assert", peekStr(s, a[0].c)); return DEAD; }
B(b_sym_live) { ret = Val(s.liveAllocs); return CONT; }
B(b_sym_total) { ret = Val(s.totalAllocs); return CONT; }
B(b_sym_limit) { s.allocLimit = a[0].c; return CONT; }
B(b_sym_failarm) { s.failArmed = a[0].c != 0; s.failBudget = (int)a[0].c; return CONT; }
B(b_sym_failleft) { ret = Val((u64)s.failBudget); return CONT; }
B(b_sym_issym) { ret = Val((u64)(a[0].sym() ? 1 : 0)); return CONT; }
B(b_sym_end) { return DEAD; }
B(b_sym_expect_terminate) { s.expectTerminate = a[0].c != 0; return CONT; }
B(b_sym_print) { if (O.verbose) fprintf(stderr, "[note] %s\n", peekStr(s, a[0].c).c_str()); return CONT; }
B(b_sym_print_u64) { if (O.verbose) { if (a[1].sym()) fprintf(stderr, "[note] %s = %s\n", peekStr(s, a[0].c).c_str(), exprStr(a[1].e).c_str()); else fprintf(stderr, "[note] %s = %llu\n", peekStr(s, a[0].c).c_str(), (unsigned long long)a[1].c); } return CONT; }
B(b_sym_depth) {  // frames between the caller of this builtin and the first frame whose function name contains a[0]
  std::string nm = peekStr(s, a[0].c);
  u64 n = 0;
  for (int i = (int)s.stack.size() - 1; i >= 0; i--) {
    if (s.stack[i]->f->name.find(nm) != std::string::npos) { ret = Val(n); return CONT; }
    n++;
  }
  ret = Val(n);
  return CONT;
}
B(b_sym_valid) {  // is [p,p+n) inside a live object
  u64 p, n;
  if (!concretize(s, a[0], 64, p) || !concretize(s, a[1], 64, n)) return DEAD;
  ObjP o = findObj(s, p);
  ret = Val((u64)(o && p - o->base + n <= o->size));
  return CONT;
}
// the ABI's match of a thrown type against a handler type
B(b_type_match) {
  long off = 0;
  bool m = upcast(s, a[0].c, a[1].c, off);
  ret = Val((u64)m);
  return CONT;
}
// page protection: objects wholly inside [addr, addr+len) become writable with PROT_WRITE and read-only without it
B(b_sym_mprotect) {
  u64 lo = a[0].c, hi = lo + a[1].c; bool w = a[2].c & 2;
  std::vector<ObjP> hit;
  for (auto it = s.mem.lower_bound(lo); it != s.mem.end() && it->first < hi; ++it) hit.push_back(it->second);
  for (auto it = g_globals.lower_bound(lo); it != g_globals.end() && it->first < hi; ++it) if (!s.mem.count(it->first)) hit.push_back(it->second);
  for (auto& o : hit) if (o->base + o->size <= hi && o->ro == w) { ObjP n = writable(s, o); n->ro = !w; }
  return CONT;
}
B(b_sym_writable) { ObjP o = findObj(s, a[0].c); ret = Val((u64)(o && !o->ro)); return CONT; }
B(b_abort) { return doTerminate(s, "abort() called"); }
B(b_terminate) { return doTerminate(s, "std::terminate() called"); }
B(b_call_terminate) { return doTerminate(s, "exception escaped from a noexcept function (std::terminate)"); }
B(b_exit) { s.covers.insert("exit"); viol(s, "terminate", "exit() called"); return DEAD; }
B(b_unreachable) { viol(s, "ub", "unreachable code reached"); return DEAD; }

// exception ABI
B(b_cxa_alloc) { ObjP o = newObj(s, a[0].c, OExc, "exception"); ret = Val(o->base); return CONT; }
B(b_cxa_freeexc) { s.mem.erase(a[0].c); s.excs.erase(a[0].c); return CONT; }
B(b_cxa_throw) { return throwTI(s, a[0].c, a[1].c, a[2].c); }
B(b_cxa_begin) {
  u64 h = a[0].c;
  auto it = s.excs.find(h);
  if (it == s.excs.end()) { viol(s, "unsupported", "begin_catch of unknown exception"); return DEAD; }
  ExcInfo& x = it->second;
  if (x.handlers < 0) x.handlers = -x.handlers + 1;
  else x.handlers++;
  if (s.caught.empty() || s.caught.back() != h) s.caught.push_back(h);
  s.uncaught--;
  auto t = s.tag.find(h + 4);
  ret = Val(t != s.tag.end() ? t->second : x.obj);
  if (t == s.tag.end() || x.dependent) { if (t == s.tag.end()) ret = Val(x.obj); }
  return CONT;
}
B(b_cxa_end) {
  if (s.caught.empty()) return CONT;
  u64 h = s.caught.back();
  ExcInfo& x = s.excs[h];
  if (x.handlers < 0) { if (++x.handlers == 0) s.caught.pop_back(); return CONT; }
  if (--x.handlers > 0) return CONT;
  s.caught.pop_back();
  s.tag.erase(h + 4);
  u64 prim = x.obj;
  if (x.dependent) { s.excs.erase(h); s.mem.erase(h); }
  // finish this instruction before running the destructor
  advance(s);
  releaseExc(s, prim);
  return JUMP;
}
B(b_cxa_rethrow) {
  if (s.caught.empty()) return doTerminate(s, "rethrow without active exception");
  u64 h = s.caught.back();
  ExcInfo& x = s.excs[h];
  x.handlers = -x.handlers;
  s.uncaught++;
  return unwind(s, h);
}
B(b_cxa_get_ptr) { auto it = s.tag.find(a[0].c + 4); ret = it != s.tag.end() ? Val(it->second) : Val(s.excs[a[0].c].obj); return CONT; }
B(b_current_exception) {  // returns by sret
  u64 obj = 0;
  if (!s.caught.empty()) { obj = s.excs[s.caught.back()].obj; s.excs[obj].refs++; }
  Loc L;
  if (!resolve(s, a[0], 8, true, L)) return DEAD;
  storeInt(s, L, 8, 64, Val(obj));
  return CONT;
}
B(b_eptr_addref) { u64 obj = 0; Loc L; Val v; if (!resolve(s, a[0], 8, false, L) || !loadInt(s, L, 8, 64, v)) return DEAD; obj = v.c; if (obj) s.excs[obj].refs++; return CONT; }
B(b_eptr_release) {
  Loc L; Val v;
  if (!resolve(s, a[0], 8, false, L) || !loadInt(s, L, 8, 64, v)) return DEAD;
  if (!v.c) return CONT;
  if (!resolve(s, a[0], 8, true, L)) return DEAD;
  storeInt(s, L, 8, 64, Val(0));
  advance(s);
  releaseExc(s, v.c);
  return JUMP;
}
B(b_eptr_get) { Loc L; if (!resolve(s, a[0], 8, false, L) || !loadInt(s, L, 8, 64, ret)) return DEAD; return CONT; }
B(b_rethrow_exception) {
  Loc L; Val v;
  if (!resolve(s, a[0], 8, false, L) || !loadInt(s, L, 8, 64, v)) return DEAD;
  if (!v.c) return doTerminate(s, "rethrow of null exception_ptr");
  ObjP o = newObj(s, 16, OExc, "dependent exception");
  ExcInfo x = s.excs[v.c];
  s.excs[v.c].refs++;
  x.refs = 1; x.handlers = 0; x.dependent = true;
  s.excs[o->base] = x;
  s.uncaught++;
  return unwind(s, o->base);
}
B(b_uncaught) { ret = Val((u64)s.uncaught); return CONT; }
B(b_uncaughtb) { ret = Val((u64)(s.uncaught > 0)); return CONT; }
B(b_init_primary) { ExcInfo x; x.obj = a[0].c; x.ti = a[1].c; x.dtor = a[2].c; x.refs = 0; s.excs[x.obj] = x; ret = a[0]; return CONT; }
B(b_cur_exc_type) { ret = Val(s.caught.empty() ? 0 : s.excs[s.caught.back()].ti); return CONT; }
B(b_dynamic_cast) {
  u64 p;
  if (!concretize(s, a[0], 64, p)) return DEAD;
  ret = Val(0);
  if (!p) return CONT;
  Loc L; Val vt;
  if (!resolve(s, Val(p), 8, false, L) || !loadInt(s, L, 8, 64, vt)) return DEAD;
  u64 mdti = peek64(s, vt.c - 8);
  long top = (long)peek64(s, vt.c - 16), off;
  if (upcast(s, mdti, a[2].c, off)) ret = Val(p + top + off);
  return CONT;
}
B(b_guard_acquire) { Loc L; Val v; if (!resolve(s, a[0], 1, false, L) || !loadInt(s, L, 1, 8, v)) return DEAD; ret = Val((u64)(v.c == 0)); return CONT; }
B(b_guard_release) { Loc L; if (!resolve(s, a[0], 1, true, L)) return DEAD; storeInt(s, L, 1, 8, Val(1)); return CONT; }
// mutexes: state 0/1 in tag table keyed by address; locksHeld for discipline checks
B(b_mutex_lock) {
  u64 m = a[0].c;
  for (u64 h : s.locksHeld) if (h == m) { viol(s, "deadlock", "mutex locked twice by the same thread"); return DEAD; }
  s.locksHeld.push_back(m);
  s.tag[~1ULL]++;
  ret = Val(0);
  return CONT;
}
B(b_mutex_unlock) {
  u64 m = a[0].c;
  auto it = std::find(s.locksHeld.begin(), s.locksHeld.end(), m);
  if (it == s.locksHeld.end()) { viol(s, "deadlock", "unlock of a mutex that is not held"); return DEAD; }
  s.locksHeld.erase(it);
  ret = Val(0);
  return CONT;
}
B(b_locks_held) { ret = Val(s.locksHeld.size()); return CONT; }
B(b_lock_count) { ret = Val(s.tag[~1ULL]); return CONT; }
B(b_symbol_name) { ret = Val(0); return CONT; }

static void reg(const char* n, BFn f) { g_builtinIdx[n] = g_builtins.size(); g_builtins.push_back({n, f}); }
static void registerBuiltins() {
  reg("__sym_new", b_new); reg("__sym_new_array", b_newa); reg("__sym_malloc", b_malloc);
  reg("__sym_delete", b_del); reg("__sym_delete_array", b_dela); reg("free", b_free); reg("malloc", b_malloc);
  reg("memcpy", b_memcpy); reg("memmove", b_memcpy); reg("memset", b_memset); reg("memcmp", b_memcmp); reg("bcmp", b_memcmp);
  reg("sym_make", b_sym_make); reg("sym_u64", b_sym_int<64>); reg("sym_u32", b_sym_int<32>); reg("sym_u16", b_sym_int<16>);
  reg("sym_u8", b_sym_int<8>); reg("sym_bool", b_sym_int<1>);
  reg("sym_assume", b_sym_assume); reg("sym_assert", b_sym_assert); reg("sym_cover", b_sym_cover); reg("sym_fail", b_sym_fail);
  reg("sym_concretize", b_sym_concretize); reg("sym_note", b_sym_note); reg("sym_live_allocs", b_sym_live); reg("sym_total_allocs", b_sym_total);
  reg("sym_alloc_limit", b_sym_limit); reg("sym_arm_alloc_failures", b_sym_failarm); reg("sym_alloc_failures_left", b_sym_failleft);
  reg("sym_is_symbolic", b_sym_issym); reg("sym_end_path", b_sym_end); reg("sym_expect_terminate", b_sym_expect_terminate);
  reg("sym_print", b_sym_print); reg("sym_print_u64", b_sym_print_u64); reg("__sym_depth", b_sym_depth); reg("sym_valid", b_sym_valid);
  reg("__sym_type_match", b_type_match); reg("__sym_mprotect", b_sym_mprotect); reg("sym_writable", b_sym_writable);
  reg("sym_locks_held", b_locks_held); reg("sym_lock_count", b_lock_count); reg("sym_native", b_nop);
  reg("abort", b_abort); reg("_ZSt9terminatev", b_terminate); reg("!__clang_call_terminate", b_call_terminate); reg("exit", b_exit); reg("_exit", b_exit);
  reg("__cxa_allocate_exception", b_cxa_alloc); reg("__cxa_free_exception", b_cxa_freeexc); reg("__cxa_throw", b_cxa_throw);
  reg("__cxa_begin_catch", b_cxa_begin); reg("__cxa_end_catch", b_cxa_end); reg("__cxa_rethrow", b_cxa_rethrow);
  reg("__cxa_get_exception_ptr", b_cxa_get_ptr); reg("_ZSt17current_exceptionv", b_current_exception);
  reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_eptr_addref);
  reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_eptr_release);
  reg("_ZNKSt15__exception_ptr13exception_ptr6_M_getEv", b_eptr_get);
  reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exception);
  reg("_ZSt19uncaught_exceptionsv", b_uncaught); reg("_ZSt18uncaught_exceptionv", b_uncaughtb);
  reg("__cxa_init_primary_exception", b_init_primary); reg("__cxa_current_exception_type", b_cur_exc_type);
  reg("__dynamic_cast", b_dynamic_cast);
  reg("__cxa_guard_acquire", b_guard_acquire); reg("__cxa_guard_release", b_guard_release); reg("__cxa_guard_abort", b_nop);
  reg("__cxa_atexit", b_nop); reg("atexit", b_nop); reg("__cxa_thread_atexit", b_nop);
  reg("pthread_mutex_lock", b_mutex_lock); reg("pthread_mutex_unlock", b_mutex_unlock); reg("pthread_mutex_trylock", b_mutex_lock);
  reg("pthread_mutex_init", b_nop); reg("pthread_mutex_destroy", b_nop);
  reg("_ZNSt8ios_base4InitC1Ev", b_nop); reg("_ZNSt8ios_base4InitD1Ev", b_nop);
}

// ------------------------------------------------------------ execution
static St runBuiltin(State& s, DInst& D, int b, std::vector<Val>& args) {
  Val ret;
  St r = g_builtins[b].fn(s, D, args, ret);
  if (r == CONT) {
    setResult(s, D, ret);
    advance(s);
  }
  return r;
}
static Val binop(State& s, unsigned op, const Val& x, const Val& y, unsigned w, bool& ok, DInst& D) {
  ok = true;
  if (!x.sym() && !y.sym() && w <= 64) {
    u64 a = x.c, b = y.c, m = (u64)maskw(w);
    switch (op) {
      case Instruction::Add: return Val((a + b) & m);
      case Instruction::Sub: return Val((a - b) & m);
      case Instruction::Mul: return Val((a * b) & m);
      case Instruction::And: return Val(a & b);
      case Instruction::Or: return Val(a | b);
      case Instruction::Xor: return Val(a ^ b);
      case Instruction::Shl: return Val(b >= w ? 0 : (a << b) & m);
      case Instruction::LShr: return Val(b >= w ? 0 : a >> b);
      default: break;
    }
  }
  Ex a = toEx(x, w), b = toEx(y, w);
  Kind k;
  switch (op) {
    case Instruction::Add: k = KAdd; break;
    case Instruction::Sub: k = KSub; break;
    case Instruction::Mul: k = KMul; break;
    case Instruction::And: k = KAnd; break;
    case Instruction::Or: k = KOr; break;
    case Instruction::Xor: k = KXor; break;
    case Instruction::Shl: k = KShl; break;
    case Instruction::LShr: k = KLShr; break;
    case Instruction::AShr: k = KAShr; break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      k = op == Instruction::UDiv ? KUDiv : op == Instruction::SDiv ? KSDiv : op == Instruction::URem ? KURem : KSRem;
      Ex z = mkCmp(KEq, b, mkConst(0, w));
      int d = decide(s, z);
      if (d < 0) { ok = false; return Val(); }
      if (d) { viol(s, "ub", "division by zero"); ok = false; return Val(); }
      break;
    }
    default: viol(s, "unsupported", "binary operator"); ok = false; return Val();
  }
  return Val(mkBin(k, a, b));
}
static double asD(const Val& v, Type* t) {
  if (t->isFloatTy()) { float f; uint32_t x = (uint32_t)v.c; memcpy(&f, &x, 4); return f; }
  double d; memcpy(&d, &v.c, 8); return d;
}
static Val fromD(double d, Type* t) {
  if (t->isFloatTy()) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return Val((u64)x); }
  u64 x; memcpy(&x, &d, 8); return Val(x);
}
static Ex icmpE(CmpInst::Predicate p, Ex a, Ex b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkCmp(KEq, a, b);
    case CmpInst::ICMP_NE: return mkNot(mkCmp(KEq, a, b));
    case CmpInst::ICMP_ULT: return mkCmp(KUlt, a, b);
    case CmpInst::ICMP_ULE: return mkCmp(KUle, a, b);
    case CmpInst::ICMP_UGT: return mkCmp(KUlt, b, a);
    case CmpInst::ICMP_UGE: return mkCmp(KUle, b, a);
    case CmpInst::ICMP_SLT: return mkCmp(KSlt, a, b);
    case CmpInst::ICMP_SLE: return mkCmp(KSle, a, b);
    case CmpInst::ICMP_SGT: return mkCmp(KSlt, b, a);
    case CmpInst::ICMP_SGE: return mkCmp(KSle, b, a);
    default: abort();
  }
}
static Ex popcountE(Ex e) {
  Ex r = mkConst(0, e->w);
  for (unsigned i = 0; i < e->w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(e, i, 1), e->w));
  return r;
}
static St intrinsic(State& s, DInst& D, const IntrinsicInst* II, std::vector<Val>& a) {
  Val ret;
  unsigned w = D.w;
  auto E0 = [&] { return toEx(a[0], tyW(II->getArgOperand(0)->getType())); };
  auto E1 = [&] { return toEx(a[1], tyW(II->getArgOperand(1)->getType())); };
  switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: if (!copyMem(s, a[0], a[1], a[2])) return DEAD; break;
    case Intrinsic::memset: case Intrinsic::memset_inline: if (!setMem(s, a[0], a[1], a[2])) return DEAD; break;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::prefetch: break;
    case Intrinsic::stacksave: ret = Val(1); break;
    case Intrinsic::vaend: break;
    case Intrinsic::vacopy: { if (!copyMem(s, a[0], a[1], Val(24))) return DEAD; break; }
    case Intrinsic::vastart: {
      // all variable arguments go to the overflow area; both register areas are marked as used up
      std::vector<Val> va = top(s).varargs;
      ObjP o = newObj(s, va.size() * 8 + 8, OStack, "varargs");
      top(s).allocas.push_back(o->base);
      Loc L;
      for (size_t i = 0; i < va.size(); i++) {
        if (va[i].agg) { viol(s, "unsupported", "aggregate variable argument"); return DEAD; }
        if (!resolve(s, Val(o->base + i * 8), 8, true, L)) return DEAD;
        storeInt(s, L, 8, 64, va[i].sym() ? Val(mkZExt(va[i].e, 64)) : va[i]);
      }
      if (!resolve(s, a[0], 24, true, L)) return DEAD;
      storeInt(s, L, 4, 32, Val(48)); L.off += 4; storeInt(s, L, 4, 32, Val(176)); L.off += 4;
      storeInt(s, L, 8, 64, Val(o->base)); L.off += 8; storeInt(s, L, 8, 64, Val(0));
      break;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: ret = a[0]; break;
    case Intrinsic::is_constant: ret = Val(0); break;
    case Intrinsic::objectsize: ret = Val(a[1].c ? 0 : ~0ULL); break;
    case Intrinsic::trap: viol(s, "ub", "trap: undefined behaviour check failed"); return DEAD;
    case Intrinsic::ubsantrap: {
      static const char* n[] = {"add overflow", "builtin unreachable", "cfi check", "division/remainder overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "multiplication overflow", "negation overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds index", "pointer overflow", "shift out of bounds", "subtraction overflow", "type mismatch (null or misaligned)", "alignment assumption", "vla bound not positive"};
      u64 k = a[0].c;
      viol(s, "ub", std::string("undefined behaviour: ") + (k < 25 ? n[k] : "check"));
      return DEAD;
    }
    case Intrinsic::eh_typeid_for: ret = Val((u64)selectorFor(a[0].c)); break;
    case Intrinsic::umin: ret = Val(mkIte(mkCmp(KUlt, E0(), E1()), E0(), E1())); break;
    case Intrinsic::umax: ret = Val(mkIte(mkCmp(KUlt, E0(), E1()), E1(), E0())); break;
    case Intrinsic::smin: ret = Val(mkIte(mkCmp(KSlt, E0(), E1()), E0(), E1())); break;
    case Intrinsic::smax: ret = Val(mkIte(mkCmp(KSlt, E0(), E1()), E1(), E0())); break;
    case Intrinsic::abs: {
      Ex neg = mkCmp(KSlt, E0(), mkConst(0, w)), m = mkBin(KSub, mkConst(0, w), E0());
      if (inCons(s, neg)) ret = Val(m);
      else if (inCons(s, mkNot(neg))) ret = Val(E0());
      else ret = Val(mkIte(neg, m, E0()));
      break;
    }
    case Intrinsic::bswap: {
      Ex e = E0(), r = nullptr;
      for (unsigned i = 0; i < w; i += 8) { Ex b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; }
      ret = Val(r); break;
    }
    case Intrinsic::bitreverse: {
      Ex e = E0(), r = nullptr;
      for (unsigned i = 0; i < w; i++) { Ex b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; }
      ret = Val(r); break;
    }
    case Intrinsic::ctpop: ret = Val(popcountE(E0())); break;
    case Intrinsic::ctlz: {
      Ex e = E0(), r = mkConst(w, w);
      for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r);
      ret = Val(r); break;
    }
    case Intrinsic::cttz: {
      Ex e = E0(), r = mkConst(w, w);
      for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r);
      ret = Val(r); break;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      if (a[2].sym()) { viol(s, "unsupported", "symbolic funnel shift"); return DEAD; }
      unsigned sh = a[2].c % w;
      if (2 * w > 128) { viol(s, "unsupported", "wide funnel shift"); return DEAD; }
      Ex c = mkConcat(E0(), E1());
      if (II->getIntrinsicID() == Intrinsic::fshl) ret = Val(mkExtract(c, w - sh, w));
      else ret = Val(mkExtract(c, sh, w));
      break;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Ex x = E0(), y = E1();
      unsigned n = x->w;
      auto id = II->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Kind k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? KAdd : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? KSub : KMul;
      Ex r = mkBin(k, x, y), ov;
      if (!sg && k == KAdd) ov = mkCmp(KUlt, r, x);
      else if (!sg && k == KSub) ov = mkCmp(KUlt, x, y);
      else if (sg && k != KMul) {
        Ex sx = mkExtract(x, n - 1, 1), sy = mkExtract(y, n - 1, 1), sr = mkExtract(r, n - 1, 1);
        if (k == KAdd) ov = mkAnd1(mkCmp(KEq, sx, sy), mkNot(mkCmp(KEq, sx, sr)));
        else ov = mkAnd1(mkNot(mkCmp(KEq, sx, sy)), mkNot(mkCmp(KEq, sx, sr)));
      } else {
        unsigned n2 = std::min(2 * n, 128u);
        Ex X = sg ? mkSExt(x, n2) : mkZExt(x, n2), Y = sg ? mkSExt(y, n2) : mkZExt(y, n2);
        Ex p = mkBin(KMul, X, Y);
        ov = mkNot(mkCmp(KEq, p, sg ? mkSExt(r, n2) : mkZExt(r, n2)));
      }
      ret.agg = std::make_shared<std::vector<Val>>();
      ret.agg->push_back(Val(r)); ret.agg->push_back(Val(ov));
      break;
    }
    case Intrinsic::usub_sat: ret = Val(mkIte(mkCmp(KUlt, E0(), E1()), mkConst(0, w), mkBin(KSub, E0(), E1()))); break;
    case Intrinsic::uadd_sat: { Ex r = mkBin(KAdd, E0(), E1()); ret = Val(mkIte(mkCmp(KUlt, r, E0()), mkConst(~(u128)0, w), r)); break; }
    case Intrinsic::fabs: ret = fromD(fabs(asD(a[0], II->getType())), II->getType()); break;
    case Intrinsic::ceil: ret = fromD(ceil(asD(a[0], II->getType())), II->getType()); break;
    case Intrinsic::floor: ret = fromD(floor(asD(a[0], II->getType())), II->getType()); break;
    case Intrinsic::returnaddress: {   // address inside the calling function
      Frame* c = s.stack.size() >= 2 ? s.stack[s.stack.size() - 2].get() : nullptr;
      ret = Val(c ? gvAddr(c->f->F) + 16 : 0);
      break;
    }
    case Intrinsic::frameaddress: ret = Val(0x7fff0000ULL - s.stack.size() * 64); break;
    default:
      viol(s, "unsupported", "intrinsic " + II->getCalledFunction()->getName().str());
      return DEAD;
  }
  setResult(s, D, ret);
  advance(s);
  return CONT;
}
static St doCall(State& s, DInst& D) {
  Frame& f = *s.stack.back();
  auto* cb = cast<CallBase>(D.I);
  std::vector<Val> args;
  size_t na = cb->arg_size();
  args.reserve(na);
  for (size_t i = 0; i < na; i++) args.push_back(opv(f, D.ops[i]));
  // byval arguments are copied
  if (auto* II = dyn_cast<IntrinsicInst>(D.I)) return intrinsic(s, D, II, args);
  if (cb->isInlineAsm()) {
    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty()) { setResult(s, D, Val(0)); advance(s); return CONT; }
    viol(s, "unsupported", "inline asm " + ia->getAsmString());
    return DEAD;
  }
  DFunc* callee = D.callee;
  int bi = D.builtin;
  if (!callee && bi == -2) {
    viol(s, "unsupported", "external function " + cb->getCalledFunction()->getName().str());
    return DEAD;
  }
  if (!callee && bi < 0) {
    u64 t;
    if (!concretize(s, opv(f, D.ops.back()), 64, t)) return DEAD;
    auto fi = g_funcByAddr.find(t);
    if (fi != g_funcByAddr.end()) callee = fi->second;
    else {
      auto b = g_builtinByAddr.find(t);
      if (b != g_builtinByAddr.end() && b->second >= 0) bi = b->second;
      else if (b != g_builtinByAddr.end()) { viol(s, "unsupported", "indirect call to unmodelled external function"); return DEAD; }
      else { viol(s, "memory", "call through an invalid function pointer"); return DEAD; }
    }
  }
  if (callee) {
    for (size_t i = 0; i < na; i++) {
      if (cb->isByValArgument(i)) {
        u64 n = DL->getTypeAllocSize(cb->getParamByValType(i));
        ObjP o = newObj(s, n, OStack, "byval");
        if (!copyMem(s, Val(o->base), args[i], Val(n))) return DEAD;
        args[i] = Val(o->base);
      }
    }
    pushFrame(s, callee, args);
    for (size_t i = 0; i < na; i++) if (cb->isByValArgument(i)) top(s).allocas.push_back(args[i].c);
    return s.stack.size() > 4000 ? DEAD : JUMP;
  }
  return runBuiltin(s, D, bi, args);
}

static bool vecElem(Type* t, unsigned& n, unsigned& w) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) { n = v->getNumElements(); w = tyW(v->getElementType()); return true; }
  return false;
}
static Ex flatten(const Val& v, Type* t) {
  unsigned n, w;
  if (vecElem(t, n, w)) {
    Ex r = nullptr;
    for (unsigned i = 0; i < n; i++) { Ex e = toEx((*v.agg)[i], w); r = r ? mkConcat(e, r) : e; }
    return r;
  }
  return toEx(v, tyW(t));
}
static Val unflatten(Ex e, Type* t) {
  unsigned n, w;
  if (vecElem(t, n, w)) {
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < n; i++) v.agg->push_back(Val(mkExtract(e, i * w, w)));
    return v;
  }
  return Val(e);
}

// one instruction. returns false when the state is finished
static bool step(State& s) {
  Frame& f0 = *s.stack.back();
  DInst& D = f0.f->blocks[f0.bb].insts[f0.ip];
  s.insts++;
  R_insts++;
  switch (D.op) {
    case Instruction::Call: case Instruction::Invoke: {
      St r = doCall(s, D);
      return r != DEAD;
    }
    case Instruction::Ret: {
      Val rv;
      if (!D.ops.empty()) rv = opv(f0, D.ops[0]);
      int rk = f0.retKind; u64 ra = f0.retArg;
      popFrame(s);
      if (rk == 1) {  // custom __do_catch returned
        u64 v;
        if (!concretize(s, rv, 8, v)) return false;
        if (v & 1) { viol(s, "unsupported", "custom type info accepted the exception"); return false; }
        return unwind(s, ra) != DEAD;
      }
      if (rk == 2) { if (ra) freeExc(s, ra); return true; }
      if (s.stack.empty()) return false;
      Frame& f = top(s);
      DInst& C = f.f->blocks[f.bb].insts[f.ip];
      if (C.dst >= 0) f.regs[C.dst] = rv;
      advance(s);
      return true;
    }
    case Instruction::Br: {
      if (D.ops.empty()) { gotoBlock(s, top(s), D.b0); return true; }
      const Val& c = opv(f0, D.ops[0]);
      int d;
      if (!c.sym()) d = c.c & 1;
      else { d = decide(s, c.e); if (d < 0) return false; }
      gotoBlock(s, top(s), d ? D.b0 : D.b1);
      return true;
    }
    case Instruction::Switch: {
      Val v = opv(f0, D.ops[0]);
      if (!v.sym()) {
        int t = D.b0;
        for (auto& c : D.cases) if (c.first == v.c) { t = c.second; break; }
        gotoBlock(s, top(s), t);
        return true;
      }
      std::vector<int> order;
      for (auto& c : D.cases) if (std::find(order.begin(), order.end(), c.second) == order.end()) order.push_back(c.second);
      for (int t : order) {
        Ex c = mkFalse();
        for (auto& k : D.cases) if (k.second == t) c = mkOr1(c, mkCmp(KEq, v.e, mkConst(k.first, D.w)));
        int d = decide(s, c);
        if (d < 0) return false;
        if (d) { gotoBlock(s, top(s), t); return true; }
      }
      gotoBlock(s, top(s), D.b0);
      return true;
    }
    case Instruction::Unreachable:
      viol(s, "ub", "unreachable code reached");
      return false;
    case Instruction::Resume: {
      Val v = opv(f0, D.ops[0]);
      u64 h = (*v.agg)[0].c;
      popFrame(s);
      return unwind(s, h, true) != DEAD;
    }
    case Instruction::Alloca: {
      u64 n;
      if (!concretize(s, opv(f0, D.ops[0]), 64, n)) return false;
      Frame& f = top(s);
      ObjP o = newObj(s, D.size * n, OStack, D.I->hasName() ? D.I->getName().str().c_str() : "alloca");
      f.allocas.push_back(o->base);
      f.regs[D.dst] = Val(o->base);
      f.ip++;
      return true;
    }
    case Instruction::Load: {
      auto* li = cast<LoadInst>(D.I);
      Loc L;
      if (!D.size) D.size = DL->getTypeStoreSize(li->getType());
      Val a = opv(f0, D.ops[0]);
      if (!resolve(s, a, D.size, false, L)) return false;
      Val v;
      if (D.w ? !loadInt(s, L, D.size, D.w, v) : !loadTy(s, L, li->getType(), v)) return false;
      Frame& f = top(s);
      f.regs[D.dst] = v;
      f.ip++;
      return true;
    }
    case Instruction::Store: {
      auto* si = cast<StoreInst>(D.I);
      Loc L;
      Type* t = si->getValueOperand()->getType();
      if (!D.size) D.size = DL->getTypeStoreSize(t);
      Val a = opv(f0, D.ops[1]);
      if (!resolve(s, a, D.size, true, L)) return false;
      if (!storeTy(s, L, t, opv(*s.stack.back(), D.ops[0]))) return false;
      top(s).ip++;
      return true;
    }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(D.I);
      Loc L;
      unsigned w = D.w, n = w / 8;
      if (!resolve(s, opv(f0, D.ops[0]), n, true, L)) return false;
      Val old;
      if (!loadInt(s, L, n, w, old)) return false;
      Ex o = toEx(old, w), v = toEx(opv(*s.stack.back(), D.ops[1]), w), nv;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = mkBin(KAdd, o, v); break;
        case AtomicRMWInst::Sub: nv = mkBin(KSub, o, v); break;
        case AtomicRMWInst::And: nv = mkBin(KAnd, o, v); break;
        case AtomicRMWInst::Or: nv = mkBin(KOr, o, v); break;
        default: viol(s, "unsupported", "atomicrmw"); return false;
      }
      storeInt(s, L, n, w, Val(nv));
      Frame& f = top(s);
      f.regs[D.dst] = old;
      f.ip++;
      return true;
    }
    case Instruction::AtomicCmpXchg: {
      Loc L;
      Type* t = cast<AtomicCmpXchgInst>(D.I)->getCompareOperand()->getType();
      unsigned w = tyW(t), n = w / 8;
      if (!resolve(s, opv(f0, D.ops[0]), n, true, L)) return false;
      Val old;
      if (!loadInt(s, L, n, w, old)) return false;
      Ex eq = mkCmp(KEq, toEx(old, w), toEx(opv(*s.stack.back(), D.ops[1]), w));
      int d = decide(s, eq);
      if (d < 0) return false;
      if (d) storeInt(s, L, n, w, opv(*s.stack.back(), D.ops[2]));
      Val r; r.agg = std::make_shared<std::vector<Val>>();
      r.agg->push_back(old); r.agg->push_back(Val((u64)d));
      Frame& f = top(s);
      f.regs[D.dst] = r;
      f.ip++;
      return true;
    }
    case Instruction::Fence: top(s).ip++; return true;
    case Instruction::GetElementPtr: {
      Frame& f = top(s);
      Val base = opv(f, D.ops[0]);
      if (base.agg) { viol(s, "unsupported", "vector gep"); return false; }
      u64 c = D.gepConst;
      Ex e = nullptr;
      for (size_t i = 0; i < D.gepVar.size(); i++) {
        auto& g = D.gepVar[i];
        const Val& iv = opv(f, D.ops[g.first]);
        unsigned iw = D.cases[i].first;
        if (!iv.sym()) c += (u64)sextw(iv.c, iw) * g.second;
        else {
          Ex x = mkBin(KMul, mkSExt(iv.e, 64), mkConst(g.second, 64));
          e = e ? mkBin(KAdd, e, x) : x;
        }
      }
      if (!base.sym() && !e) f.regs[D.dst] = Val(base.c + c);
      else {
        Ex r = mkBin(KAdd, toEx(base, 64), mkConst(c, 64));
        if (e) r = mkBin(KAdd, r, e);
        f.regs[D.dst] = Val(r);
      }
      f.ip++;
      return true;
    }
    case Instruction::ICmp: {
      auto* ic = cast<ICmpInst>(D.I);
      Frame& f = top(s);
      Type* t = ic->getOperand(0)->getType();
      const Val& x = opv(f, D.ops[0]);
      const Val& y = opv(f, D.ops[1]);
      Val r;
      unsigned n, w;
      if (vecElem(t, n, w)) {
        r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(Val(icmpE(ic->getPredicate(), toEx((*x.agg)[i], w), toEx((*y.agg)[i], w))));
      } else {
        w = tyW(t);
        if (!x.sym() && !y.sym()) {
          u64 a = x.c, b = y.c;
          int64_t sa = (int64_t)sextw(a, w), sb = (int64_t)sextw(b, w);
          bool q = false;
          switch (ic->getPredicate()) {
            case CmpInst::ICMP_EQ: q = a == b; break; case CmpInst::ICMP_NE: q = a != b; break;
            case CmpInst::ICMP_ULT: q = a < b; break; case CmpInst::ICMP_ULE: q = a <= b; break;
            case CmpInst::ICMP_UGT: q = a > b; break; case CmpInst::ICMP_UGE: q = a >= b; break;
            case CmpInst::ICMP_SLT: q = sa < sb; break; case CmpInst::ICMP_SLE: q = sa <= sb; break;
            case CmpInst::ICMP_SGT: q = sa > sb; break; case CmpInst::ICMP_SGE: q = sa >= sb; break;
            default: break;
          }
          r = Val((u64)q);
        } else r = Val(icmpE(ic->getPredicate(), toEx(x, w), toEx(y, w)));
      }
      f.regs[D.dst] = r;
      f.ip++;
      return true;
    }
    case Instruction::Select: {
      const Val c = opv(f0, D.ops[0]);
      Type* t = D.I->getType();
      Val r;
      if (c.agg) {
        unsigned n, w; vecElem(t, n, w);
        const Val &x = opv(f0, D.ops[1]), &y = opv(f0, D.ops[2]);
        r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(Val(mkIte(toEx((*c.agg)[i], 1), toEx((*x.agg)[i], w), toEx((*y.agg)[i], w))));
      } else if (!c.sym()) r = opv(f0, D.ops[(c.c & 1) ? 1 : 2]);
      else if (D.w && !t->isPointerTy()) {
        if (inCons(s, c.e)) r = opv(f0, D.ops[1]);
        else if (inCons(s, mkNot(c.e))) r = opv(f0, D.ops[2]);
        else r = Val(mkIte(c.e, toEx(opv(f0, D.ops[1]), D.w), toEx(opv(f0, D.ops[2]), D.w)));
      } else { int d = decide(s, c.e); if (d < 0) return false; r = opv(*s.stack.back(), D.ops[d ? 1 : 2]); }
      Frame& f = top(s);
      f.regs[D.dst] = r;
      f.ip++;
      return true;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      Frame& f = top(s);
      Type* st = D.I->getOperand(0)->getType();
      const Val& x = opv(f, D.ops[0]);
      auto conv = [&](const Val& v, unsigned sw, unsigned dw) -> Val {
        if (!v.sym() && dw <= 64) {
          if (D.op == Instruction::SExt) return Val((u64)(sextw(v.c, sw) & maskw(dw)));
          return Val(v.c & (u64)maskw(dw));
        }
        Ex e = toEx(v, sw);
        if (dw == sw) return Val(e);
        if (dw < sw) return Val(mkExtract(e, 0, dw));
        return Val(D.op == Instruction::SExt ? mkSExt(e, dw) : mkZExt(e, dw));
      };
      unsigned n, sw, n2, dw;
      Val r;
      if (vecElem(st, n, sw)) {
        vecElem(D.I->getType(), n2, dw);
        r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(conv((*x.agg)[i], sw, dw));
      } else r = conv(x, tyW(st), D.w);
      f.regs[D.dst] = r;
      f.ip++;
      return true;
    }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
      Frame& f = top(s);
      Type* st = D.I->getOperand(0)->getType();
      Type* dt = D.I->getType();
      const Val& x = opv(f, D.ops[0]);
      unsigned n, w;
      if (st != dt && (vecElem(st, n, w) || vecElem(dt, n, w))) f.regs[D.dst] = unflatten(flatten(x, st), dt);
      else { Val t = x; f.regs[D.dst] = t; }
      f.ip++;
      return true;
    }
    case Instruction::ExtractValue: {
      Frame& f = top(s);
      const Val* v = &opv(f, D.ops[0]);
      Val cur = *v;
      for (unsigned i : cast<ExtractValueInst>(D.I)->indices()) { Val t = (*cur.agg)[i]; cur = t; }
      f.regs[D.dst] = cur;
      f.ip++;
      return true;
    }
    case Instruction::InsertValue: {
      Frame& f = top(s);
      Val v = opv(f, D.ops[0]);
      Val x = opv(f, D.ops[1]);
      std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& b, ArrayRef<unsigned> ix) -> Val {
        if (ix.empty()) return x;
        Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg);
        (*r.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.slice(1));
        return r;
      };
      f.regs[D.dst] = ins(v, cast<InsertValueInst>(D.I)->getIndices());
      f.ip++;
      return true;
    }
    case Instruction::ExtractElement: {
      u64 i;
      if (!concretize(s, opv(f0, D.ops[1]), 64, i)) return false;
      Frame& f = top(s);
      Val t = (*opv(f, D.ops[0]).agg)[i];
      f.regs[D.dst] = t;
      f.ip++;
      return true;
    }
    case Instruction::InsertElement: {
      u64 i;
      if (!concretize(s, opv(f0, D.ops[2]), 64, i)) return false;
      Frame& f = top(s);
      Val r; r.agg = std::make_shared<std::vector<Val>>(*opv(f, D.ops[0]).agg);
      (*r.agg)[i] = opv(f, D.ops[1]);
      f.regs[D.dst] = r;
      f.ip++;
      return true;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(D.I);
      Frame& f = top(s);
      const Val &x = opv(f, D.ops[0]), &y = opv(f, D.ops[1]);
      Val r; r.agg = std::make_shared<std::vector<Val>>();
      for (int m : sv->getShuffleMask()) {
        if (m < 0) r.agg->push_back(Val(0));
        else if ((size_t)m < x.agg->size()) r.agg->push_back((*x.agg)[m]);
        else r.agg->push_back((*y.agg)[m - x.agg->size()]);
      }
      f.regs[D.dst] = r;
      f.ip++;
      return true;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: case Instruction::FCmp:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      Frame& f = top(s);
      for (auto& o : D.ops) if (opv(f, o).sym()) { viol(s, "unsupported", "symbolic floating point"); return false; }
      Type* st = D.I->getOperand(0)->getType();
      Type* dt = D.I->getType();
      const Val& x = opv(f, D.ops[0]);
      Val r;
      switch (D.op) {
        case Instruction::FAdd: r = fromD(asD(x, st) + asD(opv(f, D.ops[1]), st), dt); break;
        case Instruction::FSub: r = fromD(asD(x, st) - asD(opv(f, D.ops[1]), st), dt); break;
        case Instruction::FMul: r = fromD(asD(x, st) * asD(opv(f, D.ops[1]), st), dt); break;
        case Instruction::FDiv: r = fromD(asD(x, st) / asD(opv(f, D.ops[1]), st), dt); break;
        case Instruction::FNeg: r = fromD(-asD(x, st), dt); break;
        case Instruction::FPToSI: r = Val((u64)(int64_t)asD(x, st) & (u64)maskw(D.w)); break;
        case Instruction::FPToUI: r = Val((u64)asD(x, st) & (u64)maskw(D.w)); break;
        case Instruction::SIToFP: r = fromD((double)(int64_t)sextw(x.c, tyW(st)), dt); break;
        case Instruction::UIToFP: r = fromD((double)x.c, dt); break;
        case Instruction::FPExt: case Instruction::FPTrunc: r = fromD(asD(x, st), dt); break;
        default: {
          double p = asD(x, st), q = asD(opv(f, D.ops[1]), st);
          bool b = false;
          switch (cast<FCmpInst>(D.I)->getPredicate()) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: b = p == q; break;
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: b = p != q; break;
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: b = p < q; break;
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: b = p <= q; break;
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: b = p > q; break;
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: b = p >= q; break;
            default: break;
          }
          r = Val((u64)b);
        }
      }
      f.regs[D.dst] = r;
      f.ip++;
      return true;
    }
    default: {
      if (D.I->isBinaryOp()) {
        Type* t = D.I->getType();
        unsigned n, w;
        Val r;
        bool ok;
        const Val x = opv(f0, D.ops[0]), y = opv(f0, D.ops[1]);
        if (vecElem(t, n, w)) {
          r.agg = std::make_shared<std::vector<Val>>();
          for (unsigned i = 0; i < n; i++) { r.agg->push_back(binop(s, D.op, (*x.agg)[i], (*y.agg)[i], w, ok, D)); if (!ok) return false; }
        } else { r = binop(s, D.op, x, y, D.w, ok, D); if (!ok) return false; }
        Frame& f = top(s);
        f.regs[D.dst] = r;
        f.ip++;
        return true;
      }
      viol(s, "unsupported", std::string("instruction ") + D.I->getOpcodeName());
      return false;
    }
  }
}

static bool limitHit() {
  if (g_shared[1]) return true;
  if (elapsed() > O.timeLimit) { incomplete("time limit"); g_shared[1] = 1; return true; }
  return false;
}
static u64 rssMB() {
  FILE* f = fopen("/proc/self/statm", "r");
  if (!f) return 0;
  long a = 0, b = 0;
  if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
  fclose(f);
  return (u64)b * 4096 / 1048576;
}
static void finishState(StateP& s, bool completed) {
  R_paths++;
  if (s->insts > R_maxPathInsts) R_maxPathInsts = s->insts;
  if (completed && s->stack.empty()) {
    bool want = R_wit.size() < 4;
    for (auto& c : s->covers) if (!R_witOf.count(c)) want = true;
    if (want) {
      Witness w;
      for (size_t i = 0; i < s->made.size(); i++) { w.names.push_back(s->madeNames[i]); w.widths.push_back(g_vars[s->made[i]].width); w.values.push_back(s->model->get(s->made[i])); }
      w.covers = s->covers;
      for (auto& c : s->covers) R_witOf.emplace(c, (int)R_wit.size());
      R_wit.push_back(w);
    }
  }
}
static void runState(StateP sp, bool untilFork) {
  State& s = *sp;
  u64 f0 = s.forks;
  u64 n = 0;
  for (;;) {
    if (!step(s)) { finishState(sp, true); return; }
    if (s.insts > O.maxInsts) {
      viol(s, "nontermination", "no termination within " + std::to_string(O.maxInsts) + " executed instructions on one path");
      finishState(sp, false);
      return;
    }
    if ((++n & 0x3fff) == 0 && limitHit()) return;
    if (untilFork && s.forks != f0) { work.push_back(std::move(sp)); return; }
  }
}

// ------------------------------------------------------------ output
static std::string js(const std::string& x) {
  std::string r = "\"";
  for (unsigned char c : x) {
    char b[8];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void writeResult(const std::string& path) {
  FILE* f = fopen(path.c_str(), "w");
  fprintf(f, "{\"paths\":%llu,\"insts\":%llu,\"forks\":%llu,\"assume_pruned\":%llu,\"states\":%llu,\"max_path_insts\":%llu,\n", (unsigned long long)R_paths, (unsigned long long)R_insts, (unsigned long long)R_forks, (unsigned long long)R_assumed, (unsigned long long)R_states, (unsigned long long)R_maxPathInsts);
  fprintf(f, "\"slow\":%llu,\"order\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"solver_time\":%.3f,\"exprs\":%zu,\"wall\":%.2f,\"rss_mb\":%llu,\n", (unsigned long long)g_ss.slow, (unsigned long long)g_ss.order, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.asserts, g_ss.time, exprCount(), elapsed(), (unsigned long long)rssMB());
  fprintf(f, "\"witnesses\":[");
  for (size_t k = 0; k < R_wit.size(); k++) {
    auto& w = R_wit[k];
    fprintf(f, "%s{\"covers\":[", k ? ",\n" : "");
    bool fc = true;
    for (auto& c : w.covers) { fprintf(f, "%s%s", fc ? "" : ",", js(c).c_str()); fc = false; }
    fprintf(f, "],\"vars\":[");
    for (size_t i = 0; i < w.names.size(); i++) fprintf(f, "%s[%s,%u,%llu]", i ? "," : "", js(w.names[i]).c_str(), w.widths[i], (unsigned long long)w.values[i]);
    fprintf(f, "]}");
  }
  fprintf(f, "],\n\"incomplete\":{");
  bool first = true;
  for (auto& p : R_incomplete) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n\"covers\":[");
  first = true;
  for (auto& c : R_covers) { fprintf(f, "%s%s", first ? "" : ",", js(c).c_str()); first = false; }
  fprintf(f, "],\n\"functions\":[");
  first = true;
  for (auto* d : R_hit) {
    std::string file;
    if (auto* sp = d->F->getSubprogram()) file = sp->getFilename().str();
    fprintf(f, "%s[%s,%s]", first ? "" : ",", js(d->name).c_str(), js(file).c_str());
    first = false;
    for (auto& p : inlinedIn(d)) fprintf(f, ",[%s,%s]", js(p.first).c_str(), js(p.second).c_str());
  }
  fprintf(f, "],\n\"violations\":[");
  first = true;
  for (auto& v : R_viol) {
    fprintf(f, "%s\n{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":[", first ? "" : ",", js(v.kind).c_str(), js(v.msg).c_str(), js(v.where).c_str());
    for (size_t i = 0; i < v.stack.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(v.stack[i]).c_str());
    fprintf(f, "],\"notes\":[");
    for (size_t i = 0; i < v.notes.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(v.notes[i]).c_str());
    fprintf(f, "],\"vars\":[");
    for (size_t i = 0; i < v.names.size(); i++) fprintf(f, "%s[%s,%u,%llu]", i ? "," : "", js(v.names[i]).c_str(), v.widths[i], (unsigned long long)v.values[i]);
    fprintf(f, "]}");
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
}

// Once work is shared out, a worker that has pending states while another has run out forks off half of them.
static bool g_split;
static std::vector<pid_t> g_kids;
static void writeResult(const std::string& path);
static void resetResults() {
  R_paths = R_insts = R_forks = R_assumed = R_states = 0;
  g_ss = SolverStats();
  R_viol.clear(); R_violCount.clear(); R_incomplete.clear(); R_wit.clear(); R_witOf.clear();
}
static void workLoop();
[[noreturn]] static void finishWorker(int idx) {
  if (g_shared[1]) incomplete("stopped early");
  writeResult(O.out + "." + std::to_string(idx) + ".json");
  fflush(nullptr);
  __sync_fetch_and_sub((int*)&g_shared[2], 1);
  int bad = 0;
  for (pid_t p : g_kids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = 1; }
  _exit(bad ? 4 : 0);
}
static void donate() {
  static double last;
  if (!g_split || work.size() < 2 || g_shared[2] >= O.jobs || elapsed() - last < 0.25) return;
  if (__sync_fetch_and_add((int*)&g_shared[2], 1) >= O.jobs) { __sync_fetch_and_sub((int*)&g_shared[2], 1); return; }
  int idx = __sync_fetch_and_add((int*)&g_shared[3], 1);
  last = elapsed();
  size_t half = (work.size() + 1) / 2;
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_sub((int*)&g_shared[2], 1); return; }
  if (p == 0) {
    g_kids.clear();
    resetResults();
    work.resize(half);
    workLoop();
    finishWorker(idx);
  }
  g_kids.push_back(p);
  work.erase(work.begin(), work.begin() + half);
}
static void workLoop() {
  u64 k = 0;
  while (!work.empty()) {
    if (limitHit()) { if (!work.empty() && R_incomplete.empty()) incomplete("stopped early"); work.clear(); return; }
    StateP s = std::move(work.back());
    work.pop_back();
    runState(std::move(s), false);
    donate();
    if (R_paths > O.maxPaths) { incomplete("path limit"); work.clear(); return; }
    if ((++k & 0xff) == 0) {
      if (rssMB() > O.memMB) { incomplete("memory limit"); g_shared[1] = 1; work.clear(); return; }
      if (O.verbose && (k & 0x3ff) == 0) fprintf(stderr, "paths=%llu pending=%zu insts=%lluM queries=%llu (z3 %llu, %.1fs) t=%.0f rss=%lluMB exprs=%zu\n", (unsigned long long)R_paths, work.size(), (unsigned long long)R_insts / 1000000, (unsigned long long)g_ss.queries, (unsigned long long)(g_ss.sat + g_ss.unsat), g_ss.time, elapsed(), (unsigned long long)rssMB(), exprCount());
    }
  }
}

int main(int argc, char** argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string x = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (x == "--entry") O.entry = val();
    else if (x == "--out") O.out = val();
    else if (x == "--time") O.timeLimit = atof(val().c_str());
    else if (x == "--max-insts") O.maxInsts = strtoull(val().c_str(), 0, 10);
    else if (x == "--max-paths") O.maxPaths = strtoull(val().c_str(), 0, 10);
    else if (x == "--jobs") O.jobs = atoi(val().c_str());
    else if (x == "--max-viol") O.maxViol = atoi(val().c_str());
    else if (x == "--mem") O.memMB = strtoull(val().c_str(), 0, 10);
    else if (x == "--no-uninit") O.checkUninit = false;
    else if (x == "--rewrite") O.rewrite = val();
    else if (x == "--guard-calls") O.guardCalls = val();
    else if (x == "-v") O.verbose = true;
    else file = x;
  }
  T0 = std::chrono::steady_clock::now();
  rlimit rl{RLIM_INFINITY, RLIM_INFINITY};
  if (getrlimit(RLIMIT_STACK, &rl) == 0) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (rlim_t)1 << 30 : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); }
  LLVMContext ctx;
  SMDiagnostic err;
  M = parseIRFile(file, err, ctx);
  if (!M) { err.print("symx", errs()); return 3; }
  if (!O.guardCalls.empty()) {
    // announce every call that leaves the linked program (before the runtime is linked in)
    auto* FT = FunctionType::get(Type::getVoidTy(ctx), {PointerType::get(ctx, 0)}, false);
    FunctionCallee G = M->getOrInsertFunction("sym_external_call", FT);
    for (auto& F : *M) {
      if (F.isDeclaration() || F.getName().starts_with("vp_env_")) continue;
      std::vector<CallBase*> calls;
      for (auto& BB : F) for (auto& I : BB) if (auto* cb = dyn_cast<CallBase>(&I)) calls.push_back(cb);
      for (auto* cb : calls) {
        auto* C = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!C || C->isIntrinsic() || !C->isDeclaration()) continue;
        StringRef n = C->getName();
        if (n.starts_with("sym_") || n.starts_with("__sym_") || n.starts_with("vp_") || n.starts_with("__asan_") || n.starts_with("__ubsan_") || n.starts_with("__sanitizer_")) continue;
        IRBuilder<> b(cb);
        auto* call = b.CreateCall(G, {b.CreateGlobalStringPtr(n)});
        call->setDebugLoc(cb->getDebugLoc());
      }
    }
    std::error_code ec;
    raw_fd_ostream os(O.guardCalls, ec);
    WriteBitcodeToFile(*M, os);
    os.close();
    fflush(nullptr);
    _exit(0);
  }
  if (!O.rewrite.empty()) {
    // replace every use of X by vp_env_X (replay build)
    std::vector<Function*> env;
    for (auto& F : *M) if (F.getName().starts_with("vp_env_") && !F.isDeclaration()) env.push_back(&F);
    for (auto* F : env) {
      Function* T = M->getFunction(F->getName().substr(7));
      if (T && T != F) { T->replaceAllUsesWith(F); }
    }
    std::error_code ec;
    raw_fd_ostream os(O.rewrite, ec);
    WriteBitcodeToFile(*M, os);
    os.close();
    fflush(nullptr);
    _exit(0);
  }
  DL = &M->getDataLayout();
  solverInit(30000);
  UNINIT = mkVar(newVar("UNINIT", 8, true));
  registerBuiltins();
  for (auto& F : *M) {
    StringRef n = F.getName();
    if (n.starts_with("vp_env_") && !F.isDeclaration()) g_envOverride[n.substr(7).str()] = &F;
  }
  for (auto& F : *M) if (!F.isIntrinsic()) gvAddr(&F);
  for (auto& g : M->globals()) gvAddr(&g);
  g_vtClass = symAddr("_ZTVN10__cxxabiv117__class_type_infoE");
  g_vtSi = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE");
  g_vtVmi = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  g_vtFund = symAddr("_ZTVN10__cxxabiv123__fundamental_type_infoE");
  g_vtPtr = symAddr("_ZTVN10__cxxabiv119__pointer_type_infoE");
  for (auto& g : M->globals()) if (g.hasInitializer()) initMem(*g_globals[gvAddr(&g)], 0, g.getInitializer());
  g_shared = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  Function* E = M->getFunction(O.entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", O.entry.c_str()); return 3; }
  auto st = std::make_unique<State>();
  st->model = std::make_shared<Model>();
  pushFrame(*st, getFunc(E), {});
  // static constructors run first, in order: push in reverse so that the first is on top
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) {
    if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, Function*>> cs;
      for (auto& o : arr->operands()) {
        auto* cst = cast<ConstantStruct>(o);
        if (auto* fn = dyn_cast<Function>(cst->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), fn});
      }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (size_t i = cs.size(); i-- > 0;) pushFrame(*st, getFunc(cs[i].second), {}, 2, 0);
    }
  }
  work.push_back(std::move(st));
  if (O.jobs > 1) {
    // breadth-first until there is enough to share
    size_t want = (size_t)O.jobs * 24;
    double tSplit = elapsed();
    while (!work.empty() && work.size() < want && !limitHit() && elapsed() - tSplit < 60) {
      StateP s = std::move(work.front());
      work.pop_front();
      runState(std::move(s), true);
    }
    if (!work.empty() && !g_shared[1]) {
      std::vector<pid_t> kids;
      std::vector<StateP> todo;
      for (auto& w : work) todo.push_back(std::move(w));
      work.clear();
      g_shared[0] = 0; g_shared[2] = O.jobs; g_shared[3] = O.jobs + 1;
      writeResult(O.out + ".0.json");
      fflush(nullptr);
      for (int j = 0; j < O.jobs; j++) {
        pid_t p = fork();
        if (p == 0) {
          resetResults();
          g_split = true;
          O.memMB = O.memMB / O.jobs + 200;
          for (;;) {
            int i = __sync_fetch_and_add((int*)&g_shared[0], 1);
            if (i >= (int)todo.size()) break;
            work.push_back(std::move(todo[i]));
            workLoop();
            if (g_shared[1]) break;
          }
          finishWorker(j + 1);
        }
        kids.push_back(p);
      }
      int bad = 0;
      for (pid_t p : kids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = 1; }
      fflush(nullptr); _exit(bad ? 4 : 0);
    }
    workLoop();
    writeResult(O.out + ".0.json");
    fflush(nullptr);
    _exit(0);
  }
  workLoop();
  writeResult(O.out + ".0.json");
  fflush(nullptr);
  _exit(0);
}
