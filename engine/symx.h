#pragma once
#include "expr.h"
#include <map>
#include <set>
#include <functional>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>

struct Val {
  u64 c = 0;
  Ex e = nullptr;                            // symbolic (or wider than 64)
  std::shared_ptr<std::vector<Val>> agg;     // aggregate / vector
  Val() {}
  template <class T, class = std::enable_if_t<std::is_integral<T>::value>> Val(T x) : c((u64)x) {}
  Val(Ex x) { set(x); }
  void set(Ex x) { if (isC(x) && x->w <= 64) { c = (u64)x->val; e = nullptr; } else e = x; }
  bool sym() const { return e != nullptr; }
};
inline Ex toEx(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum OKind : uint8_t { OGlobal, OStack, OHeap, OFunc, OExc };
extern Ex UNINIT;

struct Object {
  u64 base, size;
  Ex symSize = nullptr;        // symbolic size (<= size) or null
  OKind kind; uint8_t alloc = 0;   // alloc: 'm' malloc, 'n' new, 'a' new[]
  bool ro = false;
  uint32_t seq = 0;
  std::vector<uint8_t> b;
  std::vector<Ex> s;           // empty = fully concrete
  std::string name;
  Ex byte(size_t i) const { if (!s.empty() && s[i]) return s[i]; return mkConst(b[i], 8); }
  void setByte(size_t i, Ex e) {
    if (isC(e)) { b[i] = (uint8_t)e->val; if (!s.empty()) s[i] = nullptr; }
    else { if (s.empty()) s.assign(size, nullptr); s[i] = e; }
  }
};
typedef std::shared_ptr<Object> ObjP;

struct DFunc;
struct Operand { int slot = -1; Val cv; };
struct DInst {
  const llvm::Instruction* I;
  unsigned op;
  int dst = -1;
  unsigned w = 0;              // result width in bits (ints/ptrs)
  std::vector<Operand> ops;
  // decoded extras
  DFunc* callee = nullptr;     // direct call to defined function
  int builtin = -1;            // direct call to builtin
  int b0 = -1, b1 = -1;        // branch targets
  std::vector<std::pair<u64, int>> cases;
  u64 gepConst = 0;
  std::vector<std::pair<int, u64>> gepVar;  // operand index, scale
  u64 size = 0;                // load/store/alloca size
  std::vector<std::vector<Operand>> phiIn;  // per incoming block index -> value
};
struct DBlock { std::vector<DInst> insts; std::vector<int> preds; int nphi = 0; };
struct DFunc {
  const llvm::Function* F;
  int nslots = 0;
  bool decoded = false;
  std::vector<DBlock> blocks;
  u64 addr = 0;
  std::string name;
  bool hit = false;
};
struct Frame {
  DFunc* f; int bb = 0, ip = 0, prevbb = -1;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  std::vector<Val> varargs;
  int retKind = 0;             // 0 normal, 1 = do_catch continuation, 2 = discard (dtor/ctor call), 3 = thread end
  u64 retArg = 0;
};
typedef std::shared_ptr<Frame> FrameP;

struct ExcInfo { u64 obj, ti, dtor; int refs = 0, handlers = 0; bool dependent = false; };

struct State {
  std::vector<FrameP> stack;
  std::map<u64, ObjP> mem;
  std::set<u64> freedGlobals;
  std::vector<Ex> cons;
  ModelP model;
  std::vector<uint32_t> made;           // variables in creation order
  std::vector<std::string> madeNames;
  u64 bump = 0x100000000ULL;
  uint32_t seq = 0;
  u64 liveAllocs = 0, liveBytes = 0, totalAllocs = 0;
  u64 insts = 0; u64 forks = 0;
  // exceptions
  std::map<u64, ExcInfo> excs;
  std::vector<u64> caught;              // handler stack
  int uncaught = 0;
  u64 unwinding = 0;                    // exception being propagated
  // choices made for re-executed instructions
  int choice = -1;
  u64 allocLimit = 1u << 20;
  int failBudget = 0;
  bool failArmed = false;
  std::set<std::string> covers;
  std::vector<std::string> trace;       // notes from the harness
  std::map<u64, u64> tag;               // generic engine side table (mutexes ...)
  std::vector<u64> locksHeld;
  u64 lastFree = 0;
  bool expectTerminate = false;
  u64 id = 0;
};
typedef std::unique_ptr<State> StateP;

struct Violation {
  std::string kind, msg, where;
  std::vector<std::string> stack;
  std::vector<std::string> names; std::vector<unsigned> widths; std::vector<u64> values;
  std::vector<std::string> notes;
};
