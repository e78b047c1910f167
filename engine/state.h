#ifndef VERIF_STATE_H_
#define VERIF_STATE_H_
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

#include "expr.h"
#include "solver.h"

struct Agg;
// A register value: concrete bits (e == nullptr, agg == nullptr), a symbolic
// or wide expression, or an aggregate/vector.
struct Val {
  uint64_t c = 0;
  Expr* e = nullptr;
  Agg* agg = nullptr;
  Val() {}
  explicit Val(uint64_t x) : c(x) {}
  Val(const Val& o);
  Val(Val&& o) noexcept : c(o.c), e(o.e), agg(o.agg) { o.agg = nullptr; }
  Val& operator=(const Val& o);
  Val& operator=(Val&& o) noexcept;
  ~Val();
  bool concrete() const { return !e && !agg; }
};
struct Agg {
  int rc = 0;
  std::vector<Val> v;
};
inline Val::Val(const Val& o) : c(o.c), e(o.e), agg(o.agg) {
  if (agg) agg->rc++;
}
inline Val& Val::operator=(const Val& o) {
  if (o.agg) o.agg->rc++;
  if (agg && --agg->rc == 0) delete agg;
  c = o.c;
  e = o.e;
  agg = o.agg;
  return *this;
}
inline Val& Val::operator=(Val&& o) noexcept {
  if (this != &o) {
    if (agg && --agg->rc == 0) delete agg;
    c = o.c;
    e = o.e;
    agg = o.agg;
    o.agg = nullptr;
  }
  return *this;
}
inline Val::~Val() {
  if (agg && --agg->rc == 0) delete agg;
}
inline Val aggValue(std::vector<Val> v) {
  Val r;
  r.agg = new Agg;
  r.agg->rc = 1;
  r.agg->v = std::move(v);
  return r;
}
// Collapses constants of at most 64 bits to the concrete form.
inline Val exprValue(Expr* e) {
  Val r;
  if (e->isConst() && e->width <= 64)
    r.c = (uint64_t)e->imm;
  else
    r.e = e;
  return r;
}

enum ObjKind : uint8_t { O_Global, O_Stack, O_New, O_NewArr, O_Malloc };
extern Expr* const UNINIT;

struct MemObject {
  uint64_t base = 0, size = 0;
  ObjKind kind = O_Global;
  bool ro = false;
  uint32_t nsym = 0;
  std::vector<uint8_t> data;
  std::vector<Expr*> sym;  // empty or one entry per byte
};
typedef std::shared_ptr<MemObject> ObjRef;

struct Chunk {
  ObjRef o[64];
  uint64_t freed = 0;  // bit i: object i existed and was freed
};
typedef std::shared_ptr<Chunk> ChunkRef;

struct Memory {
  std::vector<ChunkRef> chunks;
  uint64_t next = 1;
  uint64_t alloc(uint64_t size, ObjKind k, bool uninit = true);
  MemObject* find(uint64_t addr) const {
    uint64_t id = addr >> 32;
    if (id >= next) return nullptr;
    const ChunkRef& c = chunks[id >> 6];
    return c ? c->o[id & 63].get() : nullptr;
  }
  bool wasFreed(uint64_t addr) const {
    uint64_t id = addr >> 32;
    if (id >= next) return false;
    const ChunkRef& c = chunks[id >> 6];
    return c && ((c->freed >> (id & 63)) & 1);
  }
  MemObject* findW(uint64_t addr);  // unshared copy for writing
  void release(uint64_t addr);
};

struct KInstr {
  unsigned op = 0;       // llvm opcode
  unsigned sub = 0;      // predicate / external id
  int dest = -1;
  unsigned w = 0;        // operand width
  unsigned rw = 0;       // result width
  std::vector<int> ops;  // >= 0 register, < 0 constant ~i
  llvm::Instruction* I = nullptr;
  llvm::Type* ty = nullptr;
  uint64_t imm = 0;
  std::vector<std::pair<int, int64_t>> gep;  // operand, scale
  std::vector<unsigned> gepw;
  llvm::Function* callee = nullptr;
};
struct KBlock {
  std::vector<KInstr> code;
  int id = 0;
  std::vector<int> succ;
  bool endsDead = false;   // ends in unreachable
  int ipdom = -2;          // -1: function exit, -2: none
  std::vector<uint64_t> live;  // registers live after the phis
  // phis: dest reg and per-predecessor operand
  std::vector<int> phiDest;
  std::map<KBlock*, std::vector<int>> phiIn;
};
struct KFunction {
  llvm::Function* F;
  std::string name;
  unsigned nregs = 0;
  std::vector<std::unique_ptr<KBlock>> blocks;
  std::map<const llvm::BasicBlock*, KBlock*> bmap;
  std::vector<Val> consts;
  uint64_t executed = 0;
  bool analysed = false;
};
struct Frame {
  KFunction* f = nullptr;
  KBlock* b = nullptr;
  unsigned ip = 0;
  int retDest = -1;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> varargs;
};
struct Input {
  std::string name;
  uint64_t size;
  std::vector<Expr*> bytes;
};
struct Observation {
  Expr* e;       // null if concrete
  uint64_t c;
};
struct State {
  std::vector<Frame> stack;
  Memory mem;
  std::vector<Expr*> pc;
  ModelRef model;
  std::unordered_map<Expr*, uint64_t> conc;
  std::vector<Input> inputs;
  std::vector<Observation> obs;
  std::unordered_map<Expr*, Expr*> uf;
  uint64_t steps = 0;
  unsigned depth = 0;
  bool usesUninit = false;
  std::vector<uint64_t> choices;  // explicit choices, never merged
};
#endif
