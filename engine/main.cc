// Symbolic executor for LLVM bitcode: explores every feasible path of
// `harness_main` and lets the SMT solver decide branches, memory bounds and
// assertions.
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>

#include "state.h"

using namespace llvm;

Expr* const UNINIT = (Expr*)1;
static LLVMContext gCtx;
static std::unique_ptr<Module> gMod;
static const DataLayout* DL;
static std::unordered_map<const Function*, KFunction*> gFuncs;
static std::unordered_map<const GlobalValue*, uint64_t> gGlobalAddr;
static std::unordered_map<uint64_t, Function*> gFuncByAddr;
static std::vector<std::unique_ptr<State>> gWork;

// options
static double optTime = 600;
static unsigned optQueryMs = 60000;
static uint64_t optMaxSteps = 20000000, optMaxPaths = 1000000;
static int optCase = 0;
static unsigned optSamples = 4, optMaxViol = 4;
static bool optVerbose = false;
static uint64_t optHugeAlloc = 1ull << 28;
// Symbolic allocation sizes above this are explored with one representative.
static uint64_t optAllocSmall = 256;
static uint64_t optDivSplit = 0;
static uint64_t gAllocReps = 0;
static unsigned optEnumLimit = 300;
static uint64_t optMerge = 32;
static uint64_t gMerges = 0;
static std::string optOut;

static double now() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}
static double gStart;

// ------------------------------------------------------------------ results
struct Violation {
  std::string kind, msg, where, stack;
  std::string values;
  bool usesUninit = false;
};
struct Sample {
  std::string values;
  std::vector<uint64_t> obs;
};
static std::vector<Violation> gViol;
static std::set<std::string> gViolSeen;
static std::map<std::string, uint64_t> gReach;
static std::map<std::string, uint64_t> gIncomplete;
static std::vector<Sample> gSamples;
static uint64_t gPaths = 0, gForks = 0, gInstrs = 0, gAssumeEnd = 0, gAsserts = 0,
                gAssertQueries = 0, gBranches = 0, gMemChecks = 0;
static std::map<std::string, uint64_t> gExtern;

struct PathEnd {};
static bool gQueryUnin = false;
static unsigned gInRegion = 0;

struct Restart {};
[[noreturn]] static void endPath() { throw PathEnd(); }

static void jsonStr(std::ostream& o, const std::string& s) {
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      o << '\\' << c;
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o << b;
    } else
      o << c;
  }
  o << '"';
}

static std::string valuesOf(State& s, const Model& m) {
  std::string r;
  char b[4];
  for (auto& in : s.inputs) {
    r += in.name;
    r += " ";
    r += std::to_string(in.size);
    r += " ";
    if (in.size == 0) r += "-";
    for (Expr* e : in.bytes) {
      snprintf(b, sizeof b, "%02x", (unsigned)(uint64_t)evalExpr(e, m));
      r += b;
    }
    r += "\n";
  }
  return r;
}

static KInstr* curInstr(State& s) {
  Frame& f = s.stack.back();
  if (f.ip < f.b->code.size()) return &f.b->code[f.ip];
  return nullptr;
}
static std::string locOf(Instruction* I) {
  if (!I) return "?";
  if (DILocation* l = I->getDebugLoc())
    return l->getFilename().str() + ":" + std::to_string(l->getLine());
  return "?";
}
static std::string stackOf(State& s) {
  std::string r;
  for (size_t i = s.stack.size(); i-- > 0;) {
    Frame& f = s.stack[i];
    Instruction* I = f.ip < f.b->code.size() ? f.b->code[f.ip].I : nullptr;
    r += f.f->name + " (" + locOf(I) + ")\n";
  }
  return r;
}

static void violation(State& s, const std::string& kind,
                      const std::string& msg, const Model& m) {
  std::string where = "?";
  // innermost frame that lies in the code under test
  for (size_t i = s.stack.size(); i-- > 0;) {
    Frame& f = s.stack[i];
    Instruction* I = f.ip < f.b->code.size() ? f.b->code[f.ip].I : nullptr;
    std::string l = locOf(I);
    if (l.find("iamf/") != std::string::npos || i == 0) {
      where = f.f->name + " " + l;
      break;
    }
  }
  std::string key = kind + "|" + (kind == "assert" ? msg : where);
  if (!gViolSeen.insert(key).second) return;
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.where = where;
  v.stack = stackOf(s);
  v.values = valuesOf(s, m);
  v.usesUninit = s.usesUninit || gQueryUnin;
  if (optVerbose)
    fprintf(stderr, "VIOLATION %s: %s at %s\n%s%s", kind.c_str(), msg.c_str(),
            where.c_str(), v.stack.c_str(), v.values.c_str());
  gViol.push_back(v);
}
static void incomplete(State& s, const std::string& why) {
  std::string w = why;
  KInstr* k = s.stack.empty() ? nullptr : curInstr(s);
  if (!s.stack.empty()) w += " in " + s.stack.back().f->name;
  if (k) w += " " + locOf(k->I);
  if (gIncomplete[w]++ == 0 && optVerbose) {
    fprintf(stderr, "incomplete: %s\n", w.c_str());
    if (k && k->I) k->I->print(errs()), errs() << "\n";
    fprintf(stderr, "%s", stackOf(s).c_str());
  }
}

// ------------------------------------------------------------------- memory
uint64_t Memory::alloc(uint64_t size, ObjKind k, bool uninit) {
  if ((next >> 6) >= chunks.size()) chunks.push_back(std::make_shared<Chunk>());
  ChunkRef& c = chunks[next >> 6];
  if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  auto o = std::make_shared<MemObject>();
  o->base = (next << 32) + 0x10000;
  o->size = size;
  o->kind = k;
  o->data.resize(size);
  if (uninit && size) {
    o->sym.assign(size, UNINIT);
    o->nsym = (uint32_t)size;
  }
  c->o[next & 63] = o;
  next++;
  return o->base;
}
MemObject* Memory::findW(uint64_t addr) {
  uint64_t id = addr >> 32;
  if (id >= next) return nullptr;
  ChunkRef& c = chunks[id >> 6];
  if (!c || !c->o[id & 63]) return nullptr;
  if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  ObjRef& o = c->o[id & 63];
  if (o.use_count() > 1) o = std::make_shared<MemObject>(*o);
  return o.get();
}
void Memory::release(uint64_t addr) {
  uint64_t id = addr >> 32;
  ChunkRef& c = chunks[id >> 6];
  if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  c->o[id & 63].reset();
  c->freed |= 1ull << (id & 63);
}

static uint64_t gUninitId = 0;
static void noteUninit(State& s) {

}
static Expr* byteAt(State& s, MemObject* o, uint64_t off) {
  if (o->sym.empty() || !o->sym[off]) return mkConst(o->data[off], 8);
  if (o->sym[off] == UNINIT) {
    Expr* v = mkVar("uninit" + std::to_string(gUninitId++), 8, false, true);
    o->sym[off] = v;  // every state sharing the object sees the same byte
    noteUninit(s);
  }
  return o->sym[off];
}
static bool anySym(MemObject* o, uint64_t off, uint64_t n) {
  if (!o->nsym) return false;
  for (uint64_t i = 0; i < n; i++)
    if (o->sym[off + i]) return true;
  return false;
}
static Val loadInt(State& s, MemObject* o, uint64_t off, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  if (n <= 8 && !anySym(o, off, n)) {
    uint64_t v = 0;
    memcpy(&v, &o->data[off], n);
    return Val(v & mask64(bits));
  }
  bool allUninit = n > 1 && n <= 8;
  if (allUninit)
    for (unsigned i = 0; i < n; i++)
      if (o->sym.empty() || o->sym[off + i] != UNINIT) {
        allUninit = false;
        break;
      }
  if (allUninit) {
    Expr* v = mkVar("uninit" + std::to_string(gUninitId++), 8 * n, false, true);
    for (unsigned i = 0; i < n; i++)
      o->sym[off + i] = mkExtract(v, 8 * i, 8, false);
    noteUninit(s);
  }
  Expr* e = byteAt(s, o, off);
  for (unsigned i = 1; i < n; i++) e = mkConcat(byteAt(s, o, off + i), e);
  if (bits < 8 * n) e = mkExtract(e, 0, bits);
  return exprValue(e);
}
static void setByte(MemObject* o, uint64_t off, Expr* e) {
  if (e->isConst()) {
    o->data[off] = (uint8_t)e->imm;
    if (!o->sym.empty() && o->sym[off]) {
      o->sym[off] = nullptr;
      o->nsym--;
    }
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  if (!o->sym[off]) o->nsym++;
  o->sym[off] = e;
}
static Expr* exprOf(const Val& v, unsigned w);
static void storeInt(MemObject* o, uint64_t off, const Val& v, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  if (v.concrete()) {
    uint64_t x = v.c & mask64(bits);
    for (unsigned i = 0; i < n; i++) o->data[off + i] = i < 8 ? (uint8_t)(x >> (8 * i)) : 0;
    if (o->nsym)
      for (unsigned i = 0; i < n; i++)
        if (o->sym[off + i]) {
          o->sym[off + i] = nullptr;
          o->nsym--;
        }
    return;
  }
  Expr* e = v.e;
  if (bits < 8 * n) e = mkZExt(e, 8 * n);
  for (unsigned i = 0; i < n; i++)
    setByte(o, off + i, mkExtract(e, 8 * i, 8, false));
}
static Val loadTy(State& s, MemObject* o, uint64_t off, Type* t) {
  if (t->isIntegerTy()) return loadInt(s, o, off, t->getIntegerBitWidth());
  if (t->isPointerTy() || t->isDoubleTy()) return loadInt(s, o, off, 64);
  if (t->isFloatTy()) return loadInt(s, o, off, 32);
  std::vector<Val> v;
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      v.push_back(loadTy(s, o, off + sl->getElementOffset(i), st->getElementType(i)));
    return aggValue(std::move(v));
  }
  uint64_t n;
  Type* et;
  if (auto* at = dyn_cast<ArrayType>(t)) {
    n = at->getNumElements();
    et = at->getElementType();
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    n = vt->getNumElements();
    et = vt->getElementType();
  } else {
    incomplete(s, "load of unsupported type");
    endPath();
  }
  uint64_t es = DL->getTypeAllocSize(et);
  for (uint64_t i = 0; i < n; i++) v.push_back(loadTy(s, o, off + i * es, et));
  return aggValue(std::move(v));
}
static void storeTy(State& s, MemObject* o, uint64_t off, const Val& v, Type* t) {
  if (t->isIntegerTy()) return storeInt(o, off, v, t->getIntegerBitWidth());
  if (t->isPointerTy() || t->isDoubleTy()) return storeInt(o, off, v, 64);
  if (t->isFloatTy()) return storeInt(o, off, v, 32);
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      storeTy(s, o, off + sl->getElementOffset(i), v.agg->v[i], st->getElementType(i));
    return;
  }
  Type* et;
  if (auto* at = dyn_cast<ArrayType>(t)) et = at->getElementType();
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) et = vt->getElementType();
  else {
    incomplete(s, "store of unsupported type");
    endPath();
  }
  uint64_t es = DL->getTypeAllocSize(et);
  for (size_t i = 0; i < v.agg->v.size(); i++) storeTy(s, o, off + i * es, v.agg->v[i], et);
}

// --------------------------------------------------------------- constants
static Val zeroOf(Type* t);
static unsigned bitsOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy() || t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static bool scalarTy(Type* t) { return bitsOf(t) != 0; }
static Val apValue(const APInt& a) {
  if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
  u128 v = a.extractBitsAsZExtValue(64, 0);
  if (a.getBitWidth() > 64)
    v |= (u128)a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64;
  Val r;
  r.e = mkConst(v, a.getBitWidth());
  return r;
}
static int64_t gepConst(const GEPOperator* g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) {
    fprintf(stderr, "non-constant constant GEP\n");
    exit(4);
  }
  return off.getSExtValue();
}
static Val evalConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return apValue(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) return apValue(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (auto* gv = dyn_cast<GlobalAlias>(c)) return evalConst(gv->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gGlobalAddr.find(gv);
    return Val(it == gGlobalAddr.end() ? 0 : it->second);
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Val> v;
    for (auto& o : ca->operands()) v.push_back(evalConst(cast<Constant>(o)));
    return aggValue(std::move(v));
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++)
      v.push_back(evalConst(cd->getElementAsConstant(i)));
    return aggValue(std::move(v));
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return evalConst(ce->getOperand(i)); };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr:
        return Val(op(0).c + (uint64_t)gepConst(cast<GEPOperator>(ce)));
      case Instruction::BitCast: case Instruction::PtrToInt:
      case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return Val(op(0).c & mask64(bitsOf(ce->getType())));
      case Instruction::Trunc:
        return Val(op(0).c & mask64(bitsOf(ce->getType())));
      case Instruction::Add: return Val((op(0).c + op(1).c) & mask64(bitsOf(ce->getType())));
      case Instruction::Sub: return Val((op(0).c - op(1).c) & mask64(bitsOf(ce->getType())));
      case Instruction::ICmp:
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: return Val(op(0).c == op(1).c);
          case CmpInst::ICMP_NE: return Val(op(0).c != op(1).c);
          case CmpInst::ICMP_ULT: return Val(op(0).c < op(1).c);
          case CmpInst::ICMP_UGT: return Val(op(0).c > op(1).c);
          default: break;
        }
        break;
      default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n";
  exit(4);
}
static Val zeroOf(Type* t) {
  if (scalarTy(t)) {
    if (bitsOf(t) > 64) {
      Val r;
      r.e = mkConst(0, bitsOf(t));
      return r;
    }
    return Val(0);
  }
  std::vector<Val> v;
  if (auto* st = dyn_cast<StructType>(t))
    for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(zeroOf(st->getElementType(i)));
  else if (auto* at = dyn_cast<ArrayType>(t))
    for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
  else if (auto* vt = dyn_cast<FixedVectorType>(t))
    for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
  return aggValue(std::move(v));
}
static void writeConst(MemObject* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // zeroed
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues();
    memcpy(&o->data[off], r.data(), r.size());
    return;
  }
  if (auto* ca = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < ca->getNumOperands(); i++)
      writeConst(o, off + sl->getElementOffset(i), ca->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType()
                                 : cast<FixedVectorType>(t)->getElementType();
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < c->getNumOperands(); i++)
      writeConst(o, off + i * es, cast<Constant>(c->getOperand(i)));
    return;
  }
  storeInt(o, off, evalConst(c), bitsOf(t));
}

// ------------------------------------------------------------- preparation
enum Ext : unsigned {
  X_None, X_SymMake, X_SymAssume, X_SymAssert, X_SymFail, X_SymReach, X_SymObserve,
  X_SymConc, X_SymReal, X_SymCase, X_SymEngine, X_SymStop,
  X_New, X_NewArr, X_Malloc, X_Calloc, X_Realloc, X_Free, X_Delete, X_DeleteArr,
  X_Memcpy, X_Memset, X_Memcmp, X_Bcmp, X_Memchr, X_Strlen, X_Strcmp, X_Strncmp,
  X_Throw, X_Abort, X_Exit, X_Ret0, X_AtExit,
  X_MathUn, X_MathBin, X_FRound, X_FAbs, X_FSqrt, X_Frexp, X_Lround, X_ModF, X_Ldexp,
  X_Nop, X_ErrnoLoc, X_Assume, X_Time,
  X_IUMax, X_IUMin, X_ISMax, X_ISMin, X_IAbs, X_IAddOvf, X_ISubOvf, X_IMulOvf,
  X_UAddOvf, X_USubOvf, X_UMulOvf, X_Ctpop, X_Ctlz, X_Cttz, X_Bswap, X_BitRev, X_Fshl, X_Fshr,
  X_UAddSat, X_USubSat, X_SAddSat, X_SSubSat, X_CopySign, X_FMin, X_FMax, X_Fma, X_ObjSize, X_IsConst,
  X_Trap, X_First, X_FClass, X_Zero, X_FpToSiSat, X_FpToUiSat, X_IntrPowi, X_VReduceAdd, X_VReduceFAdd,
  X_Unsupported, X_VaStart, X_VaEnd, X_Snprintf,
};
static double (*mathUn(const std::string& n))(double) {
  static const std::map<std::string, double (*)(double)> m = {
      {"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos},
      {"atan", atan}, {"exp", exp}, {"exp2", exp2}, {"log", log}, {"log2", log2},
      {"log10", log10}, {"log1p", log1p}, {"expm1", expm1}, {"sinh", sinh}, {"cosh", cosh},
      {"tanh", tanh}, {"cbrt", cbrt}, {"logb", logb}};
  auto it = m.find(n);
  return it == m.end() ? nullptr : it->second;
}
static double (*mathBin(const std::string& n))(double, double) {
  static const std::map<std::string, double (*)(double, double)> m = {
      {"pow", pow}, {"atan2", atan2}, {"fmod", fmod}, {"hypot", hypot}, {"remainder", remainder}};
  auto it = m.find(n);
  return it == m.end() ? nullptr : it->second;
}
static std::string stripF(const std::string& n) {
  if (n.size() > 1 && n.back() == 'f' && n != "erf") {
    std::string b = n.substr(0, n.size() - 1);
    static const std::set<std::string> others = {"floor", "ceil", "trunc", "round", "rint",
        "nearbyint", "roundeven", "fabs", "sqrt", "fmin", "fmax", "copysign", "fma", "lround",
        "lrint", "llround", "llrint", "frexp", "modf", "ldexp", "scalbn"};
    if (mathUn(b) || mathBin(b) || others.count(b)) return b;
  }
  return n;
}
static bool starts(StringRef s, const char* p) { return s.starts_with(p); }

static Ext extOf(const Function* F) {
  StringRef n = F->getName();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return X_Memcpy;
      case Intrinsic::memset: return X_Memset;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::dbg_assign:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
      case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore:
      case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::var_annotation:
      case Intrinsic::assume:
        return X_Nop;
      case Intrinsic::stacksave: return X_Zero;
      case Intrinsic::expect: case Intrinsic::expect_with_probability:
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy:
      case Intrinsic::ptr_annotation: case Intrinsic::arithmetic_fence:
        return X_First;
      case Intrinsic::umax: return X_IUMax;
      case Intrinsic::umin: return X_IUMin;
      case Intrinsic::smax: return X_ISMax;
      case Intrinsic::smin: return X_ISMin;
      case Intrinsic::abs: return X_IAbs;
      case Intrinsic::sadd_with_overflow: return X_IAddOvf;
      case Intrinsic::ssub_with_overflow: return X_ISubOvf;
      case Intrinsic::smul_with_overflow: return X_IMulOvf;
      case Intrinsic::uadd_with_overflow: return X_UAddOvf;
      case Intrinsic::usub_with_overflow: return X_USubOvf;
      case Intrinsic::umul_with_overflow: return X_UMulOvf;
      case Intrinsic::uadd_sat: return X_UAddSat;
      case Intrinsic::usub_sat: return X_USubSat;
      case Intrinsic::sadd_sat: return X_SAddSat;
      case Intrinsic::ssub_sat: return X_SSubSat;
      case Intrinsic::ctpop: return X_Ctpop;
      case Intrinsic::ctlz: return X_Ctlz;
      case Intrinsic::cttz: return X_Cttz;
      case Intrinsic::bswap: return X_Bswap;
      case Intrinsic::bitreverse: return X_BitRev;
      case Intrinsic::fshl: return X_Fshl;
      case Intrinsic::fshr: return X_Fshr;
      case Intrinsic::fabs: return X_FAbs;
      case Intrinsic::sqrt: return X_FSqrt;
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint:
      case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven:
        return X_FRound;
      case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint:
        return X_Lround;
      case Intrinsic::copysign: return X_CopySign;
      case Intrinsic::minnum: case Intrinsic::minimum: return X_FMin;
      case Intrinsic::maxnum: case Intrinsic::maximum: return X_FMax;
      case Intrinsic::fma: case Intrinsic::fmuladd: return X_Fma;
      case Intrinsic::pow: return X_MathBin;
      case Intrinsic::powi: return X_IntrPowi;
      case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2:
      case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10:
        return X_MathUn;
      case Intrinsic::objectsize: return X_ObjSize;
      case Intrinsic::is_constant: return X_IsConst;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return X_Trap;
      case Intrinsic::is_fpclass: return X_FClass;
      case Intrinsic::fptosi_sat: return X_FpToSiSat;
      case Intrinsic::fptoui_sat: return X_FpToUiSat;
      case Intrinsic::vector_reduce_add: return X_VReduceAdd;
      case Intrinsic::vector_reduce_fadd: return X_VReduceFAdd;
      case Intrinsic::vastart: return X_VaStart;
      case Intrinsic::vaend: return X_VaEnd;
      default: return X_Unsupported;
    }
  }
  static const std::map<std::string, Ext> m = {
      {"sym_make", X_SymMake}, {"sym_assume", X_SymAssume}, {"sym_assert", X_SymAssert},
      {"sym_fail", X_SymFail}, {"sym_reach", X_SymReach}, {"sym_observe", X_SymObserve},
      {"sym_concretize", X_SymConc}, {"sym_real", X_SymReal}, {"sym_case", X_SymCase},
      {"sym_engine", X_SymEngine}, {"sym_stop", X_SymStop},
      {"malloc", X_Malloc}, {"calloc", X_Calloc}, {"realloc", X_Realloc}, {"free", X_Free},
      {"aligned_alloc", X_NewArr},
      {"_Znwm", X_New}, {"_ZnwmSt11align_val_t", X_New}, {"_ZnwmRKSt9nothrow_t", X_New},
      {"_Znam", X_NewArr}, {"_ZnamSt11align_val_t", X_NewArr}, {"_ZnamRKSt9nothrow_t", X_NewArr},
      {"_ZdlPv", X_Delete}, {"_ZdlPvm", X_Delete}, {"_ZdlPvSt11align_val_t", X_Delete},
      {"_ZdlPvmSt11align_val_t", X_Delete}, {"_ZdlPvRKSt9nothrow_t", X_Delete},
      {"_ZdaPv", X_DeleteArr}, {"_ZdaPvm", X_DeleteArr}, {"_ZdaPvSt11align_val_t", X_DeleteArr},
      {"_ZdaPvmSt11align_val_t", X_DeleteArr}, {"_ZdaPvRKSt9nothrow_t", X_DeleteArr},
      {"memcpy", X_Memcpy}, {"memmove", X_Memcpy}, {"memset", X_Memset},
      {"memcmp", X_Memcmp}, {"bcmp", X_Bcmp}, {"memchr", X_Memchr}, {"strlen", X_Strlen},
      {"strcmp", X_Strcmp}, {"strncmp", X_Strncmp},
      {"abort", X_Abort}, {"_ZSt9terminatev", X_Abort}, {"__cxa_pure_virtual", X_Abort},
      {"__assert_fail", X_Abort}, {"verif_check_failed", X_Abort}, {"exit", X_Exit}, {"_exit", X_Exit},
      {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_Abort},
      {"__cxa_atexit", X_AtExit}, {"__cxa_thread_atexit", X_AtExit},
      {"floor", X_FRound}, {"ceil", X_FRound}, {"trunc", X_FRound}, {"round", X_FRound},
      {"rint", X_FRound}, {"nearbyint", X_FRound}, {"roundeven", X_FRound},
      {"lround", X_Lround}, {"llround", X_Lround}, {"lrint", X_Lround}, {"llrint", X_Lround},
      {"fabs", X_FAbs}, {"sqrt", X_FSqrt}, {"fmin", X_FMin}, {"fmax", X_FMax},
      {"copysign", X_CopySign}, {"fma", X_Fma}, {"frexp", X_Frexp}, {"modf", X_ModF},
      {"ldexp", X_Ldexp}, {"scalbn", X_Ldexp},
      {"puts", X_Ret0}, {"printf", X_Ret0}, {"fprintf", X_Ret0}, {"putchar", X_Ret0}, {"fputs", X_Ret0},
      {"fwrite", X_Ret0}, {"fflush", X_Ret0}, {"fputc", X_Ret0},
      {"_ZNSt8ios_base4InitC1Ev", X_Nop}, {"_ZNSt8ios_base4InitD1Ev", X_Nop},
      {"__errno_location", X_ErrnoLoc}, {"time", X_Ret0},
      {"snprintf", X_Snprintf},
  };
  std::string k = stripF(n.str());
  auto it = m.find(k);
  if (it != m.end()) return it->second;
  if (mathUn(k)) return X_MathUn;
  if (mathBin(k)) return X_MathBin;
  if (starts(n, "_ZSt") && n.contains("__throw_")) return X_Throw;
  if (starts(n, "_ZSt") && n.contains("_throw")) return X_Throw;
  if (n == "__cxa_throw" || n == "__cxa_rethrow" || n == "__cxa_bad_cast") return X_Throw;
  return X_Unsupported;
}

static KFunction* prepare(Function* F) {
  auto it = gFuncs.find(F);
  if (it != gFuncs.end()) return it->second;
  KFunction* kf = new KFunction;
  gFuncs[F] = kf;
  kf->F = F;
  kf->name = F->getName().str();
  std::unordered_map<const llvm::Value*, int> reg;
  std::unordered_map<const Constant*, int> cst;
  unsigned n = 0;
  for (auto& a : F->args()) reg[&a] = n++;
  for (auto& bb : *F)
    for (auto& i : bb)
      if (!i.getType()->isVoidTy()) reg[&i] = n++;
  kf->nregs = n;
  for (auto& bb : *F) {
    kf->blocks.emplace_back(new KBlock);
    kf->blocks.back()->id = (int)kf->blocks.size() - 1;
    kf->bmap[&bb] = kf->blocks.back().get();
  }
  for (auto& bb : *F) {
    KBlock* kb = kf->bmap[&bb];
    kb->endsDead = isa<UnreachableInst>(bb.getTerminator());
    for (auto* sb : successors(&bb)) kb->succ.push_back(kf->bmap[sb]->id);
  }
  auto opIdx = [&](const llvm::Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cst.find(c);
      if (it != cst.end()) return it->second;
      kf->consts.push_back(evalConst(c));
      int id = ~(int)(kf->consts.size() - 1);
      cst[c] = id;
      return id;
    }
    auto it = reg.find(v);
    if (it == reg.end()) return ~0x7fffffff;  // metadata, asm
    return it->second;
  };
  for (auto& bb : *F) {
    KBlock* kb = kf->bmap[&bb];
    for (auto& I : bb) {
      if (auto* phi = dyn_cast<PHINode>(&I)) {
        kb->phiDest.push_back(reg[phi]);
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) {
          auto& v = kb->phiIn[kf->bmap[phi->getIncomingBlock(i)]];
          // a predecessor may be listed several times (switch)
          if (v.size() < kb->phiDest.size()) v.push_back(opIdx(phi->getIncomingValue(i)));
        }
        continue;
      }
      KInstr k;
      k.op = I.getOpcode();
      k.I = &I;
      k.ty = I.getType();
      k.dest = I.getType()->isVoidTy() ? -1 : reg[&I];
      k.rw = bitsOf(I.getType());
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        llvm::Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        k.callee = dyn_cast<Function>(cv);
        if (k.callee) {
          if (k.callee->isDeclaration()) k.sub = extOf(k.callee);
          if (k.sub == X_Nop) continue;
          if (k.callee->isDeclaration() && !gGlobalAddr.count(k.callee)) {
          }
        }
        for (auto& a : cb->args()) k.ops.push_back(opIdx(a));
        if (cb->arg_size()) k.w = bitsOf(cb->getArgOperand(0)->getType());
        k.ops.push_back(isa<InlineAsm>(cv) ? ~0x7fffffff : opIdx(cb->getCalledOperand()));
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        int64_t off = 0;
        k.ops.push_back(opIdx(g->getPointerOperand()));
        for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
          llvm::Value* idx = ti.getOperand();
          if (StructType* st = ti.getStructTypeOrNull()) {
            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            int64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx))
              off += ci->getSExtValue() * sz;
            else {
              k.gep.push_back({opIdx(idx), sz});
              k.gepw.push_back(bitsOf(idx->getType()));
            }
          }
        }
        k.imm = (uint64_t)off;
      } else {
        for (auto& o : I.operands())
          if (!isa<BasicBlock>(o)) k.ops.push_back(opIdx(o));
        if (I.getNumOperands()) k.w = bitsOf(I.getOperand(0)->getType());
        if (auto* c = dyn_cast<CmpInst>(&I)) k.sub = c->getPredicate();
        if (auto* a = dyn_cast<AllocaInst>(&I)) {
          k.imm = DL->getTypeAllocSize(a->getAllocatedType());
        }
        if (isa<LoadInst>(I)) k.imm = DL->getTypeStoreSize(I.getType());
        if (auto* st = dyn_cast<StoreInst>(&I)) {
          k.ty = st->getValueOperand()->getType();
          k.imm = DL->getTypeStoreSize(k.ty);
          k.w = bitsOf(k.ty);
        }
      }
      kb->code.push_back(std::move(k));
    }
  }
  return kf;
}

// ----------------------------------------------------------------- helpers
static Expr* exprOf(const Val& v, unsigned w) {
  return v.e ? v.e : mkConst(v.c, w);
}
static inline const Val& opv(Frame& f, int i) {
  return i >= 0 ? f.regs[i] : f.f->consts[~i];
}
static void addPC(State& s, Expr* c) {
  if (c->isConst()) return;
  // split conjunctions
  if (c->kind == K_And && c->width == 1) {
    addPC(s, c->a);
    addPC(s, c->b);
    return;
  }
  s.pc.push_back(c);
  if (c->unin) {
    if (optVerbose && !s.usesUninit) fprintf(stderr, "decision on uninitialised memory\n%s\n", stackOf(s).c_str());
    s.usesUninit = true;
  }
  if (c->kind == K_Eq && c->b->isConst() && c->b->width <= 64) s.conc[c->a] = (uint64_t)c->b->imm;
}
static std::map<std::pair<std::string, std::string>, uint64_t> gForkAt;
static bool optForks = getenv("SYMEX_FORKS") != nullptr;
static State* forkState(State& s) {
  gForks++;
  if (optForks && !s.stack.empty()) {
    KInstr* k = curInstr(s);
    std::string at = k ? locOf(k->I) : "";
    if (s.stack.size() > 1) at += " <- " + s.stack[s.stack.size() - 2].f->name;
    gForkAt[{s.stack.back().f->name, at}]++;
  }
  gWork.emplace_back(new State(s));
  return gWork.back().get();
}
// Makes sure the model satisfies `c` (known to be feasible) and adds it.
static SatResult sat(State& s, Expr* c, ModelRef& m) {
  gQueryUnin = c->unin;
  const double left = optTime - (now() - gStart);
  if (left <= 0) {
    incomplete(s, "time limit");
    endPath();
  }
  gQueryTimeoutMs = std::min<double>(optQueryMs, left * 1000 + 500);
  if (optForks && !s.stack.empty()) {
    KInstr* k = curInstr(s);
    std::string at = k ? locOf(k->I) : "";
    if (s.stack.size() > 1) at += " <- " + s.stack[s.stack.size() - 2].f->name;
    gForkAt[{"query " + s.stack.back().f->name, at}]++;
  }
  SatResult r = checkSat(s.pc, c, m);
  if (r == UNKNOWN) incomplete(s, "solver timeout");
  return r;
}
// Decides a condition; forks when both outcomes are feasible.  The state
// continues with the returned outcome, the clone restarts the instruction.
static bool decide(State& s, Expr* c) {
  if (c->isConst()) return c->imm != 0;
  auto it = s.conc.find(c);
  if (it != s.conc.end()) return it->second != 0;
  gBranches++;
  if (c->real) {
    ModelRef mt = s.model, mf = s.model;
    SatResult t = sat(s, c, mt);
    SatResult f = t == UNSAT ? SAT : sat(s, mkNot(c), mf);
    if (t == UNSAT) return false;
    if (f == UNSAT) { s.model = mt; return true; }
    State* o = forkState(s);
    addPC(*o, mkNot(c));
    o->conc[c] = 0;
    o->model = mf;
    addPC(s, c);
    s.conc[c] = 1;
    s.model = mt;
    return true;
  }
  bool v = evalExpr(c, *s.model) != 0;
  ModelRef m = s.model;
  Expr* other = v ? mkNot(c) : c;
  SatResult r = sat(s, other, m);
  if (r == SAT) {
    State* o = forkState(s);
    addPC(*o, other);
    o->conc[c] = !v;
    o->model = m;
    addPC(s, v ? c : mkNot(c));
    s.conc[c] = v;
  } else if (r == UNSAT) {
    s.conc[c] = v;
  } else {
    addPC(s, v ? c : mkNot(c));
    s.conc[c] = v;
  }
  return v;
}
// Makes a value concrete, forking for the other feasible values.
static uint64_t concretize(State& s, const Val& v, unsigned w) {
  if (v.concrete()) return v.c;
  auto it = s.conc.find(v.e);
  if (it != s.conc.end()) return it->second;
  uint64_t x = (uint64_t)evalExpr(v.e, *s.model);
  if (v.e->real) {
    incomplete(s, "concretisation of a real-mode value");
    endPath();
  }
  Expr* eq = mkCmp(K_Eq, v.e, mkConst(x, v.e->width));
  ModelRef m = s.model;
  SatResult r = sat(s, mkNot(eq), m);
  if (r == SAT) {
    State* o = forkState(s);
    addPC(*o, mkNot(eq));
    o->model = m;
  }
  addPC(s, eq);
  s.conc[v.e] = x;
  return x;
}

// Resolves an address for an access of n bytes.  Returns the object and the
// offset expression (null when concrete, then `off`).
struct Res {
  MemObject* o;
  uint64_t off;
  Expr* offE;
};
static Res resolve(State& s, const Val& p, uint64_t n, bool write) {
  gMemChecks++;
  if (p.concrete()) {
    MemObject* o = s.mem.find(p.c);
    if (!o || p.c - o->base > o->size || o->size - (p.c - o->base) < n) {
      const char* kind = "memory";
      std::string msg;
      if (p.c < 65536) msg = "null pointer access";
      else if (!o && s.mem.wasFreed(p.c)) msg = "use after free";
      else if (o) msg = "out of bounds access: offset " + std::to_string((int64_t)(p.c - o->base)) +
                        " size " + std::to_string(n) + " object size " + std::to_string(o->size);
      else msg = "wild pointer access";
      violation(s, kind, msg, *s.model);
      endPath();
    }
    if (write && o->ro) {
      violation(s, "memory", "write to constant object", *s.model);
      endPath();
    }
    return {write ? s.mem.findW(p.c) : o, p.c - o->base, nullptr};
  }
  auto it = s.conc.find(p.e);
  if (it != s.conc.end()) return resolve(s, Val(it->second), n, write);
  uint64_t a = (uint64_t)evalExpr(p.e, *s.model);
  MemObject* o = s.mem.find(a);
  if (!o || a - o->base > o->size || o->size - (a - o->base) < n) {
    violation(s, "memory", "out of bounds access through a computed address" +
              std::string(o ? ": offset " + std::to_string((int64_t)(a - o->base)) + " size " +
                                  std::to_string(n) + " object size " + std::to_string(o->size)
                            : ""), *s.model);
    // Continue with other addresses, if any.
    Expr* ne = mkNot(mkCmp(K_Eq, p.e, mkConst(a, 64)));
    ModelRef m = s.model;
    if (o && o->size >= n) ne = mkCmp(K_Ule, mkBin(K_Sub, p.e, mkConst(o->base, 64)), mkConst(o->size - n, 64));
    if (sat(s, ne, m) == SAT) {
      addPC(s, ne);
      s.model = m;
      return resolve(s, p, n, write);
    }
    endPath();
  }
  Expr* off = mkBin(K_Sub, p.e, mkConst(o->base, 64));
  Expr* inb = mkCmp(K_Ule, off, mkConst(o->size - n, 64));
  ModelRef m = s.model;
  if (!inb->isConst() && sat(s, mkNot(inb), m) == SAT) {
    State* x = forkState(s);
    addPC(*x, mkNot(inb));
    x->model = m;
    addPC(s, inb);
  }
  if (off->isConst()) return {write ? s.mem.findW(o->base) : o, (uint64_t)off->imm, nullptr};
  if (write && o->ro) {
    violation(s, "memory", "write to constant object", *s.model);
    endPath();
  }
  return {write ? s.mem.findW(o->base) : o, 0, off};
}

static Val iteValue(State& s, Expr* c, const Val& a, const Val& b, Type* t);
static Val doLoad(State& s, const Val& p, Type* t, uint64_t n) {
  Res r = resolve(s, p, n, false);
  if (!r.offE) return loadTy(s, r.o, r.off, t);
  // Symbolic offset.
  unsigned tz = trailingZeros(r.offE);
  uint64_t stride = tz >= 12 ? 4096 : (1ull << tz);
  if (!scalarTy(t) || r.o->size / stride > 8192) {
    uint64_t a = concretize(s, p, 64);
    return doLoad(s, Val(a), t, n);
  }
  uint64_t lo = 0, hi = r.o->size - n;
  if (r.offE->umin > lo) lo = r.offE->umin / stride * stride;
  if (r.offE->umax < hi) hi = r.offE->umax;
  unsigned bits = bitsOf(t);
  // Group equal values to keep the expression small.
  Expr* acc = nullptr;
  std::vector<std::pair<uint64_t, Expr*>> ent;
  for (uint64_t k = lo; k <= hi; k += stride) ent.push_back({k, exprOf(loadInt(s, r.o, k, bits), bits)});
  if (ent.empty()) endPath();
  // Most frequent value becomes the default.
  std::unordered_map<Expr*, unsigned> cnt;
  Expr* best = ent[0].second;
  for (auto& x : ent)
    if (++cnt[x.second] > cnt[best]) best = x.second;
  acc = best;
  for (size_t i = ent.size(); i-- > 0;) {
    if (ent[i].second == best) continue;
    acc = mkIte(mkCmp(K_Eq, r.offE, mkConst(ent[i].first, 64)), ent[i].second, acc);
  }
  return exprValue(acc);
}
static void doStore(State& s, const Val& p, const Val& v, Type* t, uint64_t n) {
  Res r = resolve(s, p, n, true);
  if (!r.offE) return storeTy(s, r.o, r.off, v, t);
  unsigned tz = trailingZeros(r.offE);
  uint64_t stride = tz >= 12 ? 4096 : (1ull << tz);
  if (!scalarTy(t) || r.o->size / stride > 64 || stride < n) {
    uint64_t a = concretize(s, p, 64);
    return doStore(s, Val(a), v, t, n);
  }
  unsigned bits = bitsOf(t);
  Expr* e = exprOf(v, bits);
  for (uint64_t k = 0; k + n <= r.o->size; k += stride) {
    Expr* c = mkCmp(K_Eq, r.offE, mkConst(k, 64));
    if (c->isConst() && !c->imm) continue;
    Expr* old = exprOf(loadInt(s, r.o, k, bits), bits);
    storeInt(r.o, k, exprValue(mkIte(c, e, old)), bits);
  }
}

static std::string readCStr(State& s, uint64_t a) {
  std::string r;
  MemObject* o = s.mem.find(a);
  if (!o) return "?";
  for (uint64_t i = a - o->base; i < o->size; i++) {
    if (!o->sym.empty() && o->sym[i]) return r + "?";
    if (!o->data[i]) break;
    r += (char)o->data[i];
  }
  return r;
}

static Val iteValue(State& s, Expr* c, const Val& a, const Val& b, Type* t) {
  if (scalarTy(t)) {
    unsigned w = bitsOf(t);
    return exprValue(mkIte(c, exprOf(a, w), exprOf(b, w)));
  }
  return decide(s, c) ? a : b;
}

// ---------------------------------------------------------- scalar semantics
static Kind binKind(unsigned op) {
  switch (op) {
    case Instruction::Add: return K_Add;
    case Instruction::Sub: return K_Sub;
    case Instruction::Mul: return K_Mul;
    case Instruction::UDiv: return K_UDiv;
    case Instruction::SDiv: return K_SDiv;
    case Instruction::URem: return K_URem;
    case Instruction::SRem: return K_SRem;
    case Instruction::And: return K_And;
    case Instruction::Or: return K_Or;
    case Instruction::Xor: return K_Xor;
    case Instruction::Shl: return K_Shl;
    case Instruction::LShr: return K_LShr;
    case Instruction::AShr: return K_AShr;
    case Instruction::FAdd: return K_FAdd;
    case Instruction::FSub: return K_FSub;
    case Instruction::FMul: return K_FMul;
    case Instruction::FDiv: return K_FDiv;
    default: return K_Const;
  }
}
static Val scalarBin(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem ||
      op == Instruction::SRem) {
    Expr* z = mkCmp(K_Eq, exprOf(b, w), mkConst(0, w));
    if (decide(s, z)) {
      violation(s, "arith", "integer division by zero", *s.model);
      endPath();
    }
  }
  if (a.concrete() && b.concrete()) {
    uint64_t m = mask64(w), x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return Val((x + y) & m);
      case Instruction::Sub: return Val((x - y) & m);
      case Instruction::Mul: return Val((x * y) & m);
      case Instruction::And: return Val(x & y);
      case Instruction::Or: return Val(x | y);
      case Instruction::Xor: return Val(x ^ y);
      case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
      case Instruction::FRem: {
        if (w == 32) {
          float fa, fb; uint32_t xa = x, xb = y;
          memcpy(&fa, &xa, 4); memcpy(&fb, &xb, 4);
          fa = fmodf(fa, fb); memcpy(&xa, &fa, 4);
          return Val(xa);
        }
        double fa, fb;
        memcpy(&fa, &x, 8); memcpy(&fb, &y, 8);
        fa = fmod(fa, fb); memcpy(&x, &fa, 8);
        return Val(x);
      }
      default: return Val((uint64_t)evalBin(binKind(op), x, y, w));
    }
  }
  Kind k = binKind(op);
  if (k == K_Const) {
    incomplete(s, "unsupported binary operator");
    endPath();
  }
  Expr *x = exprOf(a, w), *y = exprOf(b, w);
  if (optDivSplit && (op == Instruction::UDiv || op == Instruction::URem) && !b.concrete() && w <= 64 && !x->real) {
    // Small quotients are split off so that they need no division.
    Expr *xw = mkZExt(x, w + 8), *yw = mkZExt(y, w + 8);
    for (uint64_t q = 0; q < optDivSplit; q++) {
      if (decide(s, mkCmp(K_Ult, xw, mkBin(K_Mul, yw, mkConst(q + 1, w + 8))))) {
        if (op == Instruction::UDiv) return Val(q);
        return exprValue(mkBin(K_Sub, x, mkBin(K_Mul, y, mkConst(q, w))));
      }
    }
  }
  return exprValue(k >= K_FAdd ? mkFBin(k, x, y) : mkBin(k, x, y));
}
static Val scalarICmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (a.concrete() && b.concrete()) {
    uint64_t x = a.c, y = b.c;
    int64_t sx = sext64(x, w), sy = sext64(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return Val(x == y);
      case CmpInst::ICMP_NE: return Val(x != y);
      case CmpInst::ICMP_ULT: return Val(x < y);
      case CmpInst::ICMP_ULE: return Val(x <= y);
      case CmpInst::ICMP_UGT: return Val(x > y);
      case CmpInst::ICMP_UGE: return Val(x >= y);
      case CmpInst::ICMP_SLT: return Val(sx < sy);
      case CmpInst::ICMP_SLE: return Val(sx <= sy);
      case CmpInst::ICMP_SGT: return Val(sx > sy);
      case CmpInst::ICMP_SGE: return Val(sx >= sy);
    }
  }
  Expr *x = exprOf(a, w), *y = exprOf(b, w), *r = nullptr;
  switch (pred) {
    case CmpInst::ICMP_EQ: r = mkCmp(K_Eq, x, y); break;
    case CmpInst::ICMP_NE: r = mkNot(mkCmp(K_Eq, x, y)); break;
    case CmpInst::ICMP_ULT: r = mkCmp(K_Ult, x, y); break;
    case CmpInst::ICMP_ULE: r = mkCmp(K_Ule, x, y); break;
    case CmpInst::ICMP_UGT: r = mkCmp(K_Ult, y, x); break;
    case CmpInst::ICMP_UGE: r = mkCmp(K_Ule, y, x); break;
    case CmpInst::ICMP_SLT: r = mkCmp(K_Slt, x, y); break;
    case CmpInst::ICMP_SLE: r = mkCmp(K_Sle, x, y); break;
    case CmpInst::ICMP_SGT: r = mkCmp(K_Slt, y, x); break;
    case CmpInst::ICMP_SGE: r = mkCmp(K_Sle, y, x); break;
  }
  return exprValue(r);
}
static Val scalarFCmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  Expr *x = exprOf(a, w), *y = exprOf(b, w);
  auto uno = [&] { return mkFCmp(K_FUno, x, y); };
  auto orU = [&](Expr* e) { return mkBin(K_Or, e, uno()); };
  Expr* r = nullptr;
  switch (pred) {
    case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break;
    case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
    case CmpInst::FCMP_OEQ: r = mkFCmp(K_FEq, x, y); break;
    case CmpInst::FCMP_OLT: r = mkFCmp(K_FLt, x, y); break;
    case CmpInst::FCMP_OLE: r = mkFCmp(K_FLe, x, y); break;
    case CmpInst::FCMP_OGT: r = mkFCmp(K_FLt, y, x); break;
    case CmpInst::FCMP_OGE: r = mkFCmp(K_FLe, y, x); break;
    case CmpInst::FCMP_ONE: r = mkBin(K_And, mkNot(mkFCmp(K_FEq, x, y)), mkNot(uno())); break;
    case CmpInst::FCMP_ORD: r = mkNot(uno()); break;
    case CmpInst::FCMP_UNO: r = uno(); break;
    case CmpInst::FCMP_UEQ: r = orU(mkFCmp(K_FEq, x, y)); break;
    case CmpInst::FCMP_UNE: r = mkNot(mkFCmp(K_FEq, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(mkFCmp(K_FLe, y, x)); break;
    case CmpInst::FCMP_ULE: r = mkNot(mkFCmp(K_FLt, y, x)); break;
    case CmpInst::FCMP_UGT: r = mkNot(mkFCmp(K_FLe, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(mkFCmp(K_FLt, x, y)); break;
  }
  return exprValue(r);
}
static Val scalarCast(State& s, unsigned op, const Val& a, unsigned w, unsigned rw) {
  switch (op) {
    case Instruction::Trunc:
      if (a.concrete()) return Val(a.c & mask64(rw));
      return exprValue(mkExtract(a.e, 0, rw));
    case Instruction::ZExt:
      if (a.concrete() && rw <= 64) return Val(a.c);
      return exprValue(mkZExt(exprOf(a, w), rw));
    case Instruction::SExt:
      if (a.concrete() && rw <= 64) return Val((uint64_t)sext64(a.c, w) & mask64(rw));
      return exprValue(mkSExt(exprOf(a, w), rw));
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::AddrSpaceCast:
      if (w == rw) return a;
      if (a.concrete()) return Val(a.c & mask64(rw));
      return exprValue(rw < w ? mkExtract(a.e, 0, rw) : mkZExt(a.e, rw));
    case Instruction::FPExt: return exprValue(mkFUn(K_FExt, exprOf(a, w), rw));
    case Instruction::FPTrunc: return exprValue(mkFUn(K_FTrunc, exprOf(a, w), rw));
    case Instruction::SIToFP: return exprValue(mkFUn(K_SToF, exprOf(a, w), rw));
    case Instruction::UIToFP: return exprValue(mkFUn(K_UToF, exprOf(a, w), rw));
    case Instruction::FPToSI: return exprValue(mkFUn(K_FToS, exprOf(a, w), rw));
    case Instruction::FPToUI: return exprValue(mkFUn(K_FToU, exprOf(a, w), rw));
  }
  incomplete(s, "unsupported cast");
  endPath();
}

// ------------------------------------------------------------- control flow
static void jump(State& s, KBlock* to) {
  Frame& f = s.stack.back();
  if (!to->phiDest.empty()) {
    auto& in = to->phiIn[f.b];
    if (in.size() == 1) {
      Val v = opv(f, in[0]);
      f.regs[to->phiDest[0]] = std::move(v);
    } else {
      std::vector<Val> tmp;
      tmp.reserve(in.size());
      for (int i : in) tmp.push_back(opv(f, i));
      for (size_t i = 0; i < in.size(); i++) f.regs[to->phiDest[i]] = std::move(tmp[i]);
    }
  }
  f.b = to;
  f.ip = 0;
}
static void pushFrame(State& s, Function* F, const std::vector<Val>& args, int retDest) {
  if (s.stack.size() > 400) {
    violation(s, "stack", "unbounded recursion", *s.model);
    endPath();
  }
  KFunction* kf = prepare(F);
  kf->executed++;
  Frame nf;
  nf.f = kf;
  nf.b = kf->blocks[0].get();
  nf.ip = 0;
  nf.retDest = retDest;
  nf.regs.resize(kf->nregs);
  size_t np = F->arg_size();
  for (size_t i = 0; i < args.size(); i++) {
    if (i < np)
      nf.regs[i] = args[i];
    else
      nf.varargs.push_back(args[i]);
  }
  s.stack.push_back(std::move(nf));
}
static void finishPath(State& s) {
  gPaths++;
  // Keep a spread of paths for concrete validation: the first ones and then
  // every power-of-two-th.
  bool keep = gSamples.size() < optSamples ||
              (gPaths & (gPaths - 1)) == 0;
  if (keep && gSamples.size() < optSamples * 3) {
    Sample x;
    x.values = valuesOf(s, *s.model);
    for (auto& o : s.obs) x.obs.push_back(o.e ? (uint64_t)evalExpr(o.e, *s.model) : o.c);
    bool un = s.usesUninit;
    for (auto& o : s.obs) un |= o.e && o.e->unin;
    if (!un) gSamples.push_back(x);
  }
}
static void doReturn(State& s, const Val* v) {
  Frame& f = s.stack.back();
  for (uint64_t a : f.allocas) s.mem.release(a);
  int rd = f.retDest;
  Val rv;
  if (v) rv = *v;
  s.stack.pop_back();
  if (s.stack.empty()) {
    finishPath(s);
    endPath();
  }
  Frame& c = s.stack.back();
  if (rd >= 0) c.regs[rd] = std::move(rv);
  c.ip++;
}

static double asDouble(uint64_t c, unsigned w) {
  if (w == 32) {
    uint32_t x = (uint32_t)c;
    float f;
    memcpy(&f, &x, 4);
    return f;
  }
  double d;
  memcpy(&d, &c, 8);
  return d;
}
static uint64_t fromDouble(double d, unsigned w) {
  if (w == 32) {
    float f = (float)d;
    uint32_t x;
    memcpy(&x, &f, 4);
    return x;
  }
  uint64_t x;
  memcpy(&x, &d, 8);
  return x;
}

static void allocCheck(State& s, uint64_t n) {
  if (n > optHugeAlloc) {
    violation(s, "alloc", "allocation of " + std::to_string(n) + " bytes", *s.model);
    endPath();
  }
}
static uint64_t sizeArg(State& s, const Val& v) {
  if (v.concrete()) return v.c;
  // Huge sizes first: report, then bound.
  Expr* big = mkCmp(K_Ult, mkConst(optHugeAlloc, 64), v.e);
  if (!big->isConst() || big->imm) {
    ModelRef m = s.model;
    if (!s.conc.count(big)) {
      SatResult r = sat(s, big, m);
      if (r == SAT) {
        violation(s, "alloc", "allocation size controlled by the input: " +
                  std::to_string((uint64_t)evalExpr(v.e, *m)) + " bytes", *m);
        ModelRef m2 = s.model;
        if (sat(s, mkNot(big), m2) != SAT) endPath();
        addPC(s, mkNot(big));
        s.model = m2;
      }
      s.conc[big] = 0;
    }
  }
  if (!s.conc.count(v.e)) {
    Expr* over = mkCmp(K_Ult, mkConst(optAllocSmall, 64), v.e);
    if (!over->isConst() || over->imm) {
      ModelRef m = s.model;
      if (sat(s, over, m) == SAT) {
        gAllocReps++;
        uint64_t x = (uint64_t)evalExpr(v.e, *m);
        Expr* eq = mkCmp(K_Eq, v.e, mkConst(x, 64));
        ModelRef m2 = s.model;
        if (!over->isConst() && sat(s, mkNot(over), m2) == SAT) {
          State* o = forkState(s);
          addPC(*o, mkNot(over));
          o->model = m2;
        }
        addPC(s, eq);
        s.model = m;
        s.conc[v.e] = x;
        return x;
      }
    }
  }
  return concretize(s, v, 64);
}

static void copyBytes(State& s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  Res rs = resolve(s, Val(src), n, false);
  Res rd = resolve(s, Val(dst), n, true);
  rs = resolve(s, Val(src), n, false);  // may have been unshared
  MemObject *a = rs.o, *b = rd.o;
  if (!a->nsym && !b->nsym) {
    memmove(&b->data[rd.off], &a->data[rs.off], n);
    return;
  }
  std::vector<uint8_t> d(a->data.begin() + rs.off, a->data.begin() + rs.off + n);
  std::vector<Expr*> e(n, nullptr);
  if (a->nsym)
    for (uint64_t i = 0; i < n; i++) {
      e[i] = a->sym[rs.off + i];
    }
  if (b->sym.empty()) b->sym.assign(b->size, nullptr);
  for (uint64_t i = 0; i < n; i++) {
    Expr*& t = b->sym[rd.off + i];
    if (t && !e[i]) b->nsym--;
    if (!t && e[i]) b->nsym++;
    t = e[i];
    b->data[rd.off + i] = d[i];
  }
}

static void freeObj(State& s, const Val& p, ObjKind want) {
  uint64_t a = concretize(s, p, 64);
  if (!a) return;
  MemObject* o = s.mem.find(a);
  if (!o || o->base != a || o->kind == O_Global || o->kind == O_Stack) {
    violation(s, "memory", s.mem.wasFreed(a) ? "double free" : "free of an invalid pointer", *s.model);
    endPath();
  }
  if (o->kind != want) {
    violation(s, "memory", "mismatched allocation and deallocation", *s.model);
    endPath();
  }
  s.mem.release(a);
}

static Val fminmax(bool isMax, const Val& a, const Val& b, unsigned w) {
  Expr *x = exprOf(a, w), *y = exprOf(b, w);
  Expr* c = isMax ? mkFCmp(K_FLt, x, y) : mkFCmp(K_FLt, y, x);
  Expr* r = mkIte(c, y, x);
  r = mkIte(mkFCmp(K_FUno, x, x), y, r);
  r = mkIte(mkFCmp(K_FUno, y, y), x, r);
  return exprValue(r);
}
// Replaces every lane of vector arguments by a scalar call of `fn`.
static Val lanes(Type* t, const std::vector<Val>& a,
                   const std::function<Val(const std::vector<Val>&, unsigned)>& fn) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Val> out;
    unsigned w = bitsOf(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      std::vector<Val> l;
      for (auto& x : a) l.push_back(x.agg ? x.agg->v[i] : x);
      out.push_back(fn(l, w));
    }
    return aggValue(std::move(out));
  }
  return fn(a, bitsOf(t));
}
// Functions for which any result at all is assumed (`--any-result=pow,sin`).
static std::set<std::string> optAnyResult;
static Val unknownFn(State& s, const std::string& name, Expr* key, unsigned w) {
  // Uninterpreted result: same argument, same value within a path.
  auto it = s.uf.find(key);
  if (it != s.uf.end()) return exprValue(it->second);
  if (!optAnyResult.count(name)) incomplete(s, "uninterpreted " + name);
  Expr* v = mkVar("uf_" + name, w, false, true);
  s.uf[key] = v;
  s.usesUninit = true;
  return exprValue(v);
}

static void callExternal(State& s, KInstr& k, unsigned ext, Function* F, std::vector<Val>& a) {
  Frame& f = s.stack.back();
  auto ret = [&](Val v) {
    Frame& g = s.stack.back();
    if (k.dest >= 0) g.regs[k.dest] = std::move(v);
    g.ip++;
  };
  unsigned w = k.w;
  switch (ext) {
    case X_Nop: case X_AtExit: case X_VaEnd:
      return ret(Val(0));
    case X_Ret0:
      return ret(Val(0));
    case X_Zero: return ret(Val(0));
    case X_First: return ret(a[0]);
    case X_SymEngine: return ret(Val(1));
    case X_SymCase: return ret(Val((uint64_t)optCase));
    case X_SymStop: endPath();
    case X_SymMake: {
      uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
      if (!n) return ret(Val());
      std::string name = readCStr(s, concretize(s, a[2], 64));
      if (n) resolve(s, Val(p), n, true);
      Input in;
      in.name = name;
      in.size = n;
      MemObject* o = n ? s.mem.findW(p) : nullptr;
      if (n == 1 || n == 2 || n == 4 || n == 8) {
        Expr* v = mkVar(name, 8 * n);
        for (uint64_t i = 0; i < n; i++) in.bytes.push_back(mkExtract(v, 8 * i, 8, false));
      } else {
        for (uint64_t i = 0; i < n; i++) in.bytes.push_back(mkVar(name + "_" + std::to_string(i), 8));
      }
      for (uint64_t i = 0; i < n; i++) setByte(o, p - o->base + i, in.bytes[i]);
      s.inputs.push_back(in);
      return ret(Val());
    }
    case X_SymReal: {
      std::string name = readCStr(s, concretize(s, a[0], 64));
      Input in;
      in.name = name;
      in.size = 8;
      Expr* v = mkVar(name, 64, gRealMode);
      for (int i = 0; i < 8; i++) in.bytes.push_back(mkExtract(v, 8 * i, 8, false));
      s.inputs.push_back(in);
      Expr *lo = exprOf(a[1], 64), *hi = exprOf(a[2], 64);
      Expr* c = mkBin(K_And, mkFCmp(K_FLe, lo, v), mkFCmp(K_FLe, v, hi));
      ModelRef m = s.model;
      SatResult r = sat(s, c, m);
      if (r == UNSAT) endPath();
      addPC(s, c);
      if (r == SAT) s.model = m;
      return ret(exprValue(v));
    }
    case X_SymAssume: {
      Expr* c = exprOf(a[0], 1);
      if (c->isConst()) {
        if (!c->imm) { gAssumeEnd++; endPath(); }
        return ret(Val());
      }
      ModelRef m = s.model;
      SatResult r = sat(s, c, m);
      if (r == UNSAT) { gAssumeEnd++; endPath(); }
      if (r == UNKNOWN) endPath();
      addPC(s, c);
      s.model = m;
      return ret(Val());
    }
    case X_SymAssert: {
      gAsserts++;
      Expr* c = exprOf(a[0], 1);
      if (c->isConst() && c->imm) return ret(Val());
      std::string msg = readCStr(s, concretize(s, a[1], 64));
      if (c->isConst()) {
        violation(s, "assert", msg, *s.model);
        endPath();
      }
      gAssertQueries++;
      ModelRef m = s.model;
      SatResult r = sat(s, mkNot(c), m);
      if (r == SAT) {
        violation(s, "assert", msg, *m);
        ModelRef m2 = s.model;
        if (sat(s, c, m2) != SAT) endPath();
        addPC(s, c);
        s.model = m2;
      } else if (r == UNKNOWN) {
        incomplete(s, "undecided assertion: " + msg);
        if (!c->real && !evalExpr(c, *s.model)) endPath();
        addPC(s, c);
      }
      return ret(Val());
    }
    case X_SymFail: {
      gAsserts++;
      violation(s, "assert", readCStr(s, concretize(s, a[0], 64)), *s.model);
      endPath();
    }
    case X_SymReach: {
      gReach[readCStr(s, concretize(s, a[0], 64))]++;
      return ret(Val());
    }
    case X_SymObserve: {
      s.obs.push_back({a[0].e, a[0].c});
      return ret(Val());
    }
    case X_SymConc: {
      uint64_t v = concretize(s, a[0], 64);
      s.choices.push_back(v);
      return ret(Val(v));
    }
    case X_New: case X_NewArr: case X_Malloc: {
      uint64_t n = sizeArg(s, a[ext == X_NewArr && F->getName() == "aligned_alloc" ? 1 : 0]);
      allocCheck(s, n);
      ObjKind kd = ext == X_New ? O_New : ext == X_NewArr ? O_NewArr : O_Malloc;
      if (F->getName() == "aligned_alloc") kd = O_Malloc;
      return ret(Val(s.mem.alloc(n, kd)));
    }
    case X_Calloc: {
      uint64_t n = sizeArg(s, a[0]), m = sizeArg(s, a[1]);
      allocCheck(s, n * m);
      return ret(Val(s.mem.alloc(n * m, O_Malloc, false)));
    }
    case X_Realloc: {
      uint64_t p = concretize(s, a[0], 64), n = sizeArg(s, a[1]);
      allocCheck(s, n);
      uint64_t q = s.mem.alloc(n, O_Malloc);
      if (p) {
        MemObject* o = s.mem.find(p);
        if (!o || o->base != p) {
          violation(s, "memory", "realloc of an invalid pointer", *s.model);
          endPath();
        }
        copyBytes(s, q, p, std::min(n, o->size));
        s.mem.release(p);
      }
      return ret(Val(q));
    }
    case X_Free: freeObj(s, a[0], O_Malloc); return ret(Val());
    case X_Delete: freeObj(s, a[0], O_New); return ret(Val());
    case X_DeleteArr: freeObj(s, a[0], O_NewArr); return ret(Val());
    case X_Memcpy: {
      uint64_t n = concretize(s, a[2], 64);
      uint64_t d = concretize(s, a[0], 64), src = concretize(s, a[1], 64);
      copyBytes(s, d, src, n);
      return ret(Val(d));
    }
    case X_Memset: {
      uint64_t n = concretize(s, a[2], 64);
      uint64_t d = concretize(s, a[0], 64);
      if (n) {
        Res r = resolve(s, Val(d), n, true);
        Expr* b = exprOf(a[1], 8);
        if (b->width > 8) b = mkExtract(b, 0, 8);
        if (b->isConst() && n == r.o->size) {
          memset(r.o->data.data(), (int)b->imm, n);
          r.o->sym.clear();
          r.o->nsym = 0;
        } else {
          for (uint64_t i = 0; i < n; i++) setByte(r.o, r.off + i, b);
        }
      }
      return ret(Val(d));
    }
    case X_Snprintf: {
      // Concrete arguments only.
      uint64_t d = concretize(s, a[0], 64), n = concretize(s, a[1], 64), fp = concretize(s, a[2], 64);
      std::string fmt, out;
      for (;; fp++) {
        Res r = resolve(s, Val(fp), 1, false);
        uint64_t c = concretize(s, exprValue(byteAt(s, r.o, r.off)), 8);
        if (!c) break;
        fmt.push_back((char)c);
      }
      size_t arg = 3;
      for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') { out.push_back(fmt[i]); continue; }
        if (i + 1 < fmt.size() && fmt[i + 1] == '%') { out.push_back('%'); i++; continue; }
        size_t e = fmt.find_first_of("diouxXcgGfFeEaAs", i);
        if (e == std::string::npos || fmt[e] == 's' || fmt.find('*', i) < e || arg >= a.size()) incomplete(s, "snprintf format " + fmt);
        std::string spec = fmt.substr(i, e + 1 - i);
        spec.erase(std::remove_if(spec.begin(), spec.end(), [](char c) { return strchr("lhzjtL", c) != nullptr; }), spec.end());
        char buf[512];
        uint64_t v = concretize(s, a[arg], 64);
        arg++;
        if (strchr("gGfFeEaA", fmt[e])) snprintf(buf, sizeof buf, spec.c_str(), asDouble(v, 64));
        else {
          bool wide = fmt.substr(i, e - i).find_first_of("lzjt") != std::string::npos;
          spec.insert(spec.size() - 1, fmt[e] == 'c' ? "" : "ll");
          bool sg = fmt[e] == 'd' || fmt[e] == 'i';
          long long x = wide ? (long long)v : sg ? (long long)(int32_t)v : (long long)(uint32_t)v;
          if (fmt[e] == 'c') snprintf(buf, sizeof buf, spec.c_str(), (int)v); else snprintf(buf, sizeof buf, spec.c_str(), x);
        }
        out += buf;
        i = e;
      }
      if (n) {
        uint64_t m = std::min<uint64_t>(n - 1, out.size());
        Res r = resolve(s, Val(d), m + 1, true);
        for (uint64_t i = 0; i < m; i++) setByte(r.o, r.off + i, mkConst((uint8_t)out[i], 8));
        setByte(r.o, r.off + m, mkConst(0, 8));
      }
      return ret(Val(out.size()));
    }
    case X_Bcmp: case X_Memcmp: case X_Strncmp: case X_Strcmp: {
      bool str = ext == X_Strcmp || ext == X_Strncmp;
      uint64_t n = ext == X_Strcmp ? ~0ull : concretize(s, a[2], 64);
      uint64_t p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
      if (n == 0) return ret(Val(0));
      if (str) {  // walk; fork on symbolic bytes
        for (uint64_t i = 0; i < n; i++) {
          Res r1 = resolve(s, Val(p + i), 1, false), r2 = resolve(s, Val(q + i), 1, false);
          Expr *x = byteAt(s, r1.o, r1.off), *y = byteAt(s, r2.o, r2.off);
          if (!decide(s, mkCmp(K_Eq, x, y)))
            return ret(exprValue(mkBin(K_Sub, mkZExt(x, 32), mkZExt(y, 32))));
          if (decide(s, mkCmp(K_Eq, x, mkConst(0, 8)))) return ret(Val(0));
        }
        return ret(Val(0));
      }
      Res r1 = resolve(s, Val(p), n, false), r2 = resolve(s, Val(q), n, false);
      Expr* acc = mkConst(0, 32);
      for (uint64_t i = n; i-- > 0;) {
        Expr *x = byteAt(s, r1.o, r1.off + i), *y = byteAt(s, r2.o, r2.off + i);
        Expr* d = ext == X_Bcmp ? mkConst(1, 32) : mkBin(K_Sub, mkZExt(x, 32), mkZExt(y, 32));
        acc = mkIte(mkCmp(K_Eq, x, y), acc, d);
      }
      return ret(exprValue(acc));
    }
    case X_Memchr: {
      uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[2], 64);
      Expr* c = mkExtract(exprOf(a[1], 32), 0, 8);
      for (uint64_t i = 0; i < n; i++) {
        Res r = resolve(s, Val(p + i), 1, false);
        if (decide(s, mkCmp(K_Eq, byteAt(s, r.o, r.off), c))) return ret(Val(p + i));
      }
      return ret(Val(0));
    }
    case X_Strlen: {
      uint64_t p = concretize(s, a[0], 64);
      for (uint64_t i = 0;; i++) {
        Res r = resolve(s, Val(p + i), 1, false);
        if (decide(s, mkCmp(K_Eq, byteAt(s, r.o, r.off), mkConst(0, 8)))) return ret(Val(i));
      }
    }
    case X_Throw:
      violation(s, "exception", "uncaught exception: " + F->getName().str(), *s.model);
      endPath();
    case X_Abort:
      violation(s, "abort", "abort: " + F->getName().str() +
                (F->getName().contains("assert") && a.size() >= 4 && F->getName().starts_with("_ZSt21")
                     ? " " + readCStr(s, a[3].c) : ""), *s.model);
      endPath();
    case X_Exit: endPath();
    case X_Trap:
      violation(s, "trap", "undefined behaviour trap", *s.model);
      endPath();
    case X_ErrnoLoc: {
      static uint64_t dummy = 0;
      (void)dummy;
      return ret(Val(s.mem.alloc(8, O_Global, false)));
    }
    case X_IUMax: case X_IUMin: case X_ISMax: case X_ISMin:
      return ret(lanes(k.ty, a, [&](const std::vector<Val>& l, unsigned w) {
        Expr *x = exprOf(l[0], w), *y = exprOf(l[1], w);
        Kind c = ext == X_IUMax || ext == X_IUMin ? K_Ult : K_Slt;
        Expr* lt = mkCmp(c, x, y);
        bool mx = ext == X_IUMax || ext == X_ISMax;
        return exprValue(mkIte(lt, mx ? y : x, mx ? x : y));
      }));
    case X_IAbs:
      return ret(lanes(k.ty, {a[0]}, [&](const std::vector<Val>& l, unsigned w) {
        Expr* x = exprOf(l[0], w);
        return exprValue(mkIte(mkCmp(K_Slt, x, mkConst(0, w)), mkBin(K_Sub, mkConst(0, w), x), x));
      }));
    case X_IAddOvf: case X_ISubOvf: case X_IMulOvf: case X_UAddOvf: case X_USubOvf: case X_UMulOvf: {
      bool sg = ext == X_IAddOvf || ext == X_ISubOvf || ext == X_IMulOvf;
      Kind op = ext == X_IAddOvf || ext == X_UAddOvf ? K_Add
                : ext == X_ISubOvf || ext == X_USubOvf ? K_Sub : K_Mul;
      unsigned xw = op == K_Mul ? 2 * w : w + 1;
      Expr *x = exprOf(a[0], w), *y = exprOf(a[1], w);
      if (xw > 128) {
        incomplete(s, "wide overflow intrinsic");
        endPath();
      }
      Expr* r = mkBin(op, x, y);
      Expr* wide = mkBin(op, sg ? mkSExt(x, xw) : mkZExt(x, xw), sg ? mkSExt(y, xw) : mkZExt(y, xw));
      Expr* ov;
      if (!sg && op == K_Sub)
        ov = mkCmp(K_Ult, x, y);
      else if (!sg && op == K_Add)
        ov = mkExtract(wide, w, 1);
      else
        ov = mkNot(mkCmp(K_Eq, wide, sg ? mkSExt(r, xw) : mkZExt(r, xw)));
      return ret(aggValue({exprValue(r), exprValue(ov)}));
    }
    case X_UAddSat: case X_USubSat: case X_SAddSat: case X_SSubSat:
      return ret(lanes(k.ty, a, [&](const std::vector<Val>& l, unsigned w) {
        Expr *x = exprOf(l[0], w), *y = exprOf(l[1], w);
        if (ext == X_USubSat)
          return exprValue(mkIte(mkCmp(K_Ult, x, y), mkConst(0, w), mkBin(K_Sub, x, y)));
        if (ext == X_UAddSat) {
          Expr* r = mkBin(K_Add, x, y);
          return exprValue(mkIte(mkCmp(K_Ult, r, x), mkConst(~(u128)0, w), r));
        }
        Expr *X = mkSExt(x, w + 1), *Y = mkSExt(y, w + 1);
        Expr* r = mkBin(ext == X_SAddSat ? K_Add : K_Sub, X, Y);
        Expr* mx = mkConst(((u128)1 << (w - 1)) - 1, w + 1);
        Expr* mn = mkSExt(mkConst((u128)1 << (w - 1), w), w + 1);
        r = mkIte(mkCmp(K_Slt, mx, r), mx, r);
        r = mkIte(mkCmp(K_Slt, r, mn), mn, r);
        return exprValue(mkExtract(r, 0, w));
      }));
    case X_Ctpop: {
      Expr* x = exprOf(a[0], w);
      Expr* r = mkConst(0, w);
      for (unsigned i = 0; i < w; i++) r = mkBin(K_Add, r, mkZExt(mkExtract(x, i, 1), w));
      return ret(exprValue(r));
    }
    case X_Ctlz: case X_Cttz: {
      Expr* x = exprOf(a[0], w);
      Expr* r = mkConst(w, w);
      for (unsigned i = 0; i < w; i++) {
        unsigned bit = ext == X_Ctlz ? i : w - 1 - i;
        unsigned cnt = ext == X_Ctlz ? w - 1 - i : w - 1 - i;
        r = mkIte(mkCmp(K_Eq, mkExtract(x, bit, 1), mkConst(1, 1)), mkConst(cnt, w), r);
      }
      return ret(exprValue(r));
    }
    case X_Bswap: {
      Expr* x = exprOf(a[0], w);
      Expr* r = mkExtract(x, 0, 8);
      for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
      return ret(exprValue(r));
    }
    case X_BitRev: {
      Expr* x = exprOf(a[0], w);
      Expr* r = mkExtract(x, 0, 1);
      for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1));
      return ret(exprValue(r));
    }
    case X_Fshl: case X_Fshr: {
      Expr *x = exprOf(a[0], w), *y = exprOf(a[1], w);
      Expr* sh = mkBin(K_URem, exprOf(a[2], w), mkConst(w, w));
      Expr* cat = mkConcat(x, y);
      Expr* s2 = mkZExt(sh, 2 * w);
      Expr* r = ext == X_Fshl ? mkExtract(mkBin(K_Shl, cat, s2), w, w)
                              : mkExtract(mkBin(K_LShr, cat, s2), 0, w);
      return ret(exprValue(r));
    }
    case X_FAbs:
      return ret(lanes(k.ty, a, [&](const std::vector<Val>& l, unsigned w) {
        return exprValue(mkFUn(K_FAbs, exprOf(l[0], w), w));
      }));
    case X_FSqrt:
      return ret(lanes(k.ty, a, [&](const std::vector<Val>& l, unsigned w) {
        return exprValue(mkFUn(K_FSqrt, exprOf(l[0], w), w));
      }));
    case X_FRound: {
      StringRef n = F->getName();
      unsigned m = n.contains("floor") ? 0 : n.contains("ceil") ? 1 : n.contains("trunc") ? 2
                   : n.contains("rint") || n.contains("nearby") || n.contains("roundeven") ? 3 : 4;
      return ret(lanes(k.ty, a, [&](const std::vector<Val>& l, unsigned w) {
        return exprValue(mkFUn(K_FRound, exprOf(l[0], w), w, m));
      }));
    }
    case X_Lround: {
      bool rint = F->getName().contains("rint");
      Expr* r = mkFUn(K_FRound, exprOf(a[0], w), w, rint ? 3 : 4);
      return ret(exprValue(mkFUn(K_FToS, r, k.rw)));
    }
    case X_CopySign: {
      Expr *x = exprOf(a[0], w), *y = exprOf(a[1], w);
      if (gRealMode && (x->real || y->real)) {
        Expr* ab = mkFUn(K_FAbs, x, w);
        return ret(exprValue(mkIte(mkFCmp(K_FLt, y, mkConst(0, w)), mkFUn(K_FNeg, ab, w), ab)));
      }
      return ret(exprValue(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1))));
    }
    case X_FMin: case X_FMax:
      return ret(lanes(k.ty, a, [&](const std::vector<Val>& l, unsigned w) {
        return fminmax(ext == X_FMax, l[0], l[1], w);
      }));
    case X_Fma:
      return ret(lanes(k.ty, a, [&](const std::vector<Val>& l, unsigned w) {
        if (F->getIntrinsicID() == Intrinsic::fmuladd)
          return exprValue(mkFBin(K_FAdd, mkFBin(K_FMul, exprOf(l[0], w), exprOf(l[1], w)), exprOf(l[2], w)));
        return exprValue(mkFFma(exprOf(l[0], w), exprOf(l[1], w), exprOf(l[2], w)));
      }));
    case X_MathUn: {
      std::string n = F->getName().str();
      if (F->isIntrinsic()) n = n.substr(5, n.find('.', 5) - 5);
      auto fn = mathUn(stripF(n));
      Val v = a[0];
      if (!v.concrete() && s.conc.count(v.e)) v = Val(s.conc[v.e]);
      if (v.concrete()) return ret(Val(fromDouble(fn(asDouble(v.c, w)), w)));
      return ret(unknownFn(s, n, mkFUn(K_FSqrt, mkFUn(K_FSqrt, a[0].e, w), w, (unsigned)std::hash<std::string>()(n)), w));
    }
    case X_MathBin: {
      std::string n = F->getName().str();
      if (F->isIntrinsic()) n = n.substr(5, n.find('.', 5) - 5);
      auto fn = mathBin(stripF(n));
      if (a[0].concrete() && a[1].concrete())
        return ret(Val(fromDouble(fn(asDouble(a[0].c, w), asDouble(a[1].c, w)), w)));
      Expr* key = mkFFma(exprOf(a[0], w), exprOf(a[1], w), mkFUn(K_FSqrt, mkFBin(K_FDiv, exprOf(a[0], w), exprOf(a[1], w)), w));
      return ret(unknownFn(s, n, key, w));
    }
    case X_Ldexp: {
      if (a[0].concrete() && a[1].concrete())
        return ret(Val(fromDouble(std::ldexp(asDouble(a[0].c, w), (int)a[1].c), w)));
      if (a[1].concrete()) {
        Expr* p = mkConst(fromDouble(std::ldexp(1.0, (int)a[1].c), w), w);
        return ret(exprValue(mkFBin(K_FMul, exprOf(a[0], w), p)));
      }
      incomplete(s, "ldexp with a symbolic exponent");
      endPath();
    }
    case X_IntrPowi: {
      if (a[0].concrete() && a[1].concrete())
        return ret(Val(fromDouble(std::pow(asDouble(a[0].c, w), (int)a[1].c), w)));
      incomplete(s, "powi");
      endPath();
    }
    case X_Frexp: case X_ModF: {
      if (!a[0].concrete()) {
        incomplete(s, "frexp/modf on a symbolic value");
        endPath();
      }
      double d = asDouble(a[0].c, w);
      uint64_t p = concretize(s, a[1], 64);
      if (ext == X_Frexp) {
        int ex = 0;
        double m = std::frexp(d, &ex);
        Res r = resolve(s, Val(p), 4, true);
        storeInt(r.o, r.off, Val((uint32_t)ex), 32);
        return ret(Val(fromDouble(m, w)));
      }
      double ip;
      double m = std::modf(d, &ip);
      Res r = resolve(s, Val(p), w / 8, true);
      storeInt(r.o, r.off, Val(fromDouble(ip, w)), w);
      return ret(Val(fromDouble(m, w)));
    }
    case X_ObjSize: return ret(Val(a[1].c ? 0 : ~0ull & mask64(k.rw)));
    case X_IsConst: return ret(Val(0));
    case X_FClass: {
      unsigned m = (unsigned)a[1].c;
      Expr* x = exprOf(a[0], w);
      unsigned ew = w == 32 ? 8 : 11, mw = w == 32 ? 23 : 52;
      if (x->real) {
        // reals are finite
        bool nonfin = (m & (fcNan | fcInf)) != 0, fin = (m & fcFinite) == fcFinite;
        if (nonfin && !(m & fcFinite)) return ret(Val(0));
        if (fin) return ret(Val(1));
        incomplete(s, "is.fpclass on a real");
        endPath();
      }
      Expr* ex = mkExtract(x, mw, ew);
      Expr* mant = mkExtract(x, 0, mw);
      Expr* sg = mkExtract(x, w - 1, 1);
      Expr *exOnes = mkCmp(K_Eq, ex, mkConst(mask64(ew), ew)), *exZero = mkCmp(K_Eq, ex, mkConst(0, ew));
      Expr* mz = mkCmp(K_Eq, mant, mkConst(0, mw));
      Expr* q = mkExtract(x, mw - 1, 1);
      Expr* r = mkConst(0, 1);
      auto add = [&](unsigned bit, Expr* c) { if (m & bit) r = mkBin(K_Or, r, c); };
      auto And = [&](Expr* x, Expr* y) { return mkBin(K_And, x, y); };
      Expr* nan = And(exOnes, mkNot(mz));
      add(fcSNan, And(nan, mkNot(q)));
      add(fcQNan, And(nan, q));
      Expr* inf = And(exOnes, mz);
      add(fcNegInf, And(inf, sg));
      add(fcPosInf, And(inf, mkNot(sg)));
      Expr* zero = And(exZero, mz);
      add(fcNegZero, And(zero, sg));
      add(fcPosZero, And(zero, mkNot(sg)));
      Expr* sub = And(exZero, mkNot(mz));
      add(fcNegSubnormal, And(sub, sg));
      add(fcPosSubnormal, And(sub, mkNot(sg)));
      Expr* nor = And(mkNot(exOnes), mkNot(exZero));
      add(fcNegNormal, And(nor, sg));
      add(fcPosNormal, And(nor, mkNot(sg)));
      return ret(exprValue(r));
    }
    case X_VReduceAdd: {
      Type* et = cast<FixedVectorType>(cast<CallBase>(k.I)->getArgOperand(0)->getType())->getElementType();
      unsigned ew = bitsOf(et);
      Expr* r = mkConst(0, ew);
      for (auto& x : a[0].agg->v) r = mkBin(K_Add, r, exprOf(x, ew));
      return ret(exprValue(r));
    }
    case X_VReduceFAdd: {
      unsigned ew = k.rw;
      Expr* r = exprOf(a[0], ew);
      for (auto& x : a[1].agg->v) r = mkFBin(K_FAdd, r, exprOf(x, ew));
      return ret(exprValue(r));
    }
    default: {
      std::string n = F->getName().str();
      gExtern[n]++;
      incomplete(s, "call of unmodelled function " + n);
      endPath();
    }
  }
}

static void execCall(State& s, KInstr& k) {
  Frame& f = s.stack.back();
  Function* F = k.callee;
  if (!F) {
    if (cast<CallBase>(k.I)->isInlineAsm()) {
      // Compiler barriers only.
      if (k.dest < 0) { f.ip++; return; }
      incomplete(s, "inline assembly");
      endPath();
    }
    Val cv = opv(f, k.ops.back());
    uint64_t a = concretize(s, cv, 64);
    auto it = gFuncByAddr.find(a);
    if (it == gFuncByAddr.end()) {
      violation(s, "memory", a ? "call through an invalid function pointer" : "call through a null function pointer", *s.model);
      endPath();
    }
    F = it->second;
  }
  size_t n = k.ops.size() - 1;
  std::vector<Val> args;
  args.reserve(n);
  for (size_t i = 0; i < n; i++)
    args.push_back(k.ops[i] == ~0x7fffffff ? Val() : opv(f, k.ops[i]));
  if (F->isDeclaration()) {
    unsigned ext = k.callee ? k.sub : extOf(F);
    callExternal(s, k, ext, F, args);
    return;
  }
  pushFrame(s, F, args, k.dest);
}


// ------------------------------------------------------------ state merging
// Immediate post-dominators (blocks ending in `unreachable` are ignored) and
// register liveness.
static void analyse(KFunction* kf) {
  if (kf->analysed) return;
  kf->analysed = true;
  size_t n = kf->blocks.size(), W = (n + 1 + 63) / 64;
  typedef std::vector<uint64_t> Bits;
  // reach[b]: can reach a return
  std::vector<char> toRet(n, 0);
  bool ch = true;
  for (size_t b = 0; b < n; b++) toRet[b] = kf->blocks[b]->succ.empty() && !kf->blocks[b]->endsDead;
  while (ch) {
    ch = false;
    for (size_t b = n; b-- > 0;)
      if (!toRet[b])
        for (int x : kf->blocks[b]->succ)
          if (toRet[x]) { toRet[b] = 1; ch = true; break; }
  }
  std::vector<Bits> pd(n, Bits(W, ~0ull));
  ch = true;
  while (ch) {
    ch = false;
    for (size_t b = n; b-- > 0;) {
      if (!toRet[b]) continue;
      Bits x(W, ~0ull);
      if (kf->blocks[b]->succ.empty()) {
        x.assign(W, 0);
        x[n / 64] |= 1ull << (n % 64);  // virtual exit
      } else {
        for (int y : kf->blocks[b]->succ)
          if (toRet[y])
            for (size_t i = 0; i < W; i++) x[i] &= pd[y][i];
      }
      x[b / 64] |= 1ull << (b % 64);
      if (x != pd[b]) { pd[b] = x; ch = true; }
    }
  }
  auto has = [&](const Bits& v, size_t i) { return (v[i / 64] >> (i % 64)) & 1; };
  for (size_t b = 0; b < n; b++) {
    if (!toRet[b]) continue;
    // the strict post-dominator that is post-dominated by all the others
    size_t best = n, bestc = 0;
    for (size_t d = 0; d < n; d++) {
      if (d == b || !has(pd[b], d) || !toRet[d]) continue;
      size_t c = 0;
      for (size_t i = 0; i < W; i++) c += __builtin_popcountll(pd[d][i]);
      if (c > bestc) { bestc = c; best = d; }
    }
    kf->blocks[b]->ipdom = best == n ? -1 : (int)best;
  }
  size_t R = (kf->nregs + 63) / 64;
  for (auto& b : kf->blocks) b->live.assign(R, 0);
  auto set = [](Bits& v, int r) { if (r >= 0) v[r / 64] |= 1ull << (r % 64); };
  auto clr = [](Bits& v, int r) { if (r >= 0) v[r / 64] &= ~(1ull << (r % 64)); };
  ch = true;
  while (ch) {
    ch = false;
    for (size_t bi = n; bi-- > 0;) {
      KBlock* b = kf->blocks[bi].get();
      Bits x(R, 0);
      for (int y : b->succ) {
        KBlock* t = kf->blocks[y].get();
        Bits z = t->live;
        for (int r : t->phiDest) clr(z, r);
        for (size_t i = 0; i < R; i++) x[i] |= z[i];
        auto it = t->phiIn.find(b);
        if (it != t->phiIn.end())
          for (int r : it->second) set(x, r);
      }
      for (size_t k = b->code.size(); k-- > 0;) {
        KInstr& ki = b->code[k];
        clr(x, ki.dest);
        for (int r : ki.ops) set(x, r);
        for (auto& g : ki.gep) set(x, g.first);
      }
      if (x != b->live) { b->live = x; ch = true; }
    }
  }
}
static bool sameVal(const Val& a, const Val& b) {
  if (a.agg || b.agg) {
    if (!a.agg || !b.agg) return false;
    if (a.agg == b.agg) return true;
    if (a.agg->v.size() != b.agg->v.size()) return false;
    for (size_t i = 0; i < a.agg->v.size(); i++)
      if (!sameVal(a.agg->v[i], b.agg->v[i])) return false;
    return true;
  }
  return a.e == b.e && (a.e || a.c == b.c);
}
static Expr* conjFrom(const std::vector<Expr*>& pc, size_t from) {
  Expr* r = mkConst(1, 1);
  for (size_t i = from; i < pc.size(); i++) r = mkBin(K_And, r, pc[i]);
  return r;
}
static bool isPtrVal(uint64_t c) { return (c >> 32) != 0 && (c >> 32) < 0x7e000000ull && (c & 0xffffffff) >= 0x10000 && (c & 0xffffffff) < 0x40000000; }
struct Arrived {
  std::unique_ptr<State> s;
  Expr* cond;  // relative to the fork point
};
// Merges b into a (both at the merge point).  Returns false, leaving both
// untouched, when they cannot be represented as one state.
static bool mergeInto(Arrived& A, Arrived& B, size_t pcBase, size_t depth, KBlock* target, uint64_t baseNext) {
  State &a = *A.s, &b = *B.s;
  if (a.choices != b.choices || a.obs.size() != b.obs.size() || a.inputs.size() != b.inputs.size()) return false;
  if (a.stack.size() != b.stack.size()) return false;
  for (size_t i = 0; i < a.inputs.size(); i++)
    if (a.inputs[i].bytes != b.inputs[i].bytes) return false;
  for (size_t i = 0; i < a.obs.size(); i++)
    if (!a.obs[i].e != !b.obs[i].e || a.obs[i].e != b.obs[i].e || (!a.obs[i].e && a.obs[i].c != b.obs[i].c)) return false;
  Frame &fa = a.stack.back(), &fb = b.stack.back();
  if (fa.allocas != fb.allocas || fa.b != fb.b || fa.ip != fb.ip) return false;
  // The selector: true means b.
  bool selB = b.pc.size() <= a.pc.size();
  Expr* sel = selB ? B.cond : A.cond;
  std::vector<std::pair<int, Val>> regs;
  auto mergeVal = [&](const Val& x, const Val& y, unsigned w) {
    Expr *ex = exprOf(x, w), *ey = exprOf(y, w);
    return exprValue(selB ? mkIte(sel, ey, ex) : mkIte(sel, ex, ey));
  };
  // A pointer to a live heap object never becomes conditional: what differs
  // is then a data structure, better explored separately.
  auto heapPtr = [&](State& s, const Val& v) {
    if (v.e || v.agg || !isPtrVal(v.c)) return false;
    MemObject* o = s.mem.find(v.c);
    return o && o->kind >= O_New;
  };
  auto badPair = [&](const Val& x, const Val& y, unsigned w) {
    if (x.agg || y.agg) return true;
    if ((x.e && x.e->real) || (y.e && y.e->real)) return false;
    return w == 64 && (heapPtr(a, x) || heapPtr(b, y));
  };
  auto widthOf = [&](KFunction* kf, int r) -> unsigned {
    // find the defining type lazily
    unsigned i = 0;
    for (auto& ar : kf->F->args()) {
      if ((int)i == r) return bitsOf(ar.getType());
      i++;
    }
    for (auto& bb : *kf->F)
      for (auto& in : bb)
        if (!in.getType()->isVoidTy()) {
          if ((int)i == r) return bitsOf(in.getType());
          i++;
        }
    return 0;
  };
  for (size_t r = 0; r < fa.regs.size(); r++) {
    if (target && !((target->live[r / 64] >> (r % 64)) & 1)) continue;
    if (sameVal(fa.regs[r], fb.regs[r])) continue;
    unsigned w = widthOf(fa.f, (int)r);
    if (fa.regs[r].agg && fb.regs[r].agg && fa.regs[r].agg->v.size() == fb.regs[r].agg->v.size()) {
      return false;
    }
    if (!w || badPair(fa.regs[r], fb.regs[r], w)) return false;
    regs.push_back({(int)r, mergeVal(fa.regs[r], fb.regs[r], w)});
  }
  const bool ua = a.usesUninit, ub = b.usesUninit;
  struct Restore { State &a, &b; bool ua, ub; ~Restore() { a.usesUninit = ua || ub; b.usesUninit = ub; } } restore{a, b, ua, ub};
  // Memory: which objects differ?
  struct D { uint64_t addr; };
  std::vector<uint64_t> differ;
  uint64_t top = std::max(a.mem.next, b.mem.next);
  for (uint64_t ci = 0; ci <= (top - 1) >> 6; ci++) {
    Chunk* ca = ci < a.mem.chunks.size() ? a.mem.chunks[ci].get() : nullptr;
    Chunk* cb = ci < b.mem.chunks.size() ? b.mem.chunks[ci].get() : nullptr;
    if (ca == cb) continue;
    for (int k = 0; k < 64; k++) {
      MemObject* oa = ca ? ca->o[k].get() : nullptr;
      MemObject* ob = cb ? cb->o[k].get() : nullptr;
      if (oa == ob) continue;
      if (!oa || !ob) return false;
      if (oa->size != ob->size || oa->kind != ob->kind || oa->base != ob->base) return false;
      differ.push_back(oa->base);
    }
  }
  struct W { uint64_t base, off; unsigned n; Val v; };
  std::vector<W> writes;
  unsigned count = 0;
  for (uint64_t base : differ) {
    MemObject *oa = a.mem.find(base), *ob = b.mem.find(base);
    size_t n = oa->size;
    for (size_t g = 0; g < n; g += 8) {
      size_t m = std::min<size_t>(8, n - g);
      unsigned first = 99, last = 0;
      bool unin = false;
      for (size_t i = 0; i < m; i++) {
        Expr* xa = oa->sym.empty() ? nullptr : oa->sym[g + i];
        Expr* xb = ob->sym.empty() ? nullptr : ob->sym[g + i];
        bool eq = xa == xb && (xa || oa->data[g + i] == ob->data[g + i]);
        if (eq) continue;
        if (xa == UNINIT || xb == UNINIT) unin = true;
        if (first == 99) first = i;
        last = i;
      }
      if (first == 99) continue;
      unsigned lo = 0, len = 8;
      if (!unin && m == 8) {
        Val va = loadInt(a, oa, g, 64), vb = loadInt(b, ob, g, 64);
        if (badPair(va, vb, 64)) return false;
      }
      for (len = 1; len < 8; len *= 2) {
        lo = first / len * len;
        if (last < lo + len) break;
      }
      if (len == 8) lo = 0;
      if (++count > 48) return false;
      if (unin || g + lo + len > n) {
        for (unsigned i = first; i <= last; i++) {
          Expr* xa = byteAt(a, oa, g + i);
          Expr* xb = byteAt(b, ob, g + i);
          if (xa == xb) continue;
          writes.push_back({base, g + i, 1, exprValue(selB ? mkIte(sel, xb, xa) : mkIte(sel, xa, xb))});
        }
      } else {
        Val va = loadInt(a, oa, g + lo, 8 * len), vb = loadInt(b, ob, g + lo, 8 * len);
        writes.push_back({base, g + lo, len, mergeVal(va, vb, 8 * len)});
      }
    }
  }
  for (auto& p : a.uf) {
    auto it = b.uf.find(p.first);
    if (it != b.uf.end() && it->second != p.second) return false;
  }
  // Commit.
  gMerges++;
  for (auto& p : b.uf) a.uf.insert(p);
  for (auto& r : regs) fa.regs[r.first] = r.second;
  if (!target) {
  } else {
    for (size_t r = 0; r < fa.regs.size(); r++)
      if (!((target->live[r / 64] >> (r % 64)) & 1)) fa.regs[r] = Val();
  }
  for (auto& w : writes) storeInt(a.mem.findW(w.base), w.off, w.v, 8 * w.n);
  while (a.mem.chunks.size() < b.mem.chunks.size()) a.mem.chunks.push_back(nullptr);
  for (size_t ci = baseNext >> 6; ci < b.mem.chunks.size(); ci++) {
    ChunkRef& ca = a.mem.chunks[ci];
    const ChunkRef& cb = b.mem.chunks[ci];
    if (ca == cb || !cb) continue;
    if (!ca) ca = std::make_shared<Chunk>();
    else if (ca.use_count() > 1) ca = std::make_shared<Chunk>(*ca);
    ca->freed |= cb->freed;
  }
  for (size_t ci = 0; ci < std::min(a.mem.chunks.size(), b.mem.chunks.size()); ci++) {
    if (a.mem.chunks[ci] == b.mem.chunks[ci] || !b.mem.chunks[ci]) continue;
    uint64_t fr = b.mem.chunks[ci]->freed & ~a.mem.chunks[ci]->freed;
    if (fr) {
      if (a.mem.chunks[ci].use_count() > 1) a.mem.chunks[ci] = std::make_shared<Chunk>(*a.mem.chunks[ci]);
      a.mem.chunks[ci]->freed |= fr;
    }
  }
  a.mem.next = top;
  if (a.mem.chunks.size() < ((top - 1) >> 6) + 1) a.mem.chunks.resize(((top - 1) >> 6) + 1);
  for (auto it = a.conc.begin(); it != a.conc.end();) {
    auto j = b.conc.find(it->first);
    if (j == b.conc.end() || j->second != it->second) it = a.conc.erase(it);
    else ++it;
  }
  A.cond = mkBin(K_Or, A.cond, B.cond);
  a.pc.resize(pcBase);
  addPC(a, A.cond);
  a.steps = std::max(a.steps, b.steps);
  a.usesUninit |= b.usesUninit;
  return true;
}
static void runUntil(State& s, size_t depth, KBlock* target, uint64_t deadline, bool& arrived);
// Explores both sides of a branch up to its post-dominator and merges the
// states that get there.  Returns false when the branch is not a real fork.
static bool branchMerge(State& s, Expr* c, BranchInst* bi) {
  if (c->isConst() || c->real || s.conc.count(c)) return false;
    Frame& f = s.stack.back();
  KFunction* kf = f.f;
  analyse(kf);
  int ip = f.b->ipdom;
  if (ip == -2) return false;
  if (ip == -1 && s.stack.size() < 3) return false;
  KBlock* target = ip >= 0 ? kf->blocks[ip].get() : nullptr;
  // Both outcomes feasible?
  gBranches++;
  bool v = evalExpr(c, *s.model) != 0;
  ModelRef m = s.model;
  Expr* other = v ? mkNot(c) : c;
  SatResult r = sat(s, other, m);
  if (r != SAT) {
    if (r == UNKNOWN) addPC(s, v ? c : mkNot(c));
    s.conc[c] = v;
    return false;
  }
  gForks++;
  size_t depth = s.stack.size(), pcBase = s.pc.size();
  uint64_t baseNext = s.mem.next;
  auto A = std::make_unique<State>(s);
  auto B = std::make_unique<State>(s);
  addPC(*A, v ? c : mkNot(c));
  A->conc[c] = v;
  addPC(*B, other);
  B->conc[c] = !v;
  B->model = m;
  jump(*A, kf->bmap[bi->getSuccessor(v ? 0 : 1)]);
  jump(*B, kf->bmap[bi->getSuccessor(v ? 1 : 0)]);
  std::vector<std::unique_ptr<State>> saved;
  saved.swap(gWork);
  gWork.push_back(std::move(B));
  gWork.push_back(std::move(A));
  uint64_t start = gInstrs;
  std::vector<Arrived> arr;
  gInRegion++;
  uint64_t deadline = gInstrs + optMerge;
  while (!gWork.empty()) {
    if (gInstrs > deadline || arr.size() > 16 || gViol.size() >= optMaxViol) break;
    auto x = std::move(gWork.back());
    gWork.pop_back();
    bool at = false;
    State* xp = x.get();
    // already there (branch straight to the merge point)?
    auto here = [&](State& y) {
      if (target) return y.stack.size() == depth && y.stack.back().b == target && y.stack.back().ip == 0;
      return y.stack.size() == depth - 1;
    };
    if (here(*xp)) at = true;
    else {
      try {
        runUntil(*xp, depth, target, deadline, at);
      } catch (PathEnd&) {
        continue;
      }
    }
    if (!at) {  // budget exhausted: continue it unmerged
      gWork.push_back(std::move(x));
      break;
    }
    Arrived n;
    n.cond = conjFrom(x->pc, pcBase);
    n.s = std::move(x);
    bool merged = false;
    for (auto& o : arr)
      if (mergeInto(o, n, pcBase, depth, target, baseNext)) {
        merged = true;
        break;
      }
    if (!merged) arr.push_back(std::move(n));
  }
  gInRegion--;
  for (auto& x : gWork) saved.push_back(std::move(x));
  gWork.swap(saved);
  if (arr.empty()) endPath();
  for (size_t i = arr.size(); i-- > 1;) gWork.push_back(std::move(arr[i].s));
  State tmp = std::move(*arr[0].s);
  s = std::move(tmp);
  return true;
}

static Val vecLane(const Val& v, unsigned i) { return v.agg->v[i]; }

static void step(State& s) {
  Frame& f = s.stack.back();
  KInstr& k = f.b->code[f.ip];
  auto setr = [&](Val v) {
    Frame& g = s.stack.back();
    g.regs[k.dest] = std::move(v);
    g.ip++;
  };
  switch (k.op) {
    case Instruction::Ret:
      if (k.ops.empty())
        doReturn(s, nullptr);
      else {
        Val v = opv(f, k.ops[0]);
        doReturn(s, &v);
      }
      return;
    case Instruction::Br: {
      auto* bi = cast<BranchInst>(k.I);
      if (bi->isUnconditional()) {
        jump(s, f.f->bmap[bi->getSuccessor(0)]);
        return;
      }
      const Val& c = opv(f, k.ops[0]);
      if (!c.concrete() && optMerge && branchMerge(s, c.e, bi)) return;
      bool t = c.concrete() ? c.c & 1 : decide(s, c.e);
      Frame& g = s.stack.back();
      jump(s, g.f->bmap[bi->getSuccessor(t ? 0 : 1)]);
      return;
    }
    case Instruction::Switch: {
      auto* si = cast<SwitchInst>(k.I);
      Val c = opv(f, k.ops[0]);
      unsigned w = k.w;
      if (!c.concrete()) {
        // Group the cases by destination.
        std::vector<std::pair<BasicBlock*, Expr*>> dests;
        Expr* any = mkConst(0, 1);
        for (auto& cs : si->cases()) {
          Expr* eq = mkCmp(K_Eq, c.e, mkConst(cs.getCaseValue()->getZExtValue(), w));
          any = mkBin(K_Or, any, eq);
          bool found = false;
          for (auto& d : dests)
            if (d.first == cs.getCaseSuccessor()) {
              d.second = mkBin(K_Or, d.second, eq);
              found = true;
            }
          if (!found) dests.push_back({cs.getCaseSuccessor(), eq});
        }
        for (auto& d : dests) {
          if (d.first == si->getDefaultDest()) continue;
          if (decide(s, d.second)) {
            Frame& g = s.stack.back();
            jump(s, g.f->bmap[d.first]);
            return;
          }
        }
        Frame& g = s.stack.back();
        jump(s, g.f->bmap[si->getDefaultDest()]);
        return;
      }
      BasicBlock* to = si->getDefaultDest();
      for (auto& cs : si->cases())
        if (cs.getCaseValue()->getZExtValue() == c.c) {
          to = cs.getCaseSuccessor();
          break;
        }
      jump(s, f.f->bmap[to]);
      return;
    }
    case Instruction::Unreachable:
      violation(s, "unreachable", "reached code the compiler considers unreachable (undefined behaviour)", *s.model);
      endPath();
    case Instruction::Alloca: {
      uint64_t n = concretize(s, opv(f, k.ops[0]), 64);
      uint64_t a = s.mem.alloc(k.imm * n, O_Stack);
      s.stack.back().allocas.push_back(a);
      return setr(Val(a));
    }
    case Instruction::Load:
      return setr(doLoad(s, opv(f, k.ops[0]), k.ty, k.imm));
    case Instruction::Store:
      doStore(s, opv(f, k.ops[1]), opv(f, k.ops[0]), k.ty, k.imm);
      s.stack.back().ip++;
      return;
    case Instruction::GetElementPtr: {
      const Val& p = opv(f, k.ops[0]);
      if (p.agg) {
        incomplete(s, "vector GEP");
        endPath();
      }
      bool conc = p.concrete();
      uint64_t a = p.c + k.imm;
      if (conc)
        for (size_t i = 0; i < k.gep.size(); i++) {
          const Val& x = opv(f, k.gep[i].first);
          if (!x.concrete()) {
            conc = false;
            break;
          }
          a += (uint64_t)(sext64(x.c, k.gepw[i]) * k.gep[i].second);
        }
      if (conc) return setr(Val(a));
      Expr* e = exprOf(p, 64);
      if (k.imm) e = mkBin(K_Add, e, mkConst(k.imm, 64));
      for (size_t i = 0; i < k.gep.size(); i++) {
        Expr* x = mkSExt(exprOf(opv(f, k.gep[i].first), k.gepw[i]), 64);
        e = mkBin(K_Add, e, mkBin(K_Mul, x, mkConst((uint64_t)k.gep[i].second, 64)));
      }
      return setr(exprValue(e));
    }
    case Instruction::ICmp:
    case Instruction::FCmp: {
      const Val &a = opv(f, k.ops[0]), &b = opv(f, k.ops[1]);
      bool ic = k.op == Instruction::ICmp;
      if (a.agg) {
        unsigned w = bitsOf(cast<FixedVectorType>(k.I->getOperand(0)->getType())->getElementType());
        std::vector<Val> r;
        for (size_t i = 0; i < a.agg->v.size(); i++)
          r.push_back(ic ? scalarICmp(k.sub, vecLane(a, i), vecLane(b, i), w)
                         : scalarFCmp(k.sub, vecLane(a, i), vecLane(b, i), w));
        return setr(aggValue(std::move(r)));
      }
      return setr(ic ? scalarICmp(k.sub, a, b, k.w) : scalarFCmp(k.sub, a, b, k.w));
    }
    case Instruction::Select: {
      Val c = opv(f, k.ops[0]);
      const Val &a = opv(f, k.ops[1]), &b = opv(f, k.ops[2]);
      if (c.agg) {
        Type* et = cast<FixedVectorType>(k.ty)->getElementType();
        std::vector<Val> r;
        for (size_t i = 0; i < c.agg->v.size(); i++) {
          const Val& ci = c.agg->v[i];
          r.push_back(ci.concrete() ? (ci.c ? a : b).agg->v[i]
                                    : iteValue(s, ci.e, a.agg->v[i], b.agg->v[i], et));
        }
        return setr(aggValue(std::move(r)));
      }
      if (c.concrete()) return setr(c.c ? a : b);
      if (k.ty->isPointerTy() && a.concrete() && b.concrete() && a.c != b.c) {
        // Keep pointers concrete.
        bool t = decide(s, c.e);
        Frame& g = s.stack.back();
        return setr(opv(g, k.ops[t ? 1 : 2]));
      }
      Val x = a, y = b;
      return setr(iteValue(s, c.e, x, y, k.ty));
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP:
    case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      const Val& a = opv(f, k.ops[0]);
      Type* st = k.I->getOperand(0)->getType();
      if (st->isVectorTy() || k.ty->isVectorTy()) {
        auto* sv = dyn_cast<FixedVectorType>(st);
        auto* dv = dyn_cast<FixedVectorType>(k.ty);
        if (sv && dv && sv->getNumElements() == dv->getNumElements()) {
          std::vector<Val> r;
          for (auto& x : a.agg->v)
            r.push_back(scalarCast(s, k.op, x, bitsOf(sv->getElementType()), bitsOf(dv->getElementType())));
          return setr(aggValue(std::move(r)));
        }
        // reinterpretation through memory order
        Expr* e = nullptr;
        if (sv) {
          unsigned ew = bitsOf(sv->getElementType());
          if (ew * sv->getNumElements() > 128) { incomplete(s, "wide vector bitcast"); endPath(); }
          for (auto& x : a.agg->v) e = e ? mkConcat(exprOf(x, ew), e) : exprOf(x, ew);
        } else
          e = exprOf(a, k.w);
        if (!dv) return setr(exprValue(e));
        unsigned dw = bitsOf(dv->getElementType());
        std::vector<Val> r;
        for (unsigned i = 0; i < dv->getNumElements(); i++) r.push_back(exprValue(mkExtract(e, i * dw, dw, false)));
        return setr(aggValue(std::move(r)));
      }
      return setr(scalarCast(s, k.op, a, k.w, k.rw));
    }
    case Instruction::FNeg: {
      const Val& a = opv(f, k.ops[0]);
      return setr(lanes(k.ty, {a}, [&](const std::vector<Val>& l, unsigned w) {
        return exprValue(mkFUn(K_FNeg, exprOf(l[0], w), w));
      }));
    }
    case Instruction::Freeze: return setr(opv(f, k.ops[0]));
    case Instruction::ExtractValue: {
      Val v = opv(f, k.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) { Val t = v.agg->v[i]; v = t; }
      return setr(v);
    }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins =
          [&](const Val& a, ArrayRef<unsigned> ix, const Val& x) -> Val {
        if (ix.empty()) return x;
        std::vector<Val> v = a.agg->v;
        v[ix[0]] = ins(v[ix[0]], ix.drop_front(), x);
        return aggValue(std::move(v));
      };
      return setr(ins(opv(f, k.ops[0]), cast<InsertValueInst>(k.I)->getIndices(), opv(f, k.ops[1])));
    }
    case Instruction::ExtractElement: {
      Val v = opv(f, k.ops[0]);
      uint64_t i = concretize(s, opv(f, k.ops[1]), 64);
      return setr(v.agg->v[i]);
    }
    case Instruction::InsertElement: {
      Val v = opv(f, k.ops[0]);
      uint64_t i = concretize(s, opv(f, k.ops[2]), 64);
      std::vector<Val> r = v.agg->v;
      r[i] = opv(s.stack.back(), k.ops[1]);
      return setr(aggValue(std::move(r)));
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(k.I);
      const Val &a = opv(f, k.ops[0]), &b = opv(f, k.ops[1]);
      size_t n = a.agg->v.size();
      std::vector<Val> r;
      for (int m : sv->getShuffleMask())
        r.push_back(m < 0 ? zeroOf(cast<FixedVectorType>(k.ty)->getElementType())
                          : (size_t)m < n ? a.agg->v[m] : b.agg->v[m - n]);
      return setr(aggValue(std::move(r)));
    }
    case Instruction::Fence: s.stack.back().ip++; return;
    case Instruction::AtomicRMW: {
      auto* ai = cast<AtomicRMWInst>(k.I);
      unsigned w = bitsOf(k.ty);
      Val old = doLoad(s, opv(f, k.ops[0]), k.ty, w / 8);
      Val x = opv(s.stack.back(), k.ops[1]), nv;
      switch (ai->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = scalarBin(s, Instruction::Add, old, x, w); break;
        case AtomicRMWInst::Sub: nv = scalarBin(s, Instruction::Sub, old, x, w); break;
        case AtomicRMWInst::And: nv = scalarBin(s, Instruction::And, old, x, w); break;
        case AtomicRMWInst::Or: nv = scalarBin(s, Instruction::Or, old, x, w); break;
        default: incomplete(s, "atomicrmw"); endPath();
      }
      doStore(s, opv(s.stack.back(), k.ops[0]), nv, k.ty, w / 8);
      return setr(old);
    }
    case Instruction::AtomicCmpXchg: {
      Type* t = k.I->getOperand(1)->getType();
      unsigned w = bitsOf(t);
      Val old = doLoad(s, opv(f, k.ops[0]), t, w / 8);
      Val exp = opv(s.stack.back(), k.ops[1]), nv = opv(s.stack.back(), k.ops[2]);
      Val eq = scalarICmp(CmpInst::ICMP_EQ, old, exp, w);
      bool t1 = eq.concrete() ? eq.c : decide(s, eq.e);
      if (t1) doStore(s, opv(s.stack.back(), k.ops[0]), nv, t, w / 8);
      return setr(aggValue({old, Val(t1)}));
    }
    case Instruction::Call: case Instruction::Invoke:
      return execCall(s, k);
    default: {
      if (Instruction::isBinaryOp(k.op)) {
        const Val &a = opv(f, k.ops[0]), &b = opv(f, k.ops[1]);
        if (a.agg) {
          unsigned w = bitsOf(cast<FixedVectorType>(k.ty)->getElementType());
          std::vector<Val> r;
          for (size_t i = 0; i < a.agg->v.size(); i++)
            r.push_back(scalarBin(s, k.op, vecLane(a, i), vecLane(b, i), w));
          return setr(aggValue(std::move(r)));
        }
        return setr(scalarBin(s, k.op, a, b, k.w));
      }
      incomplete(s, std::string("unsupported instruction ") + k.I->getOpcodeName());
      endPath();
    }
  }
}

static void runState(std::unique_ptr<State> sp) {
  State& s = *sp;
  try {
    uint64_t local = 0;
    for (;;) {
      s.steps++;
      gInstrs++;
      if (s.steps > optMaxSteps) {
        violation(s, "steps", "path exceeds " + std::to_string(optMaxSteps) + " instructions (possible non-termination)", *s.model);
        endPath();
      }
      if ((++local & 0x3ff) == 0 && now() - gStart > optTime) {
        incomplete(s, "time limit");
        endPath();
      }
      step(s);
    }
  } catch (PathEnd&) {
  }
}

static void runUntil(State& s, size_t depth, KBlock* target, uint64_t deadline, bool& arrived) {
  uint64_t local = 0;
  arrived = false;
  for (;;) {
    s.steps++;
    gInstrs++;
    if (s.steps > optMaxSteps) {
      violation(s, "steps", "path exceeds " + std::to_string(optMaxSteps) + " instructions (possible non-termination)", *s.model);
      endPath();
    }
    if ((++local & 0x3ff) == 0 && now() - gStart > optTime) {
      incomplete(s, "time limit");
      endPath();
    }
    step(s);
    if (target ? (s.stack.size() == depth && s.stack.back().b == target && s.stack.back().ip == 0)
               : s.stack.size() == depth - 1) {
      arrived = true;
      return;
    }
    if (gInstrs > deadline) return;
  }
}

static void setupGlobals(State& s) {
  for (auto& F : *gMod) {
    if (F.isIntrinsic()) continue;
    uint64_t a = (0x7f000000ull << 32) + 16 * (gFuncByAddr.size() + 1);
    gGlobalAddr[&F] = a;
    gFuncByAddr[a] = &F;
  }
  for (auto& g : gMod->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
    if (g.isDeclaration() && n < 64) n = 64;
    gGlobalAddr[&g] = s.mem.alloc(n, O_Global, false);
  }
  for (auto& g : gMod->globals()) {
    auto it = gGlobalAddr.find(&g);
    if (it == gGlobalAddr.end() || !g.hasInitializer()) continue;
    MemObject* o = s.mem.findW(it->second);
    writeConst(o, 0, g.getInitializer());
  }
  for (auto& g : gMod->globals()) {
    auto it = gGlobalAddr.find(&g);
    if (it == gGlobalAddr.end()) continue;
    if (g.isConstant() && !g.isDeclaration()) s.mem.findW(it->second)->ro = true;
  }
}

static void writeOut() {
  std::ostringstream o;
  std::vector<std::pair<std::string, uint64_t>> fn;
  o << "{\n\"functions\":[";
  bool first = true;
  for (auto& p : gFuncs) {
    if (!p.second->executed) continue;
    if (!first) o << ",";
    first = false;
    jsonStr(o, p.second->name);
  }
  o << "],\n\"violations\":[";
  first = true;
  for (auto& v : gViol) {
    if (!first) o << ",";
    first = false;
    o << "{\"kind\":";
    jsonStr(o, v.kind);
    o << ",\"msg\":";
    jsonStr(o, v.msg);
    o << ",\"where\":";
    jsonStr(o, v.where);
    o << ",\"stack\":";
    jsonStr(o, v.stack);
    o << ",\"values\":";
    jsonStr(o, v.values);
    o << ",\"uninit\":" << (v.usesUninit ? "true" : "false") << "}\n";
  }
  o << "],\n\"samples\":[";
  first = true;
  for (auto& v : gSamples) {
    if (!first) o << ",";
    first = false;
    o << "{\"values\":";
    jsonStr(o, v.values);
    o << ",\"obs\":[";
    for (size_t i = 0; i < v.obs.size(); i++) o << (i ? "," : "") << '"' << v.obs[i] << '"';
    o << "]}\n";
  }
  auto mapOut = [&](const char* n, const std::map<std::string, uint64_t>& m) {
    o << "\"" << n << "\":{";
    bool first = true;
    for (auto& p : m) {
      if (!first) o << ",";
      first = false;
      jsonStr(o, p.first);
      o << ":" << p.second;
    }
    o << "},\n";
  };
  o << "],\n";
  mapOut("reach", gReach);
  mapOut("incomplete", gIncomplete);
  if (optForks) {
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto& p : gForkAt) v.push_back({p.second, p.first.first + " " + p.first.second});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
  }
  o << "\"paths\":" << gPaths << ",\"forks\":" << gForks << ",\"instructions\":" << gInstrs
    << ",\"asserts\":" << gAsserts << ",\"assert_queries\":" << gAssertQueries
    << ",\"branches\":" << gBranches << ",\"mem_checks\":" << gMemChecks << ",\"alloc_reps\":" << gAllocReps
    << ",\"assume_end\":" << gAssumeEnd << ",\"queries\":" << gSolver.queries
    << ",\"q_sat\":" << gSolver.sat << ",\"q_unsat\":" << gSolver.unsat
    << ",\"q_unknown\":" << gSolver.unknown << ",\"q_cached\":" << gSolver.cacheHits
    << ",\"q_model\":" << gSolver.modelHits << ",\"solver_s\":" << gSolver.seconds
    << ",\"solver_max_s\":" << gSolver.maxSeconds << ",\"exprs\":" << gExprCount
    << ",\"vars\":" << gVars.size() << ",\"wall_s\":" << now() - gStart << "}\n";
  if (optOut.empty()) {
    fputs(o.str().c_str(), stdout);
  } else {
    FILE* fp = fopen(optOut.c_str(), "w");
    fputs(o.str().c_str(), fp);
    fclose(fp);
  }
}

static std::string gFile;
static void* engineMain(void*) {
  gStart = now();
  auto buf = MemoryBuffer::getFile(gFile);
  if (!buf) {
    fprintf(stderr, "cannot read %s\n", gFile.c_str());
    exit(4);
  }
  auto mod = parseBitcodeFile((*buf)->getMemBufferRef(), gCtx);
  if (!mod) {
    logAllUnhandledErrors(mod.takeError(), errs());
    exit(4);
  }
  gMod = std::move(*mod);
  DL = &gMod->getDataLayout();
  initSolver();
  auto init = std::make_unique<State>();
  init->model = std::make_shared<Model>();
  setupGlobals(*init);
  Function* H = gMod->getFunction("harness_main");
  if (!H) {
    fprintf(stderr, "no harness_main\n");
    exit(4);
  }
  // Run constructors, then the harness.
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* g = gMod->getGlobalVariable("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& e : ca->operands()) {
        auto* st = cast<ConstantStruct>(e);
        if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
          ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  // A synthetic driver keeps frames uniform: push harness first, then the
  // constructors on top in reverse order; each returns into the next.
  struct Driver {};
  {
    // Build a tiny function calling everything in order.
    FunctionType* ft = FunctionType::get(Type::getVoidTy(gCtx), false);
    Function* D = Function::Create(ft, GlobalValue::InternalLinkage, "__driver", gMod.get());
    BasicBlock* bb = BasicBlock::Create(gCtx, "e", D);
    for (auto& c : ctors) CallInst::Create(c.second->getFunctionType(), c.second, {}, "", bb);
    CallInst::Create(H->getFunctionType(), H, {}, "", bb);
    ReturnInst::Create(gCtx, bb);
    pushFrame(*init, D, {}, -1);
  }
  gWork.push_back(std::move(init));
  while (!gWork.empty()) {
    if (gViol.size() >= optMaxViol) {
      gIncomplete["stopped after violations"]++;
      break;
    }
    if (now() - gStart > optTime) {
      gIncomplete["time limit: " + std::to_string(gWork.size()) + " states left"]++;
      break;
    }
    if (gPaths >= optMaxPaths) {
      gIncomplete["path limit"]++;
      break;
    }
    auto s = std::move(gWork.back());
    gWork.pop_back();
    runState(std::move(s));
  }
  writeOut();
  fflush(nullptr);
  _exit(0);
  return nullptr;
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* p) -> const char* {
      size_t n = strlen(p);
      return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr;
    };
    if (auto v = val("--case=")) optCase = atoi(v);
    else if (auto v = val("--time=")) optTime = atof(v);
    else if (auto v = val("--steps=")) optMaxSteps = strtoull(v, 0, 0);
    else if (auto v = val("--paths=")) optMaxPaths = strtoull(v, 0, 0);
    else if (auto v = val("--query-ms=")) optQueryMs = atoi(v);
    else if (auto v = val("--samples=")) optSamples = atoi(v);
    else if (auto v = val("--max-viol=")) optMaxViol = atoi(v);
    else if (auto v = val("--div-split=")) optDivSplit = strtoull(v, 0, 0);
    else if (auto v = val("--any-result=")) { std::stringstream l(v); for (std::string n; std::getline(l, n, ',');) optAnyResult.insert(n); }
    else if (auto v = val("--alloc-small=")) optAllocSmall = strtoull(v, 0, 0);
    else if (auto v = val("--huge=")) optHugeAlloc = strtoull(v, 0, 0);
    else if (auto v = val("--out=")) optOut = v;
    else if (auto v = val("--merge=")) optMerge = strtoull(v, 0, 0);
    else if (auto v = val("--inc=")) gIncremental = atoi(v);
    else if (a == "--real") gRealMode = true;
    else if (a == "-v") optVerbose = true;
    else gFile = a;
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t th;
  if (pthread_create(&th, &at, engineMain, nullptr)) {
    perror("pthread_create");
    return 4;
  }
  pthread_join(th, nullptr);
  return 0;
}
