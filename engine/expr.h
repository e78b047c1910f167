// Hash-consed bit-vector / floating-point expression DAG.
#ifndef VERIF_EXPR_H_
#define VERIF_EXPR_H_
#include <cstdint>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_Const, K_Var,
  K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
  K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Concat,   // a = high part, b = low part
  K_Extract,  // imm = low bit
  K_ZExt, K_SExt,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
  K_Ite,
  // Floating point; operands and results are IEEE bit patterns (32/64 bits).
  K_FAdd, K_FSub, K_FMul, K_FDiv, K_FNeg, K_FAbs, K_FSqrt,
  K_FRound,  // imm: 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away
  K_FEq, K_FLt, K_FLe, K_FUno,
  K_FExt, K_FTrunc, K_SToF, K_UToF, K_FToS, K_FToU, K_FFma,
};

struct Expr {
  Kind kind;
  bool real = false;      // mentions a real-mode variable
  bool unin = false;      // mentions uninitialised memory
  bool fp = false;        // mentions a floating point operator
  uint16_t width;
  uint32_t id;
  Expr *a = nullptr, *b = nullptr, *c = nullptr;
  u128 imm = 0;
  uint64_t umin = 0, umax = ~0ull;  // valid bounds when width <= 64
  // caches
  uint64_t epoch = 0;
  u128 val = 0;
  void* zbv = nullptr;
  void* zbool = nullptr;
  void* zfp = nullptr;
  uint32_t visit = 0;
  std::vector<uint32_t>* vars = nullptr;
  bool isConst() const { return kind == K_Const; }
};

struct VarInfo {
  std::string name;
  unsigned width;
  bool real = false;
  bool uninit = false;
};
extern std::vector<VarInfo> gVars;
extern bool gRealMode;

struct Model {
  uint64_t id;
  std::vector<uint64_t> v;
  Model();
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
  void set(uint32_t i, uint64_t x) {
    if (i >= v.size()) v.resize(i + 1, 0);
    v[i] = x;
  }
};
typedef std::shared_ptr<Model> ModelRef;
ModelRef cloneModel(const ModelRef& m);

static inline u128 maskw(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
static inline uint64_t mask64(unsigned w) {
  return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}
static inline i128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  return (i128)(v << (128 - w)) >> (128 - w);
}

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w, bool real = false,
            bool uninit = false);
Expr* mkBin(Kind k, Expr* a, Expr* b);   // arithmetic, bitwise, shifts
Expr* mkCmp(Kind k, Expr* a, Expr* b);   // K_Eq .. K_Sle, width 1
Expr* mkConcat(Expr* hi, Expr* lo);
// `push` distributes the extraction over arithmetic (not used for memory
// bytes, so that reassembling them yields the stored expression).
Expr* mkExtract(Expr* e, unsigned lo, unsigned w, bool push = true);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkNot(Expr* e);  // width 1
Expr* mkFBin(Kind k, Expr* a, Expr* b);
Expr* mkFUn(Kind k, Expr* a, unsigned w, unsigned imm = 0);
Expr* mkFCmp(Kind k, Expr* a, Expr* b);
Expr* mkFFma(Expr* a, Expr* b, Expr* c);

u128 evalBin(Kind k, u128 a, u128 b, unsigned w, unsigned imm = 0);
u128 evalFUn(Kind k, u128 a, unsigned wa, unsigned w, unsigned imm);
u128 evalExpr(Expr* e, const Model& m);
const std::vector<uint32_t>& exprVars(Expr* e);
unsigned trailingZeros(Expr* e);
std::string exprStr(Expr* e, int depth = 6);
extern uint64_t gExprCount;
#endif
