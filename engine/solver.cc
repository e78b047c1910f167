#include "solver.h"

#include <sys/time.h>
#include <z3.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <unordered_map>

SolverStats gSolver;
unsigned gQueryTimeoutMs = 60000;
static Z3_context C;
static double now() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}

static void onError(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
static Z3_ast kTrue, kFalse, RNE, RNA, RTZ, RTN, RTP;
static Z3_sort S32, S64;

void initSolver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onError);
  kTrue = Z3_mk_true(C);
  kFalse = Z3_mk_false(C);
  RNE = Z3_mk_fpa_rne(C);
  RNA = Z3_mk_fpa_rna(C);
  RTZ = Z3_mk_fpa_rtz(C);
  RTN = Z3_mk_fpa_rtn(C);
  RTP = Z3_mk_fpa_rtp(C);
  S32 = Z3_mk_fpa_sort_single(C);
  S64 = Z3_mk_fpa_sort_double(C);
}

static Z3_ast toBV(Expr* e);
static Z3_ast toBool(Expr* e);
static Z3_ast toFP(Expr* e);    // FP sort (or Real in real mode)
static Z3_sort fsort(unsigned w) { return w == 32 ? S32 : S64; }
static Z3_ast bvnum(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, w));
  Z3_ast hi = bvnum(v >> 64, w - 64), lo = bvnum((uint64_t)v, 64);
  return Z3_mk_concat(C, hi, lo);
}
static std::unordered_map<uint32_t, Z3_ast> gVarAst;

static Z3_ast varAst(Expr* e) {
  auto it = gVarAst.find((uint32_t)e->imm);
  if (it != gVarAst.end()) return it->second;
  const VarInfo& v = gVars[(size_t)e->imm];
  std::string n = "v" + std::to_string((unsigned)e->imm) + "_" + v.name;
  Z3_sort s = v.real ? Z3_mk_real_sort(C) : Z3_mk_bv_sort(C, v.width);
  Z3_ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), s);
  gVarAst[(uint32_t)e->imm] = a;
  return a;
}

// Real mode: integers that are only ever converted to floating point are
// mathematical integers; one that is also used as a bit-vector is linked.
static std::unordered_map<uint32_t, Z3_ast> gVarInt;
static Z3_ast intNum(const std::string& d) {
  return Z3_mk_numeral(C, d.c_str(), Z3_mk_real_sort(C));
}
static Z3_ast pow2Int(unsigned w) { return intNum(std::to_string(1ull << w)); }
// The unsigned value of a bit-vector built from variables, or null.
static Z3_ast toIntU(Expr* e) {
  if (e->width > 62) return nullptr;
  switch (e->kind) {
    case K_Const: return intNum(std::to_string((unsigned long long)e->imm));
    case K_Var: {
      if (gVars[(size_t)e->imm].real) return nullptr;
      auto it = gVarInt.find((uint32_t)e->imm);
      if (it != gVarInt.end()) return it->second;
      std::string n = "i" + std::to_string((unsigned)e->imm);
      return gVarInt[(uint32_t)e->imm] =
                 Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_real_sort(C));
    }
    case K_ZExt: return toIntU(e->a);
    case K_Concat: {
      Z3_ast h = toIntU(e->a), l = toIntU(e->b);
      if (!h || !l) return nullptr;
      Z3_ast m[2] = {h, pow2Int(e->b->width)};
      Z3_ast a[2] = {Z3_mk_mul(C, 2, m), l};
      return Z3_mk_add(C, 2, a);
    }
    default: return nullptr;
  }
}
static Z3_ast toIntS(Expr* e) {
  if (e->kind == K_SExt) return toIntS(e->a);
  Z3_ast u = toIntU(e);
  if (!u || e->kind == K_ZExt) return u;
  Z3_ast a[2] = {u, pow2Int(e->width)};
  return Z3_mk_ite(C, Z3_mk_ge(C, u, pow2Int(e->width - 1)), Z3_mk_sub(C, 2, a), u);
}

static double constDouble(Expr* e) {
  if (e->width == 32) {
    uint32_t x = (uint32_t)e->imm;
    float f;
    memcpy(&f, &x, 4);
    return f;
  }
  uint64_t x = (uint64_t)e->imm;
  double d;
  memcpy(&d, &x, 8);
  return d;
}
static Z3_ast realConst(double d) {
  if (std::isnan(d) || std::isinf(d)) {
    // Not representable; an unconstrained real keeps verdicts conservative.
    return Z3_mk_fresh_const(C, "nonfinite", Z3_mk_real_sort(C));
  }
  int ex;
  double m = std::frexp(d, &ex);  // d = m * 2^ex
  int64_t mi = (int64_t)std::ldexp(m, 53);
  ex -= 53;
  std::string s = std::to_string(mi);
  Z3_ast num = Z3_mk_numeral(C, s.c_str(), Z3_mk_real_sort(C));
  if (mi == 0 || ex == 0) return num;
  Z3_ast p = Z3_mk_power(C, Z3_mk_real(C, 2, 1),
                         Z3_mk_numeral(C, std::to_string(std::abs(ex)).c_str(),
                                       Z3_mk_real_sort(C)));
  p = Z3_simplify(C, p);
  Z3_ast ops[2] = {num, p};
  Z3_ast r = ex > 0 ? Z3_mk_mul(C, 2, ops) : Z3_mk_div(C, num, p);
  return Z3_simplify(C, r);
}
static Z3_ast realFloor(Z3_ast a) {
  return Z3_mk_int2real(C, Z3_mk_real2int(C, a));
}

static Z3_ast toReal(Expr* e) {
  if (e->zfp) return (Z3_ast)e->zfp;
  Z3_ast r;
  auto bin = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[])) {
    Z3_ast o[2] = {toReal(e->a), toReal(e->b)};
    return f(C, 2, o);
  };
  switch (e->kind) {
    case K_Const: r = realConst(constDouble(e)); break;
    case K_FAdd: r = bin(Z3_mk_add); break;
    case K_FSub: r = bin(Z3_mk_sub); break;
    case K_FMul: r = bin(Z3_mk_mul); break;
    case K_FDiv: r = Z3_mk_div(C, toReal(e->a), toReal(e->b)); break;
    case K_FNeg: r = Z3_mk_unary_minus(C, toReal(e->a)); break;
    case K_FAbs: {
      Z3_ast a = toReal(e->a);
      r = Z3_mk_ite(C, Z3_mk_ge(C, a, Z3_mk_real(C, 0, 1)), a,
                    Z3_mk_unary_minus(C, a));
      break;
    }
    case K_FRound: {
      Z3_ast a = toReal(e->a);
      Z3_ast half = Z3_mk_real(C, 1, 2);
      Z3_ast zero = Z3_mk_real(C, 0, 1);
      auto neg = [&](Z3_ast x) { return Z3_mk_unary_minus(C, x); };
      auto add = [&](Z3_ast x, Z3_ast y) {
        Z3_ast o[2] = {x, y};
        return Z3_mk_add(C, 2, o);
      };
      switch (e->imm) {
        case 0: r = realFloor(a); break;
        case 1: r = neg(realFloor(neg(a))); break;
        case 2:
          r = Z3_mk_ite(C, Z3_mk_ge(C, a, zero), realFloor(a),
                        neg(realFloor(neg(a))));
          break;
        default:
          r = Z3_mk_ite(C, Z3_mk_ge(C, a, zero), realFloor(add(a, half)),
                        neg(realFloor(add(neg(a), half))));
      }
      break;
    }
    case K_FSqrt: {
      // s >= 0 and s*s = a (for a >= 0); left unconstrained here.
      r = Z3_mk_fresh_const(C, "sqrt", Z3_mk_real_sort(C));
      break;
    }
    case K_FExt: case K_FTrunc: r = toReal(e->a); break;
    case K_SToF:
      r = toIntS(e->a);
      if (!r) r = Z3_mk_int2real(C, Z3_mk_bv2int(C, toBV(e->a), true));
      break;
    case K_UToF:
      r = toIntU(e->a);
      if (!r) r = Z3_mk_int2real(C, Z3_mk_bv2int(C, toBV(e->a), false));
      break;
    case K_Ite:
      r = Z3_mk_ite(C, toBool(e->a), toReal(e->b), toReal(e->c));
      break;
    case K_Var:
      if (gVars[(size_t)e->imm].real) {
        r = varAst(e);
        break;
      }
      r = Z3_mk_fpa_to_real(C, Z3_mk_fpa_to_fp_bv(C, toBV(e), fsort(e->width)));
      break;
    case K_FFma: {
      Z3_ast o[2] = {toReal(e->a), toReal(e->b)};
      Z3_ast o2[2] = {Z3_mk_mul(C, 2, o), toReal(e->c)};
      r = Z3_mk_add(C, 2, o2);
      break;
    }
    default:
      r = Z3_mk_fpa_to_real(C, Z3_mk_fpa_to_fp_bv(C, toBV(e), fsort(e->width)));
  }
  e->zfp = r;
  return r;
}

static Z3_ast toFP(Expr* e) {
  if (gRealMode) return toReal(e);
  if (e->zfp) return (Z3_ast)e->zfp;
  Z3_ast r;
  Z3_sort s = fsort(e->width);
  switch (e->kind) {
    case K_FAdd: r = Z3_mk_fpa_add(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FSub: r = Z3_mk_fpa_sub(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FMul: r = Z3_mk_fpa_mul(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FDiv: r = Z3_mk_fpa_div(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FSqrt: r = Z3_mk_fpa_sqrt(C, RNE, toFP(e->a)); break;
    case K_FFma:
      r = Z3_mk_fpa_fma(C, RNE, toFP(e->a), toFP(e->b), toFP(e->c));
      break;
    case K_FRound: {
      Z3_ast m[] = {RTN, RTP, RTZ, RNE, RNA};
      r = Z3_mk_fpa_round_to_integral(C, m[e->imm > 4 ? 4 : (unsigned)e->imm], toFP(e->a));
      break;
    }
    case K_FExt: case K_FTrunc:
      r = Z3_mk_fpa_to_fp_float(C, RNE, toFP(e->a), s);
      break;
    case K_SToF: r = Z3_mk_fpa_to_fp_signed(C, RNE, toBV(e->a), s); break;
    case K_UToF: r = Z3_mk_fpa_to_fp_unsigned(C, RNE, toBV(e->a), s); break;
    case K_Ite:
      r = Z3_mk_ite(C, toBool(e->a), toFP(e->b), toFP(e->c));
      break;
    default:
      r = Z3_mk_fpa_to_fp_bv(C, toBV(e), s);
  }
  e->zfp = r;
  return r;
}

static Z3_ast toBool(Expr* e) {
  if (e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  switch (e->kind) {
    case K_Const: r = e->imm ? kTrue : kFalse; break;
    case K_Eq:
      if (e->a->width == 1)
        r = Z3_mk_iff(C, toBool(e->a), toBool(e->b));
      else
        r = Z3_mk_eq(C, toBV(e->a), toBV(e->b));
      break;
    case K_Ult: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
    case K_Ule: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
    case K_Slt: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
    case K_Sle: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
    case K_And: {
      Z3_ast o[2] = {toBool(e->a), toBool(e->b)};
      r = Z3_mk_and(C, 2, o);
      break;
    }
    case K_Or: {
      Z3_ast o[2] = {toBool(e->a), toBool(e->b)};
      r = Z3_mk_or(C, 2, o);
      break;
    }
    case K_Xor:
      if (e->b->isConst())
        r = e->b->imm ? Z3_mk_not(C, toBool(e->a)) : toBool(e->a);
      else
        r = Z3_mk_xor(C, toBool(e->a), toBool(e->b));
      break;
    case K_Ite:
      r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c));
      break;
    case K_FEq:
      r = gRealMode ? Z3_mk_eq(C, toReal(e->a), toReal(e->b))
                    : Z3_mk_fpa_eq(C, toFP(e->a), toFP(e->b));
      break;
    case K_FLt:
      r = gRealMode ? Z3_mk_lt(C, toReal(e->a), toReal(e->b))
                    : Z3_mk_fpa_lt(C, toFP(e->a), toFP(e->b));
      break;
    case K_FLe:
      r = gRealMode ? Z3_mk_le(C, toReal(e->a), toReal(e->b))
                    : Z3_mk_fpa_leq(C, toFP(e->a), toFP(e->b));
      break;
    case K_FUno: {
      if (gRealMode) {
        r = kFalse;
      } else {
        Z3_ast o[2] = {Z3_mk_fpa_is_nan(C, toFP(e->a)),
                       Z3_mk_fpa_is_nan(C, toFP(e->b))};
        r = Z3_mk_or(C, 2, o);
      }
      break;
    }
    default:
      r = Z3_mk_eq(C, toBV(e), bvnum(1, 1));
  }
  e->zbool = r;
  return r;
}

static Z3_ast toBV(Expr* e) {
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r;
  unsigned w = e->width;
  if (w == 1 && e->kind != K_Var && e->kind != K_Extract &&
      e->kind != K_Const) {
    r = Z3_mk_ite(C, toBool(e), bvnum(1, 1), bvnum(0, 1));
    e->zbv = r;
    return r;
  }
  switch (e->kind) {
    case K_Const: r = bvnum(e->imm, w); break;
    case K_Var:
      if (gVars[(size_t)e->imm].real) {
        // Bit pattern of a real: unconstrained.
        r = Z3_mk_fresh_const(C, "realbits", Z3_mk_bv_sort(C, w));
      } else {
        r = varAst(e);
      }
      break;
    case K_Add: r = Z3_mk_bvadd(C, toBV(e->a), toBV(e->b)); break;
    case K_Sub: r = Z3_mk_bvsub(C, toBV(e->a), toBV(e->b)); break;
    case K_Mul: r = Z3_mk_bvmul(C, toBV(e->a), toBV(e->b)); break;
    case K_UDiv: r = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break;
    case K_SDiv: r = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break;
    case K_URem: r = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
    case K_SRem: r = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
    case K_And: r = Z3_mk_bvand(C, toBV(e->a), toBV(e->b)); break;
    case K_Or: r = Z3_mk_bvor(C, toBV(e->a), toBV(e->b)); break;
    case K_Xor: r = Z3_mk_bvxor(C, toBV(e->a), toBV(e->b)); break;
    case K_Shl: r = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break;
    case K_LShr: r = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
    case K_AShr: r = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
    case K_Concat: r = Z3_mk_concat(C, toBV(e->a), toBV(e->b)); break;
    case K_Extract:
      r = Z3_mk_extract(C, (unsigned)e->imm + w - 1, (unsigned)e->imm,
                        toBV(e->a));
      break;
    case K_ZExt: r = Z3_mk_zero_ext(C, w - e->a->width, toBV(e->a)); break;
    case K_SExt: r = Z3_mk_sign_ext(C, w - e->a->width, toBV(e->a)); break;
    case K_Ite:
      r = Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c));
      break;
    case K_FNeg:
    case K_FAbs:
      if (!gRealMode) {  // built away by the constructors
        fprintf(stderr, "fneg in bv mode\n");
        abort();
      }
      r = Z3_mk_fresh_const(C, "realbits", Z3_mk_bv_sort(C, w));
      break;
    case K_FToS: case K_FToU: {
      bool sg = e->kind == K_FToS;
      if (gRealMode) {
        Z3_ast a = toReal(e->a);
        Z3_ast zero = Z3_mk_real(C, 0, 1);
        Z3_ast t = Z3_mk_ite(
            C, Z3_mk_ge(C, a, zero), Z3_mk_real2int(C, a),
            Z3_mk_unary_minus(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, a))));
        r = Z3_mk_int2bv(C, w, t);
        break;
      }
      Z3_ast a = toFP(e->a);
      Z3_sort fs = fsort(e->a->width);
      Z3_ast conv = sg ? Z3_mk_fpa_to_sbv(C, RTZ, a, w)
                       : Z3_mk_fpa_to_ubv(C, RTZ, a, w);
      double hi = std::ldexp(1.0, sg ? w - 1 : w);
      Z3_ast t = Z3_mk_fpa_round_to_integral(C, RTZ, a);
      Z3_ast H = Z3_mk_fpa_numeral_double(C, hi, fs);
      Z3_ast L = Z3_mk_fpa_numeral_double(C, sg ? -hi : 0.0, fs);
      Z3_ast in[2] = {Z3_mk_fpa_lt(C, t, H), Z3_mk_fpa_geq(C, t, L)};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), conv,
                    bvnum((u128)1 << (w - 1), w));
      break;
    }
    default:
      if (e->kind >= K_FAdd) {
        if (gRealMode)
          r = Z3_mk_fresh_const(C, "realbits", Z3_mk_bv_sort(C, w));
        else
          r = Z3_mk_fpa_to_ieee_bv(C, toFP(e));
        break;
      }
      fprintf(stderr, "toBV kind %d\n", e->kind);
      abort();
  }
  e->zbv = r;
  return r;
}

// ------------------------------------------------------------------ queries
struct VecHash {
  size_t operator()(const std::vector<uint32_t>& v) const {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t x : v) h = (h ^ x) * 1099511628211ull, h ^= h >> 29;
    return h;
  }
};
struct CacheEntry {
  SatResult r;
  std::vector<std::pair<uint32_t, uint64_t>> asg;
};
static std::unordered_map<std::vector<uint32_t>, CacheEntry, VecHash> gCache;

static bool modelValue(Z3_model m, uint32_t var, uint64_t& out) {
  auto it = gVarAst.find(var);
  if (it == gVarAst.end()) {
    auto ii = gVarInt.find(var);
    Z3_ast v;
    return ii != gVarInt.end() && Z3_model_eval(C, m, ii->second, true, &v) &&
           Z3_get_numeral_uint64(C, v, &out);
  }
  if (it == gVarAst.end()) return false;
  Z3_ast v;
  if (!Z3_model_eval(C, m, it->second, true, &v)) return false;
  if (gVars[var].real) {
    double d = Z3_get_numeral_double(C, v);
    if (Z3_get_ast_kind(C, v) != Z3_NUMERAL_AST &&
        Z3_is_algebraic_number(C, v)) {
      Z3_ast lo = Z3_get_algebraic_number_lower(C, v, 20);
      d = Z3_get_numeral_double(C, lo);
    }
    if (gVars[var].width == 32) {
      float f = (float)d;
      uint32_t x;
      memcpy(&x, &f, 4);
      out = x;
    } else {
      memcpy(&out, &d, 8);
    }
    return true;
  }
  uint64_t x = 0;
  if (!Z3_get_numeral_uint64(C, v, &x)) return false;
  out = x;
  return true;
}

unsigned gIncremental = 20;
static std::vector<uint32_t> gVarMark;
static uint32_t gMark = 0;

SatResult checkSat(const std::vector<Expr*>& pc, Expr* q, ModelRef& model) {
  if (q->isConst() && !q->imm) return UNSAT;
  // Model shortcut.
  if (model && !q->real && evalExpr(q, *model)) {
    gSolver.modelHits++;
    return SAT;
  }
  // Slice: constraints transitively sharing variables with q.
  gMark++;
  if (gVarMark.size() < gVars.size()) gVarMark.resize(gVars.size(), 0);
  for (uint32_t v : exprVars(q)) gVarMark[v] = gMark;
  std::vector<Expr*> slice;
  std::vector<char> used(pc.size(), 0);
  bool again = true;
  while (again) {
    again = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t v : exprVars(pc[i]))
        if (gVarMark[v] == gMark) {
          hit = true;
          break;
        }
      if (!hit) continue;
      used[i] = 1;
      again = true;
      slice.push_back(pc[i]);
      for (uint32_t v : exprVars(pc[i])) gVarMark[v] = gMark;
    }
  }
  std::vector<uint32_t> key;
  for (Expr* e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  key.push_back(q->id);
  auto it = gCache.find(key);
  if (it != gCache.end()) {
    gSolver.cacheHits++;
    if (it->second.r == SAT) {
      ModelRef m = cloneModel(model);
      for (auto& p : it->second.asg) m->set(p.first, p.second);
      model = m;
    }
    return it->second.r;
  }
  bool fp = q->fp, real = q->real;
  for (Expr* e : slice) fp |= e->fp, real |= e->real;
  double t0 = now();
  // Translate before creating the solver (fresh constants etc.).
  std::vector<Z3_ast> as;
  for (Expr* e : slice) as.push_back(toBool(e));
  as.push_back(toBool(q));
  std::vector<Z3_ast> integral;
  for (auto& vi : gVarInt) {
    if (vi.first >= gVarMark.size() || gVarMark[vi.first] != gMark) continue;
    as.push_back(Z3_mk_ge(C, vi.second, intNum("0")));
    as.push_back(Z3_mk_lt(C, vi.second, pow2Int(gVars[vi.first].width)));
    auto b = gVarAst.find(vi.first);
    if (b != gVarAst.end())
      as.push_back(Z3_mk_eq(C, vi.second, Z3_mk_int2real(C, Z3_mk_bv2int(C, b->second, false))));
    integral.push_back(Z3_mk_is_int(C, vi.second));
  }
  // Bit-vector queries share one incremental solver: every constraint is
  // guarded by an indicator literal, which is assumed when it is in use.
  static Z3_solver inc = nullptr;
  static std::unordered_map<uint32_t, Z3_ast> ind;
  static unsigned incQueries = 0;
  const bool useInc = gIncremental && !fp && !real;
  Z3_solver s;
  Z3_lbool r;
  auto setTimeout = [&](Z3_solver sv, unsigned ms) {
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, sv, p);
    Z3_params_dec_ref(C, p);
  };
  bool done = false;
  if (useInc) {
    if (!inc || incQueries > gIncremental) {
      if (inc) Z3_solver_dec_ref(C, inc);
      inc = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
      Z3_solver_inc_ref(C, inc);
      setTimeout(inc, std::min(gQueryTimeoutMs, 4000u));
      ind.clear();
      incQueries = 0;
    }
    incQueries++;
    if (gQueryTimeoutMs < 4000) setTimeout(inc, gQueryTimeoutMs);
    std::vector<Z3_ast> lits;
    auto lit = [&](Expr* e, Z3_ast b) {
      auto it = ind.find(e->id);
      if (it == ind.end()) {
        Z3_ast p = Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C));
        Z3_solver_assert(C, inc, Z3_mk_implies(C, p, b));
        it = ind.emplace(e->id, p).first;
      }
      lits.push_back(it->second);
    };
    for (size_t i = 0; i < slice.size(); i++) lit(slice[i], as[i]);
    lit(q, as.back());
    s = inc;
    Z3_solver_inc_ref(C, s);
    r = Z3_solver_check_assumptions(C, s, lits.size(), lits.data());
    done = r != Z3_L_UNDEF;
    if (!done) Z3_solver_dec_ref(C, s);
  }
  if (!done) {
    if (gRealMode && fp)
      s = Z3_mk_solver(C);
    else
      s = Z3_mk_solver_for_logic(
          C, Z3_mk_string_symbol(C, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(C, s);
    setTimeout(s, gQueryTimeoutMs);
    for (Z3_ast a : as) Z3_solver_assert(C, s, a);
    r = Z3_solver_check(C, s);
    if (!integral.empty() && r != Z3_L_FALSE) {
      for (Z3_ast a : integral) Z3_solver_assert(C, s, a);
      r = Z3_solver_check(C, s);
    }
  }
  SatResult res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  CacheEntry ce;
  ce.r = res;
  if (res == SAT) {
    Z3_model m = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, m);
    for (uint32_t v = 0; v < gVars.size(); v++) {
      if (v >= gVarMark.size() || gVarMark[v] != gMark) continue;
      uint64_t x;
      if (modelValue(m, v, x)) ce.asg.push_back({v, x});
    }
    Z3_model_dec_ref(C, m);
    ModelRef nm = cloneModel(model);
    for (auto& a : ce.asg) nm->set(a.first, a.second);
    model = nm;
  }
  Z3_solver_dec_ref(C, s);
  double dt = now() - t0;
  gSolver.queries++;
  if (real) gSolver.real++;
  gSolver.seconds += dt;
  gSolver.maxSeconds = std::max(gSolver.maxSeconds, dt);
  if (res == SAT) gSolver.sat++;
  if (res == UNSAT) gSolver.unsat++;
  if (res == UNKNOWN) gSolver.unknown++;
  if (getenv("VERIF_SLOWQ") && dt > atof(getenv("VERIF_SLOWQ"))) {
    fprintf(stderr, "slow query %.2fs res=%d slice=%zu\n q=%s\n", dt, res,
            slice.size(), exprStr(q, 8).c_str());
    for (Expr* e : slice) fprintf(stderr, "   %s\n", exprStr(e, 6).c_str());
  }
  gCache.emplace(std::move(key), std::move(ce));
  return res;
}
