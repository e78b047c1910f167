#include "expr.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <unordered_map>

std::vector<VarInfo> gVars;
bool gRealMode = false;
uint64_t gExprCount = 0;
static uint64_t gModelIds = 1;

Model::Model() : id(++gModelIds) {}
ModelRef cloneModel(const ModelRef& m) {
  auto r = std::make_shared<Model>();
  if (m) r->v = m->v;
  return r;
}

// ---------------------------------------------------------------- interning
static std::vector<Expr*> gTable(1 << 16, nullptr);
static std::vector<Expr*> gNextInBucket;  // chained by id

static uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static uint64_t hashKey(Kind k, unsigned w, Expr* a, Expr* b, Expr* c,
                        u128 imm) {
  uint64_t h = hmix(k, w);
  h = hmix(h, a ? a->id + 1 : 0);
  h = hmix(h, b ? b->id + 1 : 0);
  h = hmix(h, c ? c->id + 1 : 0);
  h = hmix(h, (uint64_t)imm);
  h = hmix(h, (uint64_t)(imm >> 64));
  return h;
}
static std::vector<Expr*> gAll;

static void bounds(Expr* e) {
  unsigned w = e->width;
  if (w > 64) return;
  uint64_t m = mask64(w);
  e->umin = 0;
  e->umax = m;
  auto narrow = [](Expr* x) { return x->width <= 64; };
  switch (e->kind) {
    case K_Const:
      e->umin = e->umax = (uint64_t)e->imm;
      break;
    case K_ZExt:
      if (narrow(e->a)) {
        e->umin = e->a->umin;
        e->umax = e->a->umax;
      }
      break;
    case K_Extract:
      if (narrow(e->a) && e->imm == 0 && e->a->umax <= m) {
        e->umin = e->a->umin;
        e->umax = e->a->umax;
      } else if (narrow(e->a) && (e->a->umax >> (uint64_t)e->imm) <= m) {
        e->umin = e->a->umin >> (uint64_t)e->imm;
        e->umax = e->a->umax >> (uint64_t)e->imm;
      }
      break;
    case K_Concat: {
      unsigned lw = e->b->width;
      e->umin = (lw >= 64 ? 0 : e->a->umin << lw) | e->b->umin;
      e->umax = (lw >= 64 ? 0 : e->a->umax << lw) | (lw >= 64 ? e->b->umax : e->b->umax);
      break;
    }
    case K_And:
      e->umax = std::min(e->a->umax, e->b->umax);
      break;
    case K_Or: {
      e->umin = std::max(e->a->umin, e->b->umin);
      uint64_t x = e->a->umax | e->b->umax;
      // smallest all-ones covering x
      if (x) {
        int hb = 63 - __builtin_clzll(x);
        uint64_t full = hb == 63 ? ~0ull : ((1ull << (hb + 1)) - 1);
        e->umax = std::min(m, full);
      } else {
        e->umax = 0;
      }
      break;
    }
    case K_Xor: {
      uint64_t x = e->a->umax | e->b->umax;
      if (x) {
        int hb = 63 - __builtin_clzll(x);
        uint64_t full = hb == 63 ? ~0ull : ((1ull << (hb + 1)) - 1);
        e->umax = std::min(m, full);
      } else {
        e->umax = 0;
      }
      break;
    }
    case K_Add: {
      u128 s = (u128)e->a->umax + e->b->umax;
      if (s <= m) {
        e->umin = e->a->umin + e->b->umin;
        e->umax = (uint64_t)s;
      } else {
        // both ends wrap equally
        u128 lo = (u128)e->a->umin + e->b->umin;
        if (lo > m && s <= 2 * (u128)m + 1) {
          e->umin = (uint64_t)(lo & m);
          e->umax = (uint64_t)(s & m);
        }
      }
      break;
    }
    case K_Mul: {
      u128 s = (u128)e->a->umax * e->b->umax;
      if (s <= m) {
        e->umin = e->a->umin * e->b->umin;
        e->umax = (uint64_t)s;
      }
      break;
    }
    case K_UDiv:
      if (e->b->umin > 0) {
        e->umin = e->a->umin / e->b->umax;
        e->umax = e->a->umax / e->b->umin;
      }
      break;
    case K_URem:
      if (e->b->umin > 0) e->umax = std::min(e->a->umax, e->b->umax - 1);
      break;
    case K_LShr:
      e->umax = e->a->umax;
      if (e->b->isConst() && (uint64_t)e->b->imm < 64) {
        e->umin = e->a->umin >> (uint64_t)e->b->imm;
        e->umax = e->a->umax >> (uint64_t)e->b->imm;
      }
      break;
    case K_Ite:
      e->umin = std::min(e->b->umin, e->c->umin);
      e->umax = std::max(e->b->umax, e->c->umax);
      break;
    default:
      break;
  }
  if (e->umin > e->umax) {  // never expected; stay sound
    e->umin = 0;
    e->umax = m;
  }
}

static Expr* intern(Kind k, unsigned w, Expr* a = nullptr, Expr* b = nullptr,
                    Expr* c = nullptr, u128 imm = 0) {
  uint64_t h = hashKey(k, w, a, b, c, imm);
  size_t bi = h & (gTable.size() - 1);
  for (Expr* e = gTable[bi]; e; e = gNextInBucket[e->id]) {
    if (e->kind == k && e->width == w && e->a == a && e->b == b && e->c == c &&
        e->imm == imm)
      return e;
  }
  Expr* e = new Expr;
  e->kind = k;
  e->width = w;
  e->a = a;
  e->b = b;
  e->c = c;
  e->imm = imm;
  e->id = gExprCount++;
  for (Expr* x : {a, b, c})
    if (x) {
      e->real |= x->real;
      e->unin |= x->unin;
      e->fp |= x->fp;
    }
  if (k >= K_FAdd) e->fp = true;
  bounds(e);
  gAll.push_back(e);
  gNextInBucket.push_back(gTable[bi]);
  gTable[bi] = e;
  if (gExprCount > gTable.size() * 2) {
    size_t n = gTable.size() * 4;
    gTable.assign(n, nullptr);
    for (Expr* x : gAll) {
      size_t i =
          hashKey(x->kind, x->width, x->a, x->b, x->c, x->imm) & (n - 1);
      gNextInBucket[x->id] = gTable[i];
      gTable[i] = x;
    }
  }
  return e;
}

Expr* mkConst(u128 v, unsigned w) {
  return intern(K_Const, w, nullptr, nullptr, nullptr, v & maskw(w));
}
Expr* mkVar(const std::string& name, unsigned w, bool real, bool uninit) {
  gVars.push_back({name, w, real, uninit});
  Expr* e = intern(K_Var, w, nullptr, nullptr, nullptr, gVars.size() - 1);
  e->real = real;
  e->unin = gVars.back().uninit;
  return e;
}

// ---------------------------------------------------------------- evaluation
static float f32(u128 v) {
  uint32_t x = (uint32_t)v;
  float f;
  memcpy(&f, &x, 4);
  return f;
}
static double f64(u128 v) {
  uint64_t x = (uint64_t)v;
  double f;
  memcpy(&f, &x, 8);
  return f;
}
static u128 b32(float f) {
  uint32_t x;
  if (std::isnan(f)) return 0x7fc00000u;
  memcpy(&x, &f, 4);
  return x;
}
static u128 b64(double f) {
  uint64_t x;
  if (std::isnan(f)) return 0x7ff8000000000000ull;
  memcpy(&x, &f, 8);
  return x;
}
template <class F>
static F roundMode(F v, unsigned m) {
  switch (m) {
    case 0: return std::floor(v);
    case 1: return std::ceil(v);
    case 2: return std::trunc(v);
    case 3: return std::nearbyint(v);
    default: return std::round(v);
  }
}

u128 evalBin(Kind k, u128 a, u128 b, unsigned w, unsigned) {
  u128 m = maskw(w);
  switch (k) {
    case K_Add: return (a + b) & m;
    case K_Sub: return (a - b) & m;
    case K_Mul: return (a * b) & m;
    case K_UDiv: return b == 0 ? m : (a / b) & m;
    case K_URem: return b == 0 ? a : (a % b) & m;
    case K_SDiv: {
      i128 x = sext128(a, w), y = sext128(b, w);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case K_SRem: {
      i128 x = sext128(a, w), y = sext128(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case K_And: return a & b;
    case K_Or: return a | b;
    case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case K_AShr: {
      i128 x = sext128(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m;
    }
    case K_Eq: return a == b;
    case K_Ult: return a < b;
    case K_Ule: return a <= b;
    case K_Slt: return sext128(a, w) < sext128(b, w);
    case K_Sle: return sext128(a, w) <= sext128(b, w);
    case K_FAdd: return w == 32 ? b32(f32(a) + f32(b)) : b64(f64(a) + f64(b));
    case K_FSub: return w == 32 ? b32(f32(a) - f32(b)) : b64(f64(a) - f64(b));
    case K_FMul: return w == 32 ? b32(f32(a) * f32(b)) : b64(f64(a) * f64(b));
    case K_FDiv: return w == 32 ? b32(f32(a) / f32(b)) : b64(f64(a) / f64(b));
    case K_FEq: return w == 32 ? f32(a) == f32(b) : f64(a) == f64(b);
    case K_FLt: return w == 32 ? f32(a) < f32(b) : f64(a) < f64(b);
    case K_FLe: return w == 32 ? f32(a) <= f32(b) : f64(a) <= f64(b);
    case K_FUno:
      return w == 32 ? (std::isnan(f32(a)) || std::isnan(f32(b)))
                     : (std::isnan(f64(a)) || std::isnan(f64(b)));
    default:
      fprintf(stderr, "evalBin kind %d\n", k);
      abort();
  }
}

u128 evalFUn(Kind k, u128 a, unsigned wa, unsigned w, unsigned imm) {
  switch (k) {
    case K_FNeg: return a ^ ((u128)1 << (w - 1));
    case K_FAbs: return a & ~((u128)1 << (w - 1)) & maskw(w);
    case K_FSqrt: return w == 32 ? b32(std::sqrt(f32(a))) : b64(std::sqrt(f64(a)));
    case K_FRound:
      return w == 32 ? b32(roundMode(f32(a), imm)) : b64(roundMode(f64(a), imm));
    case K_FExt: return b64((double)f32(a));
    case K_FTrunc: return b32((float)f64(a));
    case K_SToF: {
      i128 x = sext128(a, wa);
      return w == 32 ? b32((float)x) : b64((double)x);
    }
    case K_UToF:
      return w == 32 ? b32((float)a) : b64((double)a);
    case K_FToS: {
      double d = wa == 32 ? f32(a) : f64(a);
      // Out of range is undefined behaviour in C++; x86-like result.
      if (std::isnan(d) || d >= std::ldexp(1.0, w - 1) ||
          d < -std::ldexp(1.0, w - 1) - (w < 53 ? 0.9999999999 : 0))
        return (u128)1 << (w - 1);
      return (u128)(i128)d & maskw(w);
    }
    case K_FToU: {
      double d = wa == 32 ? f32(a) : f64(a);
      if (std::isnan(d) || d >= std::ldexp(1.0, w) || d <= -1.0)
        return (u128)1 << (w - 1);
      if (d < 0) return 0;
      return (u128)d & maskw(w);
    }
    default:
      fprintf(stderr, "evalFUn kind %d\n", k);
      abort();
  }
}

u128 evalExpr(Expr* e, const Model& m) {
  if (e->kind == K_Const) return e->imm;
  if (e->epoch == m.id) return e->val;
  u128 r = 0;
  switch (e->kind) {
    case K_Var:
      r = (u128)m.get((uint32_t)e->imm) & maskw(e->width);
      break;
    case K_Concat:
      r = (evalExpr(e->a, m) << e->b->width) | evalExpr(e->b, m);
      break;
    case K_Extract:
      r = (evalExpr(e->a, m) >> (unsigned)e->imm) & maskw(e->width);
      break;
    case K_ZExt:
      r = evalExpr(e->a, m);
      break;
    case K_SExt:
      r = (u128)sext128(evalExpr(e->a, m), e->a->width) & maskw(e->width);
      break;
    case K_Ite:
      r = evalExpr(evalExpr(e->a, m) ? e->b : e->c, m);
      break;
    case K_FFma:
      r = e->width == 32
              ? b32(std::fma(f32(evalExpr(e->a, m)), f32(evalExpr(e->b, m)),
                             f32(evalExpr(e->c, m))))
              : b64(std::fma(f64(evalExpr(e->a, m)), f64(evalExpr(e->b, m)),
                             f64(evalExpr(e->c, m))));
      break;
    case K_FNeg: case K_FAbs: case K_FSqrt: case K_FRound: case K_FExt:
    case K_FTrunc: case K_SToF: case K_UToF: case K_FToS: case K_FToU:
      r = evalFUn(e->kind, evalExpr(e->a, m), e->a->width, e->width,
                  (unsigned)e->imm);
      break;
    default:
      r = evalBin(e->kind, evalExpr(e->a, m), evalExpr(e->b, m), e->a->width);
  }
  e->epoch = m.id;
  e->val = r;
  return r;
}

// ---------------------------------------------------------------- builders
static bool isAllOnes(Expr* e) {
  return e->isConst() && e->imm == maskw(e->width);
}
static bool isZero(Expr* e) { return e->isConst() && e->imm == 0; }

unsigned trailingZeros(Expr* e) {
  switch (e->kind) {
    case K_Const: {
      unsigned n = 0;
      while (n < e->width && !((e->imm >> n) & 1)) n++;
      return n;
    }
    case K_Concat: {
      unsigned n = trailingZeros(e->b);
      return n < e->b->width ? n : n + trailingZeros(e->a);
    }
    case K_Add: case K_Sub: case K_Or: case K_Xor:
      return std::min(trailingZeros(e->a), trailingZeros(e->b));
    case K_And:
      return std::max(trailingZeros(e->a), trailingZeros(e->b));
    case K_Mul:
      return std::min<unsigned>(e->width,
                                trailingZeros(e->a) + trailingZeros(e->b));
    case K_Ite:
      return std::min(trailingZeros(e->b), trailingZeros(e->c));
    case K_ZExt: case K_SExt: {
      unsigned n = trailingZeros(e->a);
      return n >= e->a->width ? e->width : n;
    }
    case K_Shl:
      return trailingZeros(e->a);
    default:
      return 0;
  }
}

Expr* mkExtract(Expr* e, unsigned lo, unsigned w, bool push) {
  if (lo == 0 && w == e->width) return e;
  switch (e->kind) {
    case K_Const:
      return mkConst(e->imm >> lo, w);
    case K_Extract:
      return mkExtract(e->a, lo + (unsigned)e->imm, w, push);
    case K_Concat: {
      unsigned lw = e->b->width;
      if (lo >= lw) return mkExtract(e->a, lo - lw, w, push);
      if (lo + w <= lw) return mkExtract(e->b, lo, w, push);
      return mkConcat(mkExtract(e->a, 0, lo + w - lw, push),
                      mkExtract(e->b, lo, lw - lo, push));
    }
    case K_ZExt: {
      unsigned aw = e->a->width;
      if (lo >= aw) return mkConst(0, w);
      if (lo + w <= aw) return mkExtract(e->a, lo, w, push);
      return mkZExt(mkExtract(e->a, lo, aw - lo, push), w);
    }
    case K_SExt: {
      unsigned aw = e->a->width;
      if (lo + w <= aw) return mkExtract(e->a, lo, w, push);
      if (lo < aw) return mkSExt(mkExtract(e->a, lo, aw - lo, push), w);
      if (w == 1) return mkExtract(e->a, aw - 1, 1, push);
      return mkSExt(mkExtract(e->a, aw - 1, 1, push), w);
    }
    case K_Ite:
      if (push && (e->b->isConst() || e->c->isConst()))
        return mkIte(e->a, mkExtract(e->b, lo, w, push), mkExtract(e->c, lo, w, push));
      break;
    case K_And: case K_Or: case K_Xor:
      if (push && (e->a->isConst() || e->b->isConst() || w <= 8))
        return mkBin(e->kind, mkExtract(e->a, lo, w, push), mkExtract(e->b, lo, w, push));
      break;
    case K_Add: case K_Sub: case K_Mul:
      // Low bits only depend on low bits.
      if (push && lo == 0) {
        return mkBin(e->kind, mkExtract(e->a, 0, w, push), mkExtract(e->b, 0, w, push));
      }
      break;
    default:
      break;
  }
  if (e->width <= 64) {
    // All bits above the known maximum are zero.
    if (lo < 64 && (e->umax >> lo) == 0) return mkConst(0, w);
  }
  return intern(K_Extract, w, e, nullptr, nullptr, lo);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst())
    return mkConst((hi->imm << lo->width) | lo->imm, w);
  if (isZero(hi)) return mkZExt(lo, w);
  // Normalise to right-nested: (a . b) . c  ->  a . (b . c)
  if (hi->kind == K_Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->kind == K_ZExt)
    return mkZExt(mkConcat(hi->a, lo), w);
  auto adj = [](Expr* h, Expr* l) -> bool {
    return h->kind == K_Extract && l->kind == K_Extract && h->a == l->a &&
           (unsigned)h->imm == (unsigned)l->imm + l->width;
  };
  if (adj(hi, lo)) return mkExtract(hi->a, (unsigned)lo->imm, w, false);
  // hi is extract whose low end meets `lo` == whole expression's low part
  if (hi->kind == K_Extract && hi->a == lo) return intern(K_Concat, w, hi, lo);
  if (lo->kind == K_Concat) {
    if (adj(hi, lo->a))
      return mkConcat(mkExtract(hi->a, (unsigned)lo->a->imm,
                                hi->width + lo->a->width, false),
                      lo->b);
    if (hi->isConst() && lo->a->isConst())
      return mkConcat(mkConcat(hi, lo->a), lo->b);
  }
  // sign patterns
  if (hi->kind == K_SExt && hi->a->width == 1 && !hi->a->isConst()) {
    if (mkExtract(lo, lo->width - 1, 1, false) == hi->a)
      return mkSExt(lo, w);
    if (lo->kind == K_Concat &&
        mkExtract(lo->a, lo->a->width - 1, 1, false) == hi->a)
      return mkConcat(mkSExt(lo->a, hi->width + lo->a->width), lo->b);
  }
  if (hi->kind == K_Ite && lo->kind == K_Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(K_Concat, w, hi, lo);
}

Expr* mkZExt(Expr* e, unsigned w) {
  if (e->width == w) return e;
  if (e->isConst()) return mkConst(e->imm, w);
  if (e->kind == K_ZExt) return mkZExt(e->a, w);
  // Re-widening the only non-zero bits of a value.
  if (e->kind == K_Extract && e->imm == 0 && e->a->width <= w &&
      e->a->width <= 64 && e->a->umax <= mask64(e->width))
    return mkZExt(e->a, w);
  return intern(K_ZExt, w, e);
}
Expr* mkSExt(Expr* e, unsigned w) {
  if (e->width == w) return e;
  if (e->isConst()) return mkConst((u128)sext128(e->imm, e->width), w);
  if (e->kind == K_SExt) return mkSExt(e->a, w);
  if (e->kind == K_ZExt) return mkZExt(e->a, w);
  if (e->width <= 64 && e->width > 1 &&
      e->umax <= mask64(e->width) >> 1)
    return mkZExt(e, w);
  return intern(K_SExt, w, e);
}

Expr* mkNot(Expr* e) { return mkBin(K_Xor, e, mkConst(1, 1)); }

Expr* mkIte(Expr* c, Expr* t, Expr* f) {
  if (c->isConst()) return c->imm ? t : f;
  if (t == f) return t;
  if (c->kind == K_Xor && c->width == 1 && c->b->isConst() && c->b->imm == 1)
    return mkIte(c->a, f, t);
  if (t->kind == K_Ite && t->a == c) t = t->b;
  if (f->kind == K_Ite && f->a == c) f = f->c;
  if (t == f) return t;
  if (t->width == 1) {
    if (t->isConst() && f->isConst())
      return t->imm ? c : mkNot(c);
    if (t->isConst())
      return t->imm ? mkBin(K_Or, c, f) : mkBin(K_And, mkNot(c), f);
    if (f->isConst())
      return f->imm ? mkBin(K_Or, mkNot(c), t) : mkBin(K_And, c, t);
  }
  return intern(K_Ite, t->width, c, t, f);
}

// Collects the (lo, width, expr) segments of a concat/zext/const tree.
struct Seg {
  unsigned lo, w;
  Expr* e;
};
static void segments(Expr* e, unsigned lo, std::vector<Seg>& out) {
  if (e->kind == K_Concat) {
    segments(e->b, lo, out);
    segments(e->a, lo + e->b->width, out);
  } else if (e->kind == K_ZExt) {
    segments(e->a, lo, out);
    out.push_back({lo + e->a->width, (unsigned)(e->width - e->a->width),
                   mkConst(0, e->width - e->a->width)});
  } else {
    out.push_back({lo, e->width, e});
  }
}
static bool segmentable(Expr* e) {
  return e->kind == K_Concat || e->kind == K_ZExt || e->kind == K_Const;
}
// Bitwise op on concat-like operands, segment by segment.
static Expr* bySegments(Kind k, Expr* a, Expr* b) {
  std::vector<Seg> sa, sb;
  segments(a, 0, sa);
  segments(b, 0, sb);
  if (sa.size() < 2 && sb.size() < 2) return nullptr;
  std::vector<unsigned> cuts;
  for (auto& s : sa) cuts.push_back(s.lo + s.w);
  for (auto& s : sb) cuts.push_back(s.lo + s.w);
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  Expr* res = nullptr;
  unsigned lo = 0;
  // Only worthwhile if each piece has a constant side.
  struct P { Expr *x, *y; };
  std::vector<P> ps;
  for (unsigned hi : cuts) {
    Expr* x = mkExtract(a, lo, hi - lo);
    Expr* y = mkExtract(b, lo, hi - lo);
    if (!x->isConst() && !y->isConst()) return nullptr;
    if (!x->isConst() || !y->isConst()) {
      Expr* k0 = x->isConst() ? x : y;
      if (!isZero(k0) && !isAllOnes(k0)) return nullptr;
    }
    ps.push_back({x, y});
    lo = hi;
  }
  for (auto& p : ps) {
    Expr* r = mkBin(k, p.x, p.y);
    res = res ? mkConcat(r, res) : r;
  }
  return res;
}

static Expr* andMask(Expr* a, u128 m) {
  // Split the mask into runs; build concat of extracts and zeros.
  unsigned w = a->width;
  unsigned runs = 0;
  for (unsigned i = 0; i < w; i++)
    if (((m >> i) & 1) && (i == 0 || !((m >> (i - 1)) & 1))) runs++;
  if (runs > 3) return nullptr;
  Expr* res = nullptr;
  unsigned i = 0;
  while (i < w) {
    unsigned j = i;
    bool bit = (m >> i) & 1;
    while (j < w && (bool)((m >> j) & 1) == bit) j++;
    Expr* p = bit ? mkExtract(a, i, j - i) : mkConst(0, j - i);
    res = res ? mkConcat(p, res) : p;
    i = j;
  }
  return res;
}

Expr* mkBin(Kind k, Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst())
    return mkConst(evalBin(k, a->imm, b->imm, w), w);
  bool comm = k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id)))
    std::swap(a, b);
  switch (k) {
    case K_Add:
      if (isZero(b)) return a;
      if (b->isConst() && a->kind == K_Add && a->b->isConst())
        return mkBin(K_Add, a->a, mkConst(a->b->imm + b->imm, w));
      if (b->isConst() && a->kind == K_Ite && a->b->isConst() &&
          a->c->isConst())
        return mkIte(a->a, mkBin(K_Add, a->b, b), mkBin(K_Add, a->c, b));
      // (x - y) + y
      if (a->kind == K_Sub && a->b == b) return a->a;
      if (b->kind == K_Sub && b->b == a) return b->a;
      // pull constants outwards
      if (!b->isConst() && a->kind == K_Add && a->b->isConst())
        return mkBin(K_Add, mkBin(K_Add, a->a, b), a->b);
      if (!b->isConst() && b->kind == K_Add && b->b->isConst())
        return mkBin(K_Add, mkBin(K_Add, a, b->a), b->b);
      break;
    case K_Sub:
      if (isZero(b)) return a;
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(K_Add, a, mkConst(0 - b->imm, w));
      // (x + y) - x
      if (a->kind == K_Add) {
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
      }
      if (a->kind == K_Add && a->b->isConst())
        return mkBin(K_Add, mkBin(K_Sub, a->a, b), a->b);
      if (b->kind == K_Add && b->b->isConst())
        return mkBin(K_Add, mkBin(K_Sub, a, b->a), mkConst(0 - b->b->imm, w));
      break;
    case K_Mul:
      if (isZero(b)) return b;
      if (b->isConst()) {
        if (b->imm == 1) return a;
        if ((b->imm & (b->imm - 1)) == 0) {
          unsigned s = 0;
          while (!((b->imm >> s) & 1)) s++;
          return mkBin(K_Shl, a, mkConst(s, w));
        }
      }
      break;
    case K_UDiv:
      if (b->isConst() && b->imm == 1) return a;
      if (b->isConst() && b->imm && (b->imm & (b->imm - 1)) == 0) {
        unsigned s = 0;
        while (!((b->imm >> s) & 1)) s++;
        return mkBin(K_LShr, a, mkConst(s, w));
      }
      if (w <= 64 && a->umax < b->umin) return mkConst(0, w);
      break;
    case K_URem:
      if (b->isConst() && b->imm == 1) return mkConst(0, w);
      if (b->isConst() && b->imm && (b->imm & (b->imm - 1)) == 0)
        return mkBin(K_And, a, mkConst(b->imm - 1, w));
      if (w <= 64 && a->umax < b->umin) return a;
      break;
    case K_SDiv:
      if (b->isConst() && b->imm == 1) return a;
      if (w <= 64 && a->umax <= mask64(w) >> 1 && b->umax <= mask64(w) >> 1)
        return mkBin(K_UDiv, a, b);
      if (w <= 64 && b->isConst() && b->imm && (b->imm & (b->imm - 1)) == 0 && !((b->imm >> (w - 1)) & 1)) {
        unsigned s = 0;
        while (!((b->imm >> s) & 1)) s++;
        Expr* bias = mkBin(K_LShr, mkBin(K_AShr, a, mkConst(w - 1, w)), mkConst(w - s, w));
        return mkBin(K_AShr, mkBin(K_Add, a, bias), mkConst(s, w));
      }
      break;
    case K_SRem:
      if (w <= 64 && a->umax <= mask64(w) >> 1 && b->umax <= mask64(w) >> 1)
        return mkBin(K_URem, a, b);
      if (w <= 64 && b->isConst() && b->imm > 1 && (b->imm & (b->imm - 1)) == 0 && !((b->imm >> (w - 1)) & 1)) {
        Expr* q = mkBin(K_SDiv, a, b);
        return mkBin(K_Sub, a, mkBin(K_Mul, q, b));
      }
      break;
    case K_And:
      if (a == b) return a;
      if (isZero(b)) return b;
      if (isAllOnes(b)) return a;
      if (w == 1) {
        if (mkNot(a) == b) return mkConst(0, 1);
        // x & (x & y), x & (!x | y)
        if (b->kind == K_And && (b->a == a || b->b == a)) return b;
        if (a->kind == K_And && (a->a == b || a->b == b)) return a;
        if (b->kind == K_Or && (b->a == a || b->b == a)) return a;
        if (a->kind == K_Or && (a->a == b || a->b == b)) return b;
      }
      if (b->isConst() && a->kind == K_And && a->b->isConst())
        return mkBin(K_And, a->a, mkConst(a->b->imm & b->imm, w));
      if (b->isConst())
        if (Expr* r = andMask(a, b->imm)) return r;
      if (segmentable(a) && segmentable(b))
        if (Expr* r = bySegments(k, a, b)) return r;
      break;
    case K_Or:
      if (a == b) return a;
      if (isZero(b)) return a;
      if (isAllOnes(b)) return b;
      if (w == 1) {
        if (mkNot(a) == b) return mkConst(1, 1);
        if (b->kind == K_Or && (b->a == a || b->b == a)) return b;
        if (a->kind == K_Or && (a->a == b || a->b == b)) return a;
        if (b->kind == K_And && (b->a == a || b->b == a)) return a;
        if (a->kind == K_And && (a->a == b || a->b == b)) return b;
        if (a->kind == K_And && b->kind == K_And) {
          // (p & c) | (p & !c)
          if (a->a == b->a && mkNot(a->b) == b->b) return a->a;
          if (a->b == b->b && mkNot(a->a) == b->a) return a->b;
          if (a->a == b->b && mkNot(a->b) == b->a) return a->a;
          if (a->b == b->a && mkNot(a->a) == b->b) return a->b;
        }
        // c | (p & !c) = c | p
        if (b->kind == K_And) {
          if (mkNot(b->b) == a) return mkBin(K_Or, a, b->a);
          if (mkNot(b->a) == a) return mkBin(K_Or, a, b->b);
        }
        if (a->kind == K_And) {
          if (mkNot(a->b) == b) return mkBin(K_Or, b, a->a);
          if (mkNot(a->a) == b) return mkBin(K_Or, b, a->b);
        }
      }
      if (segmentable(a) && segmentable(b))
        if (Expr* r = bySegments(k, a, b)) return r;
      // or with (disjoint) low part:  concat(x,0s) | zext(y)
      break;
    case K_Xor:
      if (a == b) return mkConst(0, w);
      if (isZero(b)) return a;
      if (b->isConst() && a->kind == K_Xor && a->b->isConst())
        return mkBin(K_Xor, a->a, mkConst(a->b->imm ^ b->imm, w));
      if (w == 1 && isAllOnes(b)) {
        // not(ult(a,b)) -> ule(b,a)
        if (a->kind == K_Ult) return mkCmp(K_Ule, a->b, a->a);
        if (a->kind == K_Ule) return mkCmp(K_Ult, a->b, a->a);
        if (a->kind == K_Slt) return mkCmp(K_Sle, a->b, a->a);
        if (a->kind == K_Sle) return mkCmp(K_Slt, a->b, a->a);
      }
      if (segmentable(a) && segmentable(b))
        if (Expr* r = bySegments(k, a, b)) return r;
      break;
    case K_Shl:
      if (isZero(a)) return a;
      if (b->isConst()) {
        if (b->imm >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->imm;
        if (s == 0) return a;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      break;
    case K_LShr:
      if (isZero(a)) return a;
      if (b->isConst()) {
        if (b->imm >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->imm;
        if (s == 0) return a;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      break;
    case K_AShr:
      if (isZero(a)) return a;
      if (b->isConst()) {
        unsigned s = b->imm >= w ? w - 1 : (unsigned)b->imm;
        if (s == 0) return a;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    default:
      break;
  }
  return intern(k, w, a, b);
}

static bool hasBigIte(Expr* e) {
  return e->kind == K_Ite;
}

Expr* mkCmp(Kind k, Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst())
    return mkConst(evalBin(k, a->imm, b->imm, w), 1);
  if (a == b) return mkConst(k == K_Eq || k == K_Ule || k == K_Sle, 1);
  if (k == K_Eq) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    if (w <= 64 && (a->umax < b->umin || b->umax < a->umin))
      return mkConst(0, 1);
    if (w == 1 && b->isConst()) return b->imm ? a : mkNot(a);
    if (b->isConst()) {
      switch (a->kind) {
        case K_ZExt:
          if (b->imm > maskw(a->a->width)) return mkConst(0, 1);
          return mkCmp(K_Eq, a->a, mkConst(b->imm, a->a->width));
        case K_SExt: {
          u128 t = b->imm & maskw(a->a->width);
          if (((u128)sext128(t, a->a->width) & maskw(w)) != b->imm)
            return mkConst(0, 1);
          return mkCmp(K_Eq, a->a, mkConst(t, a->a->width));
        }
        case K_Concat:
          return mkBin(
              K_And,
              mkCmp(K_Eq, a->a, mkConst(b->imm >> a->b->width, a->a->width)),
              mkCmp(K_Eq, a->b, mkConst(b->imm, a->b->width)));
        case K_Add:
          if (a->b->isConst())
            return mkCmp(K_Eq, a->a, mkConst(b->imm - a->b->imm, w));
          break;
        case K_Sub:
          if (b->imm == 0) return mkCmp(K_Eq, a->a, a->b);
          break;
        case K_Xor:
          if (a->b->isConst())
            return mkCmp(K_Eq, a->a, mkConst(b->imm ^ a->b->imm, w));
          if (b->imm == 0) return mkCmp(K_Eq, a->a, a->b);
          break;
        case K_Or:
          if (b->imm == 0)
            return mkBin(K_And, mkCmp(K_Eq, a->a, b), mkCmp(K_Eq, a->b, b));
          break;
        case K_Ite:
          if (a->b->isConst() || a->c->isConst()) {
            return mkIte(a->a, mkCmp(K_Eq, a->b, b), mkCmp(K_Eq, a->c, b));
          }
          break;
        default:
          break;
      }
    } else {
      if (a->kind == K_ZExt && b->kind == K_ZExt &&
          a->a->width == b->a->width)
        return mkCmp(K_Eq, a->a, b->a);
      if (a->kind == K_SExt && b->kind == K_SExt &&
          a->a->width == b->a->width)
        return mkCmp(K_Eq, a->a, b->a);
      if (a->kind == K_Add && b->kind == K_Add) {
        if (a->a == b->a) return mkCmp(K_Eq, a->b, b->b);
        if (a->b == b->b) return mkCmp(K_Eq, a->a, b->a);
      }
      // same split points
      if (a->kind == K_Concat && b->kind == K_Concat &&
          a->a->width == b->a->width)
        return mkBin(K_And, mkCmp(K_Eq, a->a, b->a), mkCmp(K_Eq, a->b, b->b));
      if (a->kind == K_Ite && b->kind == K_Ite && a->a == b->a)
        return mkIte(a->a, mkCmp(K_Eq, a->b, b->b), mkCmp(K_Eq, a->c, b->c));
    }
    return intern(K_Eq, 1, a, b);
  }
  if (w <= 64) {
    if (k == K_Slt || k == K_Sle) {
      uint64_t half = mask64(w) >> 1;
      bool ap = a->umax <= half, bp = b->umax <= half;
      bool an = a->umin > half, bn = b->umin > half;
      if ((ap && bp) || (an && bn)) return mkCmp(k == K_Slt ? K_Ult : K_Ule, a, b);
      if (ap && bn) return mkConst(0, 1);
      if (an && bp) return mkConst(1, 1);
    } else if (k == K_Ult) {
      if (a->umax < b->umin) return mkConst(1, 1);
      if (a->umin >= b->umax) return mkConst(0, 1);
    } else if (k == K_Ule) {
      if (a->umax <= b->umin) return mkConst(1, 1);
      if (a->umin > b->umax) return mkConst(0, 1);
    }
  }
  if (k == K_Ult || k == K_Ule) {
    if (a->kind == K_ZExt && b->kind == K_ZExt && a->a->width == b->a->width)
      return mkCmp(k, a->a, b->a);
    if (a->kind == K_ZExt && b->isConst() && b->imm <= maskw(a->a->width))
      return mkCmp(k, a->a, mkConst(b->imm, a->a->width));
    if (b->kind == K_ZExt && a->isConst() && a->imm <= maskw(b->a->width))
      return mkCmp(k, mkConst(a->imm, b->a->width), b->a);
    if (k == K_Ult && isZero(a)) return mkNot(mkCmp(K_Eq, b, a));
    if (k == K_Ult && b->isConst() && b->imm == 1)
      return mkCmp(K_Eq, a, mkConst(0, w));
    if (k == K_Ule && isZero(b)) return mkCmp(K_Eq, a, b);
    if (k == K_Ule && isAllOnes(a)) return mkCmp(K_Eq, a, b);
  } else {
    if (a->kind == K_SExt && b->kind == K_SExt && a->a->width == b->a->width)
      return mkCmp(k, a->a, b->a);
    if (a->kind == K_SExt && b->isConst()) {
      u128 t = b->imm & maskw(a->a->width);
      if (((u128)sext128(t, a->a->width) & maskw(w)) == b->imm)
        return mkCmp(k, a->a, mkConst(t, a->a->width));
    }
    if (b->kind == K_SExt && a->isConst()) {
      u128 t = a->imm & maskw(b->a->width);
      if (((u128)sext128(t, b->a->width) & maskw(w)) == a->imm)
        return mkCmp(k, mkConst(t, b->a->width), b->a);
    }
  }
  if (hasBigIte(a) && b->isConst() && (a->b->isConst() && a->c->isConst()))
    return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (hasBigIte(b) && a->isConst() && (b->b->isConst() && b->c->isConst()))
    return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return intern(k, 1, a, b);
}

Expr* mkFBin(Kind k, Expr* a, Expr* b) {
  if (a->isConst() && b->isConst())
    return mkConst(evalBin(k, a->imm, b->imm, a->width), a->width);
  if ((k == K_FAdd || k == K_FMul) && (a->isConst() || (!b->isConst() && a->id > b->id)))
    std::swap(a, b);  // commutative in IEEE (up to NaN payload)
  if (gRealMode) {
    double one = 1.0;
    if (b->isConst()) {
      double d = b->width == 32 ? f32(b->imm) : f64(b->imm);
      if ((k == K_FMul || k == K_FDiv) && d == one) return a;
      if (k == K_FMul && d == 0) return mkConst(0, a->width);
      if ((k == K_FAdd || k == K_FSub) && d == 0) return a;
    }
    if (k == K_FSub && a == b) return mkConst(0, a->width);
  } else if (b->isConst() && k == K_FMul) {
    double d = b->width == 32 ? f32(b->imm) : f64(b->imm);
    if (d == 1.0) return a;
  }
  return intern(k, a->width, a, b);
}
Expr* mkFCmp(Kind k, Expr* a, Expr* b) {
  if (a->isConst() && b->isConst())
    return mkConst(evalBin(k, a->imm, b->imm, a->width), 1);
  if (gRealMode) {
    if (k == K_FUno) {
      auto nan = [](Expr* e) {
        return e->isConst() && (e->width == 32 ? std::isnan(f32(e->imm))
                                               : std::isnan(f64(e->imm)));
      };
      return mkConst(nan(a) || nan(b), 1);
    }
    if (a == b) return mkConst(k != K_FLt, 1);
  }
  if (k == K_FUno) {
    auto num = [](Expr* e) {
      return e->isConst() && !(e->width == 32 ? std::isnan(f32(e->imm))
                                              : std::isnan(f64(e->imm)));
    };
    if (a->kind == K_SToF || a->kind == K_UToF)
      if (num(b) || b == a) return mkConst(0, 1);
  }
  if ((k == K_FEq || k == K_FUno) &&
      (a->isConst() || (!b->isConst() && a->id > b->id)))
    std::swap(a, b);
  return intern(k, 1, a, b);
}
Expr* mkFUn(Kind k, Expr* a, unsigned w, unsigned imm) {
  if (a->isConst()) return mkConst(evalFUn(k, a->imm, a->width, w, imm), w);
  if (!gRealMode) {
    if (k == K_FNeg) {
      return mkConcat(mkNot(mkExtract(a, w - 1, 1)), mkExtract(a, 0, w - 1));
    }
    if (k == K_FAbs) return mkZExt(mkExtract(a, 0, w - 1), w);
  } else {
    if (k == K_FNeg && a->kind == K_FNeg) return a->a;
  }
  return intern(k, w, a, nullptr, nullptr, imm);
}
Expr* mkFFma(Expr* a, Expr* b, Expr* c) {
  if (a->isConst() && b->isConst() && c->isConst()) {
    Model m;
    Expr* e = intern(K_FFma, a->width, a, b, c);
    return mkConst(evalExpr(e, m), a->width);
  }
  return intern(K_FFma, a->width, a, b, c);
}

static uint32_t gVisit = 0;
static void collect(Expr* e, std::vector<uint32_t>& out) {
  if (e->visit == gVisit || e->kind == K_Const) return;
  e->visit = gVisit;
  if (e->kind == K_Var) {
    out.push_back((uint32_t)e->imm);
    return;
  }
  if (e->vars) {
    out.insert(out.end(), e->vars->begin(), e->vars->end());
    return;
  }
  if (e->a) collect(e->a, out);
  if (e->b) collect(e->b, out);
  if (e->c) collect(e->c, out);
}
const std::vector<uint32_t>& exprVars(Expr* e) {
  if (!e->vars) {
    auto* v = new std::vector<uint32_t>;
    gVisit++;
    collect(e, *v);
    std::sort(v->begin(), v->end());
    v->erase(std::unique(v->begin(), v->end()), v->end());
    e->vars = v;
  }
  return *e->vars;
}

std::string exprStr(Expr* e, int depth) {
  static const char* names[] = {
      "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem",
      "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext",
      "sext", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul",
      "fdiv", "fneg", "fabs", "fsqrt", "fround", "feq", "flt", "fle", "funo",
      "fext", "ftrunc", "stof", "utof", "ftos", "ftou", "ffma"};
  char buf[80];
  if (e->isConst()) {
    if (e->imm >> 64)
      snprintf(buf, sizeof buf, "0x%llx%016llx:%d",
               (unsigned long long)(e->imm >> 64), (unsigned long long)e->imm,
               e->width);
    else
      snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long)e->imm,
               e->width);
    return buf;
  }
  if (e->kind == K_Var) return gVars[(size_t)e->imm].name;
  if (depth == 0) return "...";
  std::string s = "(";
  s += names[e->kind];
  snprintf(buf, sizeof buf, ":%d", e->width);
  s += buf;
  if (e->kind == K_Extract || e->kind == K_FRound) {
    snprintf(buf, sizeof buf, "@%u", (unsigned)e->imm);
    s += buf;
  }
  for (Expr* x : {e->a, e->b, e->c})
    if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
