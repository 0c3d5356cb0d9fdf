#include "solver.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <unordered_map>
#include <z3.h>

SolverStats g_sstats;
static Z3_context C;
static unsigned g_rlimit;
static std::unordered_map<Expr *, Z3_ast> bvMap, fpMap, fixMap;
static bool usedFP;
static std::unordered_map<Expr *, bool> fpFlag; // lowering of e involves FP theory

static Z3_sort bvs(int w) { return Z3_mk_bv_sort(C, w); }
static Z3_sort fps(int w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast num(uint64_t v, int w) { return Z3_mk_unsigned_int64(C, v, bvs(w)); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }

static void err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

void solverInit(unsigned rlimit) {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, err);
  Z3_del_config(cfg);
  g_rlimit = rlimit;
}

static Z3_ast lowerBV(Expr *e);
static Z3_ast lowerN(Expr *e);
static Z3_ast lowerFP(Expr *e, int w);
static Z3_ast lowerFixOwn(Expr *e, int w);

static Z3_ast toBool(Z3_ast bv1) { return Z3_mk_eq(C, bv1, num(1, 1)); }
static Z3_ast fromBool(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }

static std::unordered_map<Expr *, Z3_ast> boolMap;
static Z3_ast lowerBool(Expr *e);

// Fixed-point views are lowered to bit-vectors just wide enough for their range
// (rounded up to a few width classes so that equal sums normalise alike).
static int sbits(int64_t lo, int64_t hi) {
  int b = 1;
  while (b < 64 && (lo < -(1ll << (b - 1)) || hi > (1ll << (b - 1)) - 1)) b++;
  return b;
}
static int classOf(int b) {
  for (int c : {8, 12, 16, 24, 32, 48}) if (b <= c) return c;
  return 64;
}
static int fixW(const Fix &f) { return classOf(sbits(f.lo, f.hi)); }
static Z3_ast resz(Z3_ast a, int to) {
  int from = Z3_get_bv_sort_size(C, Z3_get_sort(C, a));
  if (from == to) return a;
  return from < to ? Z3_mk_sign_ext(C, to - from, a) : Z3_mk_extract(C, to - 1, 0, a);
}
static Z3_ast shlW(Z3_ast a, int s, int W) {
  a = resz(a, W);
  if (s == 0) return a;
  return Z3_mk_bvmul(C, a, num((1ull << s) & maskw(W), W));
}
// value of e scaled to 2^-g, as a W-bit vector (caller guarantees it fits)
static Z3_ast lowerFix(Expr *e, int w, int g, int W) {
  Fix f = fixOf(e, w);
  return shlW(lowerFixOwn(e, w), g - f.g, W);
}
static Z3_ast divTree(Z3_ast n, Expr *d, int w, int mx, int W) {
  if (isConst(d)) {
    double v;
    if (w == 32) { float f; uint32_t b = (uint32_t)d->c; memcpy(&f, &b, 4); v = f; } else memcpy(&v, &d->c, 8);
    int ex; double m = __builtin_frexp(v, &ex);
    Z3_ast r = shlW(n, mx - (ex - 1), W);
    return m < 0 ? Z3_mk_bvneg(C, r) : r;
  }
  return Z3_mk_ite(C, lowerBool(d->k[0]), divTree(n, d->k[1], w, mx, W), divTree(n, d->k[2], w, mx, W));
}
static Z3_ast lowerFixOwn(Expr *e, int w) {
  auto it = fixMap.find(e);
  if (it != fixMap.end() && !isConst(e)) return it->second;
  Fix f = fixOf(e, w);
  int W = fixW(f);
  Z3_ast r;
  switch (e->op) {
  case Op::Const: return num((uint64_t)f.lo & maskw(W), W);
  case Op::FAdd: r = Z3_mk_bvadd(C, lowerFix(e->k[0], w, f.g, W), lowerFix(e->k[1], w, f.g, W)); break;
  case Op::FSub: r = Z3_mk_bvsub(C, lowerFix(e->k[0], w, f.g, W), lowerFix(e->k[1], w, f.g, W)); break;
  case Op::FMul: r = Z3_mk_bvmul(C, resz(lowerFixOwn(e->k[0], w), W), resz(lowerFixOwn(e->k[1], w), W)); break;
  case Op::FDiv: r = divTree(lowerFixOwn(e->k[0], w), e->k[1], w, f.g - fixOf(e->k[0], w).g, W); break;
  case Op::FNeg: r = Z3_mk_bvneg(C, resz(lowerFixOwn(e->k[0], w), W)); break;
  case Op::FAbs: {
    Z3_ast x = lowerFixOwn(e->k[0], w);
    int X = Z3_get_bv_sort_size(C, Z3_get_sort(C, x));
    Z3_ast neg = Z3_mk_bvslt(C, x, num(0, X));
    x = resz(x, W);
    r = Z3_mk_ite(C, neg, Z3_mk_bvneg(C, x), x);
    break;
  }
  case Op::SIToFP: r = resz(lowerBV(e->k[0]), W); break;
  case Op::UIToFP: {
    Z3_ast x = lowerBV(e->k[0]);
    r = e->k[0]->w < W ? Z3_mk_zero_ext(C, W - e->k[0]->w, x) : resz(x, W);
    break;
  }
  case Op::FPExt: r = resz(lowerFixOwn(e->k[0], 32), W); break;
  case Op::FPTrunc: r = resz(lowerFixOwn(e->k[0], 64), W); break;
  case Op::Ite: r = Z3_mk_ite(C, lowerBool(e->k[0]), lowerFix(e->k[1], w, f.g, W), lowerFix(e->k[2], w, f.g, W)); break;
  default: abort();
  }
  keep(r);
  fixMap[e] = r;
  return r;
}

static bool fixCmpOk(Expr *a, Expr *b, int w) {
  Fix x = fixOf(a, w), y = fixOf(b, w);
  if (!x.ok || !y.ok) return false;
  int g = std::max(x.g, y.g);
  auto bits = [](const Fix &f) { uint64_t m = std::max<uint64_t>(f.lo < 0 ? -(uint64_t)f.lo : f.lo, f.hi < 0 ? -(uint64_t)f.hi : f.hi); int b = 0; while (m) { b++; m >>= 1; } return b; };
  return bits(x) + (g - x.g) < 62 && bits(y) + (g - y.g) < 62;
}

static Z3_ast lowerFP(Expr *e, int w) {
  auto it = fpMap.find(e);
  if (it != fpMap.end()) { usedFP = true; return it->second; }
  usedFP = true;
  Z3_ast rm = Z3_mk_fpa_rne(C);
  Z3_ast r;
  switch (e->op) {
  case Op::FAdd: r = Z3_mk_fpa_add(C, rm, lowerFP(e->k[0], w), lowerFP(e->k[1], w)); break;
  case Op::FSub: r = Z3_mk_fpa_sub(C, rm, lowerFP(e->k[0], w), lowerFP(e->k[1], w)); break;
  case Op::FMul: r = Z3_mk_fpa_mul(C, rm, lowerFP(e->k[0], w), lowerFP(e->k[1], w)); break;
  case Op::FDiv: r = Z3_mk_fpa_div(C, rm, lowerFP(e->k[0], w), lowerFP(e->k[1], w)); break;
  case Op::FNeg: r = Z3_mk_fpa_neg(C, lowerFP(e->k[0], w)); break;
  case Op::FAbs: r = Z3_mk_fpa_abs(C, lowerFP(e->k[0], w)); break;
  case Op::FSqrt: r = Z3_mk_fpa_sqrt(C, rm, lowerFP(e->k[0], w)); break;
  case Op::SIToFP: r = Z3_mk_fpa_to_fp_signed(C, rm, lowerBV(e->k[0]), fps(w)); break;
  case Op::UIToFP: r = Z3_mk_fpa_to_fp_unsigned(C, rm, lowerBV(e->k[0]), fps(w)); break;
  case Op::FPExt: r = Z3_mk_fpa_to_fp_float(C, rm, lowerFP(e->k[0], 32), fps(64)); break;
  case Op::FPTrunc: r = Z3_mk_fpa_to_fp_float(C, rm, lowerFP(e->k[0], 64), fps(32)); break;
  case Op::Ite: r = Z3_mk_ite(C, lowerBool(e->k[0]), lowerFP(e->k[1], w), lowerFP(e->k[2], w)); break;
  default: r = Z3_mk_fpa_to_fp_bv(C, lowerBV(e), fps(w));
  }
  keep(r);
  fpMap[e] = r;
  return r;
}

// Comparison at the narrowest width both sides fit in (sign extension keeps
// the signed and the unsigned order).
static Z3_ast cmpN(Op op, Expr *a, Expr *b) {
  int W = std::min<int>(a->w, classOf(std::max(sbits(a->lo, a->hi), sbits(b->lo, b->hi))));
  Z3_ast x = resz(lowerN(a), W), y = resz(lowerN(b), W);
  switch (op) {
  case Op::Eq: return Z3_mk_eq(C, x, y);
  case Op::Ult: return Z3_mk_bvult(C, x, y);
  case Op::Ule: return Z3_mk_bvule(C, x, y);
  case Op::Slt: return Z3_mk_bvslt(C, x, y);
  default: return Z3_mk_bvsle(C, x, y);
  }
}
// a floating-point value given by its bit pattern: no arithmetic on the way
static bool bitwise(Expr *e, int depth = 0) {
  if (depth > 64) return false;
  if (e->op == Op::Ite) return bitwise(e->k[1], depth + 1) && bitwise(e->k[2], depth + 1);
  if (e->op == Op::FNeg || e->op == Op::FAbs) return bitwise(e->k[0], depth + 1);
  return !isFPNode(e->op);
}
static Z3_ast nanBits(Z3_ast x, int w) {
  uint64_t inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
  return Z3_mk_bvugt(C, Z3_mk_bvand(C, x, num(maskw(w) >> 1, w)), num(inf, w));
}
// IEEE comparison of two bit patterns
static Z3_ast cmpBits(Op op, Z3_ast x, Z3_ast y, int w) {
  Z3_ast z = num(0, w), nn[2] = {nanBits(x, w), nanBits(y, w)};
  Z3_ast zero = Z3_mk_eq(C, Z3_mk_bvand(C, Z3_mk_bvor(C, x, y), num(maskw(w) >> 1, w)), z);
  Z3_ast sx = Z3_mk_bvslt(C, x, z), sy = Z3_mk_bvslt(C, y, z);
  Z3_ast eq[2] = {Z3_mk_eq(C, x, y), zero};
  Z3_ast lt = Z3_mk_ite(C, sx, Z3_mk_ite(C, sy, Z3_mk_bvult(C, y, x), Z3_mk_true(C)), Z3_mk_ite(C, sy, Z3_mk_false(C), Z3_mk_bvult(C, x, y)));
  Z3_ast lz[2] = {lt, Z3_mk_not(C, zero)};
  Z3_ast e = Z3_mk_or(C, 2, eq), l = Z3_mk_and(C, 2, lz), el[2] = {e, l};
  Z3_ast r = op == Op::FOeq ? e : op == Op::FOlt ? l : Z3_mk_or(C, 2, el);
  Z3_ast a[2] = {Z3_mk_not(C, Z3_mk_or(C, 2, nn)), r};
  return Z3_mk_and(C, 2, a);
}
static Z3_ast lowerBool(Expr *e) {
  auto it = boolMap.find(e);
  if (it != boolMap.end()) { if (fpFlag.count(e)) usedFP = true; return it->second; }
  bool saved = usedFP; usedFP = false;
  Z3_ast r;
  switch (e->op) {
  case Op::Const: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case Op::Eq:
    if (e->k[0]->w == 1) {
      if (isFalse(e->k[1])) r = Z3_mk_not(C, lowerBool(e->k[0]));
      else r = Z3_mk_iff(C, lowerBool(e->k[0]), lowerBool(e->k[1]));
    } else r = cmpN(e->op, e->k[0], e->k[1]);
    break;
  case Op::UMulO: r = Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, lowerBV(e->k[0]), lowerBV(e->k[1]), false)); break;
  case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: r = cmpN(e->op, e->k[0], e->k[1]); break;
  case Op::And: { Z3_ast a[2] = {lowerBool(e->k[0]), lowerBool(e->k[1])}; r = Z3_mk_and(C, 2, a); break; }
  case Op::Or: { Z3_ast a[2] = {lowerBool(e->k[0]), lowerBool(e->k[1])}; r = Z3_mk_or(C, 2, a); break; }
  case Op::Xor: r = Z3_mk_xor(C, lowerBool(e->k[0]), lowerBool(e->k[1])); break;
  case Op::Ite: r = Z3_mk_ite(C, lowerBool(e->k[0]), lowerBool(e->k[1]), lowerBool(e->k[2])); break;
  case Op::FOeq: case Op::FOlt: case Op::FOle: {
    Expr *a = e->k[0], *b = e->k[1];
    int w = a->w;
    if (fixCmpOk(a, b, w)) {
      Fix fa = fixOf(a, w), fb = fixOf(b, w);
      int g = std::max(fa.g, fb.g);
      int W = classOf(std::max(sbits(fa.lo, fa.hi) + g - fa.g, sbits(fb.lo, fb.hi) + g - fb.g));
      Z3_ast x = lowerFix(a, w, g, W), y = lowerFix(b, w, g, W);
      r = e->op == Op::FOeq ? Z3_mk_eq(C, x, y) : e->op == Op::FOlt ? Z3_mk_bvslt(C, x, y) : Z3_mk_bvsle(C, x, y);
    } else if (bitwise(a) && bitwise(b)) {
      r = cmpBits(e->op, lowerBV(a), lowerBV(b), w);
    } else {
      Z3_ast x = lowerFP(a, w), y = lowerFP(b, w);
      r = e->op == Op::FOeq ? Z3_mk_fpa_eq(C, x, y) : e->op == Op::FOlt ? Z3_mk_fpa_lt(C, x, y) : Z3_mk_fpa_leq(C, x, y);
    }
    break;
  }
  case Op::FUno: {
    if (bitwise(e->k[0]) && bitwise(e->k[1])) {
      Z3_ast b[2] = {nanBits(lowerBV(e->k[0]), e->k[0]->w), nanBits(lowerBV(e->k[1]), e->k[0]->w)};
      r = Z3_mk_or(C, 2, b);
      break;
    }
    Z3_ast a[2] = {Z3_mk_fpa_is_nan(C, lowerFP(e->k[0], e->k[0]->w)), Z3_mk_fpa_is_nan(C, lowerFP(e->k[1], e->k[1]->w))};
    r = Z3_mk_or(C, 2, a);
    break;
  }
  default: r = toBool(lowerBV(e));
  }
  keep(r);
  boolMap[e] = r;
  if (usedFP) fpFlag[e] = true;
  usedFP |= saved;
  return r;
}

static int narrowW(Expr *e) { return std::min<int>(e->w, classOf(sbits(e->lo, e->hi))); }
static std::unordered_map<Expr *, Z3_ast> nMap;
// e as a bit-vector of narrowW(e) bits whose sign extension is e
static Z3_ast lowerN(Expr *e) {
  int W = narrowW(e);
  if (W >= e->w) return lowerBV(e);
  auto it = nMap.find(e);
  if (it != nMap.end()) { if (fpFlag.count(e)) usedFP = true; return it->second; }
  bool saved = usedFP; usedFP = false;
  Expr *a = e->k[0], *b = e->k[1];
  Z3_ast r;
  switch (e->op) {
  case Op::Const: r = num(e->c & maskw(W), W); break;
  case Op::Add: r = Z3_mk_bvadd(C, resz(lowerN(a), W), resz(lowerN(b), W)); break;
  case Op::Sub: r = Z3_mk_bvsub(C, resz(lowerN(a), W), resz(lowerN(b), W)); break;
  case Op::Mul: r = Z3_mk_bvmul(C, resz(lowerN(a), W), resz(lowerN(b), W)); break;
  case Op::SExt: r = resz(lowerN(a), W); break;
  case Op::Extract: r = e->aux ? Z3_mk_extract(C, e->aux + W - 1, e->aux, lowerBV(a)) : resz(lowerN(a), W); break;
  case Op::ZExt:
    if (a->lo >= 0) r = resz(lowerN(a), W);
    else r = W > a->w ? Z3_mk_zero_ext(C, W - a->w, lowerBV(a)) : resz(lowerBV(a), W);
    break;
  case Op::Ite: r = Z3_mk_ite(C, lowerBool(a), resz(lowerN(b), W), resz(lowerN(e->k[2]), W)); break;
  case Op::SDiv: case Op::SRem: case Op::UDiv: case Op::URem: {
    // x/0 and x%0 sign-extend to the wide result, so a zero divisor is fine
    bool uns = e->op == Op::UDiv || e->op == Op::URem;
    int nb = std::min<int>(e->w, 1 + std::max(sbits(a->lo, a->hi), sbits(b->lo, b->hi)));
    if (uns && (a->lo < 0 || b->lo < 0)) nb = e->w;
    Z3_ast x = resz(lowerN(a), nb), y = resz(lowerN(b), nb);
    r = e->op == Op::SDiv ? Z3_mk_bvsdiv(C, x, y) : e->op == Op::SRem ? Z3_mk_bvsrem(C, x, y)
        : e->op == Op::UDiv ? Z3_mk_bvudiv(C, x, y) : Z3_mk_bvurem(C, x, y);
    r = resz(r, W);
    break;
  }
  default: r = resz(lowerBV(e), W);
  }
  keep(r);
  nMap[e] = r;
  if (usedFP) fpFlag[e] = true;
  usedFP |= saved;
  return r;
}

static Z3_ast lowerBV(Expr *e) {
  auto it = bvMap.find(e);
  if (it != bvMap.end()) { if (fpFlag.count(e)) usedFP = true; return it->second; }
  bool saved = usedFP; usedFP = false;
  Z3_ast r;
  bool viaN = false;
  switch (e->op) {
  case Op::Add: case Op::Sub: case Op::Mul: case Op::SExt: case Op::ZExt: case Op::Ite: case Op::SDiv: case Op::SRem: case Op::UDiv: case Op::URem:
    viaN = narrowW(e) < e->w; break;
  case Op::Extract: viaN = e->aux == 0 && narrowW(e) < e->w; break;
  default: break;
  }
  if (viaN) r = resz(lowerN(e), e->w);
  else switch (e->op) {
  case Op::Const: r = num(e->c, e->w); break;
  case Op::Sym: {
    Z3_symbol s = Z3_mk_string_symbol(C, ("s" + std::to_string(e->c)).c_str());
    r = Z3_mk_const(C, s, bvs(e->w));
    break;
  }
#define B(OP, F) case Op::OP: r = F(C, lowerBV(e->k[0]), lowerBV(e->k[1])); break;
  B(Mul, Z3_mk_bvmul) B(UDiv, Z3_mk_bvudiv) B(URem, Z3_mk_bvurem)
  case Op::SDiv: case Op::SRem: {
    Expr *a = e->k[0], *b = e->k[1];
    int nb = std::min<int>(e->w, 1 + std::max(sbits(a->lo, a->hi), sbits(b->lo, b->hi)));
    Z3_ast x = resz(lowerN(a), nb), y = resz(lowerN(b), nb);
    r = resz(e->op == Op::SDiv ? Z3_mk_bvsdiv(C, x, y) : Z3_mk_bvsrem(C, x, y), e->w);
    break;
  }
  B(Add, Z3_mk_bvadd) B(Sub, Z3_mk_bvsub) B(Shl, Z3_mk_bvshl)
  B(LShr, Z3_mk_bvlshr) B(AShr, Z3_mk_bvashr) B(Concat, Z3_mk_concat)
#undef B
  case Op::And: r = e->w == 1 ? fromBool(lowerBool(e)) : Z3_mk_bvand(C, lowerBV(e->k[0]), lowerBV(e->k[1])); break;
  case Op::Or: r = e->w == 1 ? fromBool(lowerBool(e)) : Z3_mk_bvor(C, lowerBV(e->k[0]), lowerBV(e->k[1])); break;
  case Op::Xor: r = e->w == 1 ? fromBool(lowerBool(e)) : Z3_mk_bvxor(C, lowerBV(e->k[0]), lowerBV(e->k[1])); break;
  case Op::Extract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, lowerBV(e->k[0])); break;
  case Op::ZExt: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, lowerBV(e->k[0])); break;
  case Op::SExt: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, lowerBV(e->k[0])); break;
  case Op::Ite: r = Z3_mk_ite(C, lowerBool(e->k[0]), lowerBV(e->k[1]), lowerBV(e->k[2])); break;
  case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::UMulO:
  case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: r = fromBool(lowerBool(e)); break;
  case Op::FPToSI: {
    Fix f = fixOf(e->k[0], e->k[0]->w);
    int w = e->w;
    bool inr = false;
    if (f.ok && f.g >= 0 && f.g < 60) {
      int64_t d = 1ll << f.g, lo = f.lo / d, hi = f.hi / d;
      inr = w == 64 || (lo >= -(1ll << (w - 1)) && hi < (1ll << (w - 1)));
    }
    if (inr) {
      Z3_ast x = resz(lowerFixOwn(e->k[0], e->k[0]->w), 64);
      if (f.g) x = Z3_mk_bvsdiv(C, x, num(1ull << f.g, 64));
      r = resz(x, w);
    } else
      r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), lowerFP(e->k[0], e->k[0]->w), w);
    break;
  }
  case Op::FNeg: r = Z3_mk_bvxor(C, lowerBV(e->k[0]), num(1ull << (e->w - 1), e->w)); break;
  case Op::FAbs: r = Z3_mk_bvand(C, lowerBV(e->k[0]), num(maskw(e->w) >> 1, e->w)); break;
  case Op::FPToUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), lowerFP(e->k[0], e->k[0]->w), e->w); break;
  default: // FP value as bits
    r = Z3_mk_fpa_to_ieee_bv(C, lowerFP(e, e->w));
  }
  keep(r);
  bvMap[e] = r;
  if (usedFP) fpFlag[e] = true;
  usedFP |= saved;
  return r;
}

static void addRanges(const std::vector<Expr *> &cs, std::vector<Z3_ast> &as, std::set<uint32_t> &ss) {
  for (auto *c : cs) for (auto s : symsOf(c)) ss.insert(s);
  for (auto s : ss) {
    auto &sy = g_syms[s];
    int64_t flo = sy.w >= 64 ? INT64_MIN : -(1ll << (sy.w - 1)), fhi = sy.w >= 64 ? INT64_MAX : (1ll << (sy.w - 1)) - 1;
    Z3_ast v = lowerBV(sy.e);
    if (sy.lo > flo) as.push_back(Z3_mk_bvsge(C, v, num((uint64_t)sy.lo & maskw(sy.w), sy.w)));
    if (sy.hi < fhi) as.push_back(Z3_mk_bvsle(C, v, num((uint64_t)sy.hi & maskw(sy.w), sy.w)));
  }
}


Res solve(const std::vector<Expr *> &cs, Model &m) {
  auto t0 = std::chrono::steady_clock::now();
  g_sstats.queries++;
  usedFP = false;
  std::vector<Z3_ast> as;
  std::set<uint32_t> ss;
  addRanges(cs, as, ss);
  for (auto *c : cs) as.push_back(lowerBool(c));
  bool fp = usedFP;
  if (fp) g_sstats.fpq++;
  // incremental core first (cheap on the many easy queries), then the tactic
  // solver for the logic if that gives up within its share of the budget
  Z3_solver S = nullptr;
  Z3_params P = Z3_mk_params(C);
  Z3_params_inc_ref(C, P);
  Res res = Res::Unknown;
  for (int round = fp ? 1 : 0; round < 2 && res == Res::Unknown; ++round) {
    if (S) Z3_solver_dec_ref(C, S);
    S = round == 0 ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(C, S);
    static const unsigned r0 = 100000; unsigned rl = round == 0 ? (g_rlimit ? std::min(g_rlimit, r0) : r0) : g_rlimit;
    if (rl || round) Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "rlimit"), rl);
    Z3_solver_set_params(C, S, P);
    for (auto a : as) Z3_solver_assert(C, S, a);
    Z3_lbool r = Z3_solver_check(C, S);
    res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  }
  if (res == Res::Sat) {
    Z3_model mo = Z3_solver_get_model(C, S);
    Z3_model_inc_ref(C, mo);
    if (m.v.size() < g_syms.size()) m.v.resize(g_syms.size(), 0);
    for (auto s : ss) {
      Z3_ast v;
      if (Z3_model_eval(C, mo, lowerBV(g_syms[s].e), true, &v)) {
        uint64_t x = 0;
        if (Z3_get_numeral_uint64(C, v, &x)) m.v[s] = x;
      }
    }
    Z3_model_dec_ref(C, mo);
  }
  Z3_params_dec_ref(C, P);
  Z3_solver_dec_ref(C, S);
  auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  g_sstats.usec += us;
  if (getenv("SYM_SLOWQ") && us > atoi(getenv("SYM_SLOWQ"))) {
    fprintf(stderr, "slow query %ld us res=%d ncs=%zu fp=%d last=%s\n", (long)us, (int)res, cs.size(), fp, show(cs.back(), 12).c_str());
    if (getenv("SYM_DUMPQ")) for (auto *c : cs) fprintf(stderr, "   %s\n", show(c, 20).c_str());
  }
  if (res == Res::Sat) g_sstats.sat++;
  else if (res == Res::Unsat) g_sstats.unsat++;
  else g_sstats.unknown++;
  return res;
}

Res dischargeCmp(Op op, Expr *a, Expr *b, bool v) {
  auto t0 = std::chrono::steady_clock::now();
  g_sstats.queries++;
  usedFP = false;
  std::vector<Z3_ast> as;
  std::set<uint32_t> ss;
  addRanges({a, b}, as, ss);
  int w = a->w;
  Z3_ast r;
  if (op == Op::FOeq || op == Op::FOlt || op == Op::FOle || op == Op::FUno) {
    if (op != Op::FUno && fixCmpOk(a, b, w)) {
      Fix fa = fixOf(a, w), fb = fixOf(b, w);
      int g = std::max(fa.g, fb.g);
      int W = classOf(std::max(sbits(fa.lo, fa.hi) + g - fa.g, sbits(fb.lo, fb.hi) + g - fb.g));
      Z3_ast x = lowerFix(a, w, g, W), y = lowerFix(b, w, g, W);
      r = op == Op::FOeq ? Z3_mk_eq(C, x, y) : op == Op::FOlt ? Z3_mk_bvslt(C, x, y) : Z3_mk_bvsle(C, x, y);
    } else { g_sstats.queries--; return Res::Unknown; }
  } else {
    r = cmpN(op, a, b);
  }
  if (v) r = Z3_mk_not(C, r);
  Z3_solver S = usedFP ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV")) : Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, S);
  Z3_params P = Z3_mk_params(C);
  Z3_params_inc_ref(C, P);
  Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "rlimit"), 2000000);
  Z3_solver_set_params(C, S, P);
  for (auto x : as) Z3_solver_assert(C, S, x);
  Z3_solver_assert(C, S, r);
  Z3_lbool q = Z3_solver_check(C, S);
  Z3_params_dec_ref(C, P);
  Z3_solver_dec_ref(C, S);
  Res res = q == Z3_L_TRUE ? Res::Sat : q == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  g_sstats.usec += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  if (res == Res::Sat) g_sstats.sat++;
  else if (res == Res::Unsat) g_sstats.unsat++;
  else g_sstats.unknown++;
  return res;
}

std::string toSMT2(const std::vector<Expr *> &cs) {
  std::vector<Z3_ast> as;
  std::set<uint32_t> ss;
  addRanges(cs, as, ss);
  for (auto *c : cs) as.push_back(lowerBool(c));
  Z3_solver S = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, S);
  for (auto a : as) Z3_solver_assert(C, S, a);
  std::string r = Z3_solver_to_string(C, S);
  Z3_solver_dec_ref(C, S);
  return r;
}
