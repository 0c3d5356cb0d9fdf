#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <unordered_map>
#include <unordered_set>

std::vector<Symbol> g_syms;
static uint32_t g_next_id = 1;

namespace {
struct H {
  size_t operator()(const Expr *e) const {
    uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911u + e->aux * 2654435761u;
    h ^= e->c + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    for (int i = 0; i < 3; i++) {
      uint64_t x = e->k[i] ? e->k[i]->id : 0;
      h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    }
    return h;
  }
};
struct EQ {
  bool operator()(const Expr *a, const Expr *b) const {
    return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c &&
           a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
  }
};
std::unordered_set<Expr *, H, EQ> table;
const std::vector<uint32_t> emptySyms;

typedef __int128 i128;
bool fitsS(i128 v, int w) {
  i128 m = (i128)1 << (w - 1);
  return v >= -m && v < m;
}
void fullRange(int w, int64_t &lo, int64_t &hi) {
  if (w >= 64) { lo = INT64_MIN; hi = INT64_MAX; }
  else { lo = -(1ll << (w - 1)); hi = (1ll << (w - 1)) - 1; }
}
int mant(int w) { return w == 32 ? 24 : 53; }
bool fixFits(i128 lo, i128 hi, int g, int w) {
  i128 m = (i128)1 << mant(w);
  if (lo < -m || hi > m) return false;
  if (g > 100 || g < -100) return false;
  return true;
}

void computeRange(Expr *e) {
  int w = e->w;
  fullRange(w, e->lo, e->hi);
  Expr *a = e->k[0], *b = e->k[1];
  auto setr = [&](i128 lo, i128 hi) {
    if (fitsS(lo, w) && fitsS(hi, w)) { e->lo = (int64_t)lo; e->hi = (int64_t)hi; }
  };
  switch (e->op) {
  case Op::Const: e->lo = e->hi = sextw(e->c, w); break;
  case Op::Add: setr((i128)a->lo + b->lo, (i128)a->hi + b->hi); break;
  case Op::Sub: setr((i128)a->lo - b->hi, (i128)a->hi - b->lo); break;
  case Op::Mul: {
    i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
    setr(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
    break;
  }
  case Op::ZExt:
    if (a->lo >= 0) { e->lo = a->lo; e->hi = a->hi; }
    else { e->lo = 0; e->hi = (int64_t)maskw(a->w); }
    break;
  case Op::SExt: e->lo = a->lo; e->hi = a->hi; break;
  case Op::Extract:
    if (e->aux == 0 && fitsS(a->lo, w) && fitsS(a->hi, w)) { e->lo = a->lo; e->hi = a->hi; }
    else if (e->aux > 0) {
      int64_t l = a->lo >> e->aux, h = a->hi >> e->aux;
      if (fitsS(l, w) && fitsS(h, w)) { e->lo = l; e->hi = h; }
    }
    break;
  case Op::Ite: e->lo = std::min(e->k[1]->lo, e->k[2]->lo); e->hi = std::max(e->k[1]->hi, e->k[2]->hi); break;
  case Op::And:
    if (b->op == Op::Const && sextw(b->c, w) >= 0) { e->lo = 0; e->hi = sextw(b->c, w); }
    break;
  case Op::Xor:
    if (b->op == Op::Const && b->c == maskw(w)) { e->lo = -1 - a->hi; e->hi = -1 - a->lo; }
    break;
  case Op::URem:
    if (b->op == Op::Const && sextw(b->c, w) > 0) { e->lo = 0; e->hi = sextw(b->c, w) - 1; }
    else if (a->lo >= 0) { e->lo = 0; e->hi = a->hi; } // x%0 is x; a divisor above the dividend leaves it
    break;
  case Op::UDiv:
    if (b->op == Op::Const && sextw(b->c, w) > 0 && a->lo >= 0) { e->lo = a->lo / (int64_t)b->c; e->hi = a->hi / (int64_t)b->c; }
    else if (a->lo >= 0) { e->lo = b->lo >= 1 ? 0 : -1; e->hi = a->hi; } // x/0 is all ones
    break;
  case Op::SDiv:
    if (b->op == Op::Const && sextw(b->c, w) > 0) { int64_t d = sextw(b->c, w); e->lo = a->lo / d; e->hi = a->hi / d; }
    else { i128 m = std::max<i128>(1, std::max(-(i128)a->lo, (i128)a->hi)); setr(-m, m); } // x/0 is +-1
    break;
  case Op::SRem:
    { i128 m = std::max(-(i128)a->lo, (i128)a->hi); setr(-m, m); }
    break;
  case Op::Shl:
    if (b->op == Op::Const && b->c < 62) setr((i128)a->lo << b->c, (i128)a->hi << b->c);
    break;
  case Op::LShr:
    if (b->op == Op::Const && b->c > 0 && b->c < (uint64_t)w) { e->lo = 0; e->hi = (int64_t)(maskw(w) >> b->c); if (a->lo >= 0) e->hi = a->hi >> b->c; }
    break;
  case Op::AShr:
    if (b->op == Op::Const && b->c < (uint64_t)w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; }
    break;
  case Op::Concat:
    if (a->op == Op::Const && a->c == 0) { e->lo = 0; e->hi = (int64_t)maskw(b->w); if (b->lo >= 0) { e->lo = b->lo; e->hi = b->hi; } }
    break;
  case Op::FPToSI: {
    Fix f = fixOf(a, a->w);
    if (f.ok && f.g >= 0 && f.g < 62) { int64_t d = 1ll << f.g; setr((i128)f.lo / d, (i128)f.hi / d); }
    break;
  }
  default: break;
  }
}

bool iteConstTree(Expr *e, int depth = 0) {
  if (isConst(e)) return true;
  return e->op == Op::Ite && depth < 12 && iteConstTree(e->k[1], depth + 1) && iteConstTree(e->k[2], depth + 1);
}
// range of exponents of an ITE tree of +-powers of two; ok=false otherwise
bool pow2Tree(Expr *e, int w, int &mn, int &mx) {
  if (isConst(e)) {
    double d;
    if (w == 32) { float f; uint32_t b = (uint32_t)e->c; memcpy(&f, &b, 4); d = f; }
    else memcpy(&d, &e->c, 8);
    if (d == 0 || std::isnan(d) || std::isinf(d)) return false;
    int ex; double m = std::frexp(d, &ex);
    if (std::fabs(m) != 0.5) return false;
    mn = mx = ex - 1;
    return true;
  }
  int a, b, c, d;
  if (!pow2Tree(e->k[1], w, a, b) || !pow2Tree(e->k[2], w, c, d)) return false;
  mn = std::min(a, c); mx = std::max(b, d);
  return true;
}

void computeFix(Expr *e) {
  int w = e->w;
  Expr *a = e->k[0], *b = e->k[1];
  auto align = [](const Fix &f, int g, i128 &lo, i128 &hi) -> bool {
    int s = g - f.g;
    if (s > 60) return false;
    lo = (i128)f.lo << s; hi = (i128)f.hi << s;
    return true;
  };
  auto set = [&](i128 lo, i128 hi, int g) {
    if (fixFits(lo, hi, g, w)) { e->fx.ok = true; e->fx.g = g; e->fx.lo = (int64_t)lo; e->fx.hi = (int64_t)hi; }
  };
  switch (e->op) {
  case Op::FAdd: case Op::FSub: {
    Fix x = fixOf(a, w), y = fixOf(b, w);
    if (!x.ok || !y.ok) return;
    int g = std::max(x.g, y.g);
    i128 xl, xh, yl, yh;
    if (!align(x, g, xl, xh) || !align(y, g, yl, yh)) return;
    if (e->op == Op::FAdd) set(xl + yl, xh + yh, g); else set(xl - yh, xh - yl, g);
    return;
  }
  case Op::FMul: {
    Fix x = fixOf(a, w), y = fixOf(b, w);
    if (!x.ok || !y.ok) return;
    i128 p[4] = {(i128)x.lo * y.lo, (i128)x.lo * y.hi, (i128)x.hi * y.lo, (i128)x.hi * y.hi};
    set(*std::min_element(p, p + 4), *std::max_element(p, p + 4), x.g + y.g);
    return;
  }
  case Op::FDiv: {
    Fix x = fixOf(a, w);
    if (!x.ok || !iteConstTree(b)) return;
    int mn, mx;
    if (!pow2Tree(b, w, mn, mx)) return;
    // x / 2^k, k in [mn,mx]:  n*2^-g / 2^k ; use common g' = g + mx
    int g = x.g + mx;
    int s = mx - mn;
    if (s > 40) return;
    i128 m = std::max(-(i128)x.lo, (i128)x.hi); if (m < 0) m = -m;
    i128 ml = x.lo < 0 ? -(i128)x.lo : x.lo; if (ml > m) m = ml;
    m <<= s;
    set(-m, m, g);
    return;
  }
  case Op::FNeg: { Fix x = fixOf(a, w); if (x.ok) set(-(i128)x.hi, -(i128)x.lo, x.g); return; }
  case Op::FAbs: { Fix x = fixOf(a, w); if (x.ok) set(0, std::max<i128>(-(i128)x.lo, x.hi) < 0 ? 0 : std::max<i128>(-(i128)x.lo, x.hi), x.g); return; }
  case Op::SIToFP: set(a->lo, a->hi, 0); return;
  case Op::UIToFP: if (a->lo >= 0) set(a->lo, a->hi, 0); return;
  case Op::FPExt: { Fix x = fixOf(a, 32); if (x.ok) set(x.lo, x.hi, x.g); return; }
  case Op::FPTrunc: { Fix x = fixOf(a, 64); if (x.ok) set(x.lo, x.hi, x.g); return; }
  default: return;
  }
}

Expr *intern(Op op, int w, uint16_t aux, uint64_t c, Expr *a, Expr *b, Expr *d) {
  Expr t;
  t.op = op; t.w = (uint8_t)w; t.aux = aux; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr *e = new Expr(t);
  e->id = g_next_id++;
  e->fx = Fix{};
  if (op != Op::Sym) computeRange(e);
  if (e->lo == e->hi && op != Op::Sym && op != Op::Const && !isFPNode(op)) {
    Expr *r = mkConst((uint64_t)e->lo, e->w);
    delete e;
    return r;
  }
  if (isFPNode(op)) computeFix(e);
  table.insert(e);
  return e;
}
} // namespace

Fix fixOf(Expr *e, int w) {
  if (isFPNode(e->op)) return e->fx;
  if (isConst(e)) {
    Fix f;
    double d;
    if (w == 32) { float x; uint32_t b = (uint32_t)e->c; memcpy(&x, &b, 4); d = x; }
    else memcpy(&d, &e->c, 8);
    if (std::isnan(d) || std::isinf(d)) return f;
    if (d == 0) { f.ok = true; return f; }
    int ex; double m = std::frexp(d, &ex);
    int64_t n = (int64_t)std::ldexp(m, 53); int g = 53 - ex;
    while ((n & 1) == 0) { n >>= 1; g--; }
    if (g < 0) { if (-g > 60 || std::llabs(n) >= (1ll << (61 + g))) return f; n <<= -g; g = 0; }
    if (!fixFits(n, n, g, w)) return f;
    f.ok = true; f.g = g; f.lo = f.hi = n;
    return f;
  }
  if (e->op == Op::Ite) {
    Fix x = fixOf(e->k[1], w), y = fixOf(e->k[2], w), r;
    if (!x.ok || !y.ok) return r;
    int g = std::max(x.g, y.g);
    if (g - x.g > 60 || g - y.g > 60) return r;
    i128 lo = std::min((i128)x.lo << (g - x.g), (i128)y.lo << (g - y.g));
    i128 hi = std::max((i128)x.hi << (g - x.g), (i128)y.hi << (g - y.g));
    if (!fixFits(lo, hi, g, w)) return r;
    r.ok = true; r.g = g; r.lo = (int64_t)lo; r.hi = (int64_t)hi;
    return r;
  }
  return Fix{};
}

Expr *mkConst(uint64_t v, int w) { return intern(Op::Const, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }

Expr *mkSym(const std::string &name, int w, int64_t lo, int64_t hi, bool uninit) {
  uint32_t idx = g_syms.size();
  Expr *e = intern(Op::Sym, w, 0, idx, nullptr, nullptr, nullptr);
  e->lo = lo; e->hi = hi;
  g_syms.push_back(Symbol{name, w, lo, hi, uninit, e});
  return e;
}

uint64_t evalBin(Op op, uint64_t a, uint64_t b, int w) {
  uint64_t m = maskw(w);
  switch (op) {
  case Op::Add: return (a + b) & m;
  case Op::Sub: return (a - b) & m;
  case Op::Mul: return (a * b) & m;
  case Op::UDiv: return b ? (a / b) & m : m;
  case Op::URem: return b ? (a % b) & m : a;
  case Op::SDiv: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (y == 0) return x < 0 ? 1 : m;
    if (y == -1) return (0 - (uint64_t)x) & m;
    return (uint64_t)(x / y) & m;
  }
  case Op::SRem: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (y == 0) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & m;
  }
  case Op::And: return a & b;
  case Op::Or: return a | b;
  case Op::Xor: return a ^ b;
  case Op::Shl: return b >= (uint64_t)w ? 0 : (a << b) & m;
  case Op::LShr: return b >= (uint64_t)w ? 0 : a >> b;
  case Op::AShr: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= (uint64_t)w ? w - 1 : b)) & m; }
  default: abort();
  }
}
bool evalCmp(Op op, uint64_t a, uint64_t b, int w) {
  switch (op) {
  case Op::Eq: return a == b;
  case Op::Ult: return a < b;
  case Op::Ule: return a <= b;
  case Op::Slt: return sextw(a, w) < sextw(b, w);
  case Op::Sle: return sextw(a, w) <= sextw(b, w);
  case Op::UMulO: return (unsigned __int128)a * b > maskw(w);
  default: abort();
  }
}
static float asF(uint64_t v) { float f; uint32_t b = (uint32_t)v; memcpy(&f, &b, 4); return f; }
static double asD(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint64_t fromF(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static uint64_t fromD(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
uint64_t evalF2(Op op, uint64_t a, uint64_t b, int w) {
  if (w == 32) {
    volatile float x = asF(a), y = asF(b), r;
    switch (op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; default: abort(); }
    return fromF(r);
  }
  volatile double x = asD(a), y = asD(b), r;
  switch (op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; default: abort(); }
  return fromD(r);
}
uint64_t evalF1(Op op, uint64_t a, int w) {
  switch (op) {
  case Op::FNeg: return a ^ (1ull << (w - 1));
  case Op::FAbs: return a & ~(1ull << (w - 1));
  case Op::FSqrt: return w == 32 ? fromF(std::sqrt(asF(a))) : fromD(std::sqrt(asD(a)));
  default: abort();
  }
}
bool evalFCmp(Op op, uint64_t a, uint64_t b, int w) {
  double x = w == 32 ? asF(a) : asD(a), y = w == 32 ? asF(b) : asD(b);
  switch (op) {
  case Op::FOeq: return x == y;
  case Op::FOlt: return x < y;
  case Op::FOle: return x <= y;
  case Op::FUno: return std::isnan(x) || std::isnan(y);
  default: abort();
  }
}
uint64_t evalFConv(Op op, uint64_t a, int wf, int wt) {
  switch (op) {
  case Op::SIToFP: { int64_t v = sextw(a, wf); return wt == 32 ? fromF((float)v) : fromD((double)v); }
  case Op::UIToFP: return wt == 32 ? fromF((float)a) : fromD((double)a);
  case Op::FPExt: return fromD((double)asF(a));
  case Op::FPTrunc: return fromF((float)asD(a));
  case Op::FPToSI: {
    double d = wf == 32 ? asF(a) : asD(a);
    if (std::isnan(d)) return 0;
    double lim = std::ldexp(1.0, wt - 1);
    if (d >= lim || d < -lim) return (uint64_t)(wt == 64 ? INT64_MIN : 0) & maskw(wt);
    return (uint64_t)(int64_t)d & maskw(wt);
  }
  case Op::FPToUI: {
    double d = wf == 32 ? asF(a) : asD(a);
    if (std::isnan(d) || d < 0) return 0;
    if (d >= std::ldexp(1.0, wt)) return 0;
    return (uint64_t)d & maskw(wt);
  }
  default: abort();
  }
}

static bool commut(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor; }

Expr *mkBin(Op op, Expr *a, Expr *b) {
  int w = a->w;
  if (isConst(a) && isConst(b)) return mkConst(evalBin(op, a->c, b->c, w), w);
  if (commut(op)) {
    if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
  }
  if (isConst(b)) {
    uint64_t c = b->c;
    switch (op) {
    case Op::Add:
      if (c == 0) return a;
      if (a->op == Op::Add && isConst(a->k[1])) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + c, w));
      break;
    case Op::Sub:
      if (c == 0) return a;
      return mkBin(Op::Add, a, mkConst(0 - c, w));
    case Op::Mul:
      if (c == 0) return b;
      if (c == 1) return a;
      if (a->op == Op::Mul && isConst(a->k[1])) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->c * c, w));
      if (a->op == Op::Add && isConst(a->k[1])) return mkBin(Op::Add, mkBin(Op::Mul, a->k[0], b), mkConst(a->k[1]->c * c, w));
      break;
    case Op::UDiv: case Op::SDiv: if (c == 1) return a; break;
    case Op::URem: if (c == 1) return mkConst(0, w);
      if ((c & (c - 1)) == 0 && c) return mkBin(Op::And, a, mkConst(c - 1, w)); break;
    case Op::SRem: if (c == 1) return mkConst(0, w); break;
    case Op::And:
      if (c == 0) return b;
      if (c == maskw(w)) return a;
      if (a->op == Op::ZExt && (c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
      if (a->op == Op::ZExt && c < (1ull << std::min(63, (int)a->k[0]->w)))
        return mkZExt(mkBin(Op::And, a->k[0], mkConst(c, a->k[0]->w)), w);
      if (c == 1 && w > 1) return mkZExt(mkExtract(a, 0, 1), w);
      break;
    case Op::Or: if (c == 0) return a; if (c == maskw(w)) return b; break;
    case Op::Xor: if (c == 0) return a;
      if (w == 1 && c == 1) return mkNot(a);
      break;
    case Op::Shl: if (c == 0) return a; if (c >= (uint64_t)w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - c), mkConst(0, c));
    case Op::LShr: if (c == 0) return a; if (c >= (uint64_t)w) return mkConst(0, w);
      return mkZExt(mkExtract(a, c, w - c), w);
    case Op::AShr: if (c == 0) return a; if (c >= (uint64_t)w) c = w - 1;
      return mkSExt(mkExtract(a, c, w - c), w);
    default: break;
    }
  }
  if (a == b) {
    switch (op) {
    case Op::Sub: case Op::Xor: return mkConst(0, w);
    case Op::And: case Op::Or: return a;
    default: break;
    }
  }
  if (isConst(a) && a->c == 0 && (op == Op::Shl || op == Op::LShr || op == Op::AShr || op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem))
    if (op == Op::Shl || op == Op::LShr || op == Op::AShr) return a;
  if (w == 1) {
    if (op == Op::Add || op == Op::Sub) op = Op::Xor;
    if (op == Op::Mul) op = Op::And;
  }
  // Or of disjoint concat pieces: (x << k) | zext(y)
  if (op == Op::Or) {
    for (int s = 0; s < 2; s++) {
      Expr *x = s ? b : a, *y = s ? a : b;
      if (x->op == Op::Concat && isConst(x->k[1]) && x->k[1]->c == 0 && y->op == Op::ZExt && y->k[0]->w <= x->k[1]->w)
        return mkConcat(x->k[0], mkZExt(y->k[0], x->k[1]->w));
    }
  }
  // constant folding through ITE with constant leaves
  if (isConst(b) && a->op == Op::Ite && (isConst(a->k[1]) || isConst(a->k[2])))
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isConst(a) && b->op == Op::Ite && isConst(b->k[1]) && isConst(b->k[2]))
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  return intern(op, w, 0, 0, a, b, nullptr);
}

Expr *mkNot(Expr *a) {
  if (isConst(a)) return mkConst(!a->c, 1);
  if (a->op == Op::Eq && a->k[0]->w == 1 && isFalse(a->k[1])) return a->k[0];
  if (a->op == Op::Ult) return mkCmp(Op::Ule, a->k[1], a->k[0]);
  if (a->op == Op::Ule) return mkCmp(Op::Ult, a->k[1], a->k[0]);
  if (a->op == Op::Slt) return mkCmp(Op::Sle, a->k[1], a->k[0]);
  if (a->op == Op::Sle) return mkCmp(Op::Slt, a->k[1], a->k[0]);
  return intern(Op::Eq, 1, 0, 0, a, mkConst(0, 1), nullptr);
}
Expr *mkAnd1(Expr *a, Expr *b) { return mkBin(Op::And, a, b); }
Expr *mkOr1(Expr *a, Expr *b) { return mkBin(Op::Or, a, b); }

static void urange(Expr *e, uint64_t &lo, uint64_t &hi) {
  if (e->lo >= 0) { lo = e->lo; hi = e->hi; }
  else if (e->hi < 0) { lo = (uint64_t)e->lo & maskw(e->w); hi = (uint64_t)e->hi & maskw(e->w); }
  else { lo = 0; hi = maskw(e->w); }
}

Expr *mkCmp(Op op, Expr *a, Expr *b) {
  int w = a->w;
  if (isConst(a) && isConst(b)) return mkConst(evalCmp(op, a->c, b->c, w), 1);
  if (op == Op::UMulO) {
    uint64_t al, ah, bl, bh;
    urange(a, al, ah); urange(b, bl, bh);
    if ((unsigned __int128)ah * bh <= maskw(w)) return mkConst(0, 1);
    if ((unsigned __int128)al * bl > maskw(w)) return mkConst(1, 1);
    if (isConst(a)) std::swap(a, b);
    if (isConst(b)) return mkCmp(Op::Ult, mkConst(maskw(w) / b->c, w), a);
    return intern(op, 1, 0, 0, a, b, nullptr);
  }
  if (a == b) return mkConst(op == Op::Eq || op == Op::Ule || op == Op::Sle, 1);
  if (op == Op::Eq) {
    if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (w == 1 && isConst(b)) return b->c ? a : mkNot(a);
    if (isConst(b)) {
      uint64_t c = b->c;
      if (a->op == Op::ZExt) {
        if (c > maskw(a->k[0]->w)) return mkConst(0, 1);
        return mkCmp(Op::Eq, a->k[0], mkConst(c, a->k[0]->w));
      }
      if (a->op == Op::SExt) {
        int kw = a->k[0]->w;
        if ((uint64_t)(sextw(c, kw)) != (uint64_t)sextw(c, w)) return mkConst(0, 1);
        return mkCmp(Op::Eq, a->k[0], mkConst(c, kw));
      }
      if (a->op == Op::Concat) {
        int lw = a->k[1]->w;
        if (isConst(a->k[0]) || isConst(a->k[1]))
          return mkAnd1(mkCmp(Op::Eq, a->k[0], mkConst(c >> lw, a->k[0]->w)), mkCmp(Op::Eq, a->k[1], mkConst(c, lw)));
      }
      if (a->op == Op::Add && isConst(a->k[1])) return mkCmp(Op::Eq, a->k[0], mkConst(c - a->k[1]->c, w));
      if (a->op == Op::Sub && isConst(a->k[0])) return mkCmp(Op::Eq, a->k[1], mkConst(a->k[0]->c - c, w));
      if (a->op == Op::Mul && isConst(a->k[1]) && sextw(a->k[1]->c, w) > 1) { // no overflow: divide both sides
        int64_t m = sextw(a->k[1]->c, w), v = sextw(c, w);
        i128 l = (i128)a->k[0]->lo * m, h = (i128)a->k[0]->hi * m;
        if (fitsS(l, w) && fitsS(h, w)) return v % m ? mkConst(0, 1) : mkCmp(Op::Eq, a->k[0], mkConst((uint64_t)(v / m), w));
      }
      if (a->op == Op::Ite && (isConst(a->k[1]) || isConst(a->k[2]))) {
        Expr *x = mkCmp(Op::Eq, a->k[1], b), *y = mkCmp(Op::Eq, a->k[2], b);
        return mkIte(a->k[0], x, y);
      }
    } else {
      if (a->op == b->op && (a->op == Op::ZExt || a->op == Op::SExt) && a->k[0]->w == b->k[0]->w)
        return mkCmp(Op::Eq, a->k[0], b->k[0]);
      if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkCmp(Op::Eq, a->k[0], b->k[0]);
    }
    return intern(Op::Eq, 1, 0, 0, a, b, nullptr);
  }
  if (op == Op::Slt || op == Op::Sle) {
    if (a->hi < b->lo) return mkConst(1, 1);
    if (a->lo > b->hi) return mkConst(0, 1);
    if (op == Op::Slt && a->lo >= b->hi) return mkConst(0, 1);
    if (op == Op::Sle && a->hi <= b->lo) return mkConst(1, 1);
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
  } else {
    uint64_t al, ah, bl, bh;
    urange(a, al, ah); urange(b, bl, bh);
    if (ah < bl) return mkConst(1, 1);
    if (al > bh) return mkConst(0, 1);
    if (op == Op::Ult && al >= bh) return mkConst(0, 1);
    if (op == Op::Ule && ah <= bl) return mkConst(1, 1);
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
  }
  if ((isConst(b) && a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])))
    return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
  if ((isConst(a) && b->op == Op::Ite && isConst(b->k[1]) && isConst(b->k[2])))
    return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  return intern(op, 1, 0, 0, a, b, nullptr);
}

Expr *mkExtract(Expr *a, int low, int w) {
  if (low == 0 && w == a->w) return a;
  if (isConst(a)) return mkConst(a->c >> low, w);
  switch (a->op) {
  case Op::Extract: return mkExtract(a->k[0], low + a->aux, w);
  case Op::Concat: {
    int lw = a->k[1]->w;
    if (low >= lw) return mkExtract(a->k[0], low - lw, w);
    if (low + w <= lw) return mkExtract(a->k[1], low, w);
    return mkConcat(mkExtract(a->k[0], 0, low + w - lw), mkExtract(a->k[1], low, lw - low));
  }
  case Op::ZExt: {
    int kw = a->k[0]->w;
    if (low >= kw) return mkConst(0, w);
    if (low + w <= kw) return mkExtract(a->k[0], low, w);
    return mkZExt(mkExtract(a->k[0], low, kw - low), w);
  }
  case Op::SExt: {
    int kw = a->k[0]->w;
    if (low + w <= kw) return mkExtract(a->k[0], low, w);
    if (low < kw) return mkSExt(mkExtract(a->k[0], low, kw - low), w);
    return mkSExt(mkExtract(a->k[0], kw - 1, 1), w);
  }
  case Op::Ite:
    if (isConst(a->k[1]) || isConst(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], low, w), mkExtract(a->k[2], low, w));
    break;
  case Op::Add: case Op::Sub: case Op::Mul: case Op::And: case Op::Or: case Op::Xor:
    if (low == 0 && (a->op != Op::Mul || true)) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  default: break;
  }
  return intern(Op::Extract, w, low, 0, a, nullptr, nullptr);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  int w = hi->w + lo->w;
  if (isConst(hi) && isConst(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isConst(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->k[0], lo->aux, w);
  if (lo->op == Op::Concat && lo->k[0]->op == Op::Extract && hi->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  return intern(Op::Concat, w, 0, 0, hi, lo, nullptr);
}

Expr *mkZExt(Expr *a, int w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst(a->c, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return intern(Op::ZExt, w, 0, 0, a, nullptr, nullptr);
}
Expr *mkSExt(Expr *a, int w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->lo >= 0 && a->w > 1) return mkZExt(a, w);
  if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(Op::SExt, w, 0, 0, a, nullptr, nullptr);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isConst(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr1(c, b);
    if (isFalse(a)) return mkAnd1(mkNot(c), b);
    if (isTrue(b)) return mkOr1(mkNot(c), a);
    if (isFalse(b)) return mkAnd1(c, a);
  }
  if (c->op == Op::Eq && c->k[0]->w == 1 && isFalse(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr1(c, b->k[0]), a, b->k[2]);
  return intern(Op::Ite, a->w, 0, 0, c, a, b);
}

Expr *mkF2(Op op, Expr *a, Expr *b) {
  int w = a->w;
  if (isConst(a) && isConst(b)) return mkConst(evalF2(op, a->c, b->c, w), w);
  if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
  // identities valid for every IEEE value (up to NaN payload): x*1, x/1, x-0
  auto isF = [&](Expr *e, double v) {
    if (!isConst(e)) return false;
    return w == 32 ? e->c == fromF((float)v) : e->c == fromD(v);
  };
  if (op == Op::FMul) { if (isF(a, 1)) return b; if (isF(b, 1)) return a; }
  if (op == Op::FDiv && isF(b, 1)) return a;
  if (op == Op::FSub && isF(b, 0)) return a;
  return intern(op, w, 0, 0, a, b, nullptr);
}
Expr *mkF1(Op op, Expr *a) {
  if (isConst(a)) return mkConst(evalF1(op, a->c, a->w), a->w);
  return intern(op, a->w, 0, 0, a, nullptr, nullptr);
}
// never a NaN (conservative)
static bool notNaN(Expr *e, int depth = 0) {
  if (fixOf(e, e->w).ok) return true;
  if (isConst(e)) { double d; if (e->w == 32) { float f; uint32_t u = (uint32_t)e->c; memcpy(&f, &u, 4); d = f; } else memcpy(&d, &e->c, 8); return !std::isnan(d); }
  if (depth > 8) return false;
  switch (e->op) {
  case Op::FDiv: { // finite / non-zero number
    Expr *b = e->k[1];
    if (!isConst(b) || !notNaN(b)) return false;
    if ((b->c & (b->w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull)) == 0) return false;
    return fixOf(e->k[0], e->w).ok;
  }
  case Op::FNeg: case Op::FAbs: case Op::FPExt: case Op::FPTrunc: return notNaN(e->k[0], depth + 1);
  case Op::Ite: return notNaN(e->k[1], depth + 1) && notNaN(e->k[2], depth + 1);
  default: return false;
  }
}
Expr *mkFCmp(Op op, Expr *a, Expr *b) {
  if (isConst(a) && isConst(b)) return mkConst(evalFCmp(op, a->c, b->c, a->w), 1);
  if ((op == Op::FOeq || op == Op::FUno) && a->id > b->id) std::swap(a, b);
  if (a->op == Op::FPExt && b->op == Op::FPExt) return mkFCmp(op, a->k[0], b->k[0]);
  if (op == Op::FUno) {
    bool an = notNaN(a), bn = notNaN(b);
    if (an && bn) return mkConst(0, 1);
  }
  if (a == b && notNaN(a)) return mkConst(op != Op::FOlt && op != Op::FUno, 1);
  return intern(op, 1, 0, 0, a, b, nullptr);
}
Expr *mkFConv(Op op, Expr *a, int w) {
  if (isConst(a)) return mkConst(evalFConv(op, a->c, a->w, w), w);
  if (op == Op::FPTrunc && a->op == Op::FPExt) return a->k[0];
  if (op == Op::SIToFP && a->op == Op::SExt) return mkFConv(op, a->k[0], w);
  if ((op == Op::FPTrunc || op == Op::FPExt) && a->op == Op::SIToFP && a->fx.ok) {
    Expr *r = mkFConv(Op::SIToFP, a->k[0], w);
    if (r->fx.ok) return r; // exact in both formats
  }
  if (op == Op::FPToSI && a->op == Op::SIToFP && a->fx.ok) {
    Expr *x = a->k[0];
    if (x->w == w) return x;
    if (x->w < w) return mkSExt(x, w);
    int64_t lo, hi;
    fullRange(w, lo, hi);
    if (x->lo >= lo && x->hi <= hi) return mkExtract(x, 0, w);
  }
  if (a->op == Op::Ite && iteConstTree(a)) return mkIte(a->k[0], mkFConv(op, a->k[1], w), mkFConv(op, a->k[2], w));
  return intern(op, w, 0, 0, a, nullptr, nullptr);
}

static uint32_t g_epoch = 1;
void newEvalEpoch() { g_epoch++; }
uint64_t evalExpr(Expr *e, const Model &m) {
  if (e->op == Op::Const) return e->c;
  if (e->op == Op::Sym) return m.get((uint32_t)e->c) & maskw(e->w);
  if (e->ev_epoch == g_epoch) return e->ev_val;
  uint64_t r;
  switch (e->op) {
  case Op::Ite: r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m); break;
  case Op::Concat: r = (evalExpr(e->k[0], m) << e->k[1]->w) | evalExpr(e->k[1], m); break;
  case Op::Extract: r = (evalExpr(e->k[0], m) >> e->aux) & maskw(e->w); break;
  case Op::ZExt: r = evalExpr(e->k[0], m); break;
  case Op::SExt: r = (uint64_t)sextw(evalExpr(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
  case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::UMulO:
    r = evalCmp(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->w); break;
  case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv:
    r = evalF2(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->w); break;
  case Op::FNeg: case Op::FAbs: case Op::FSqrt: r = evalF1(e->op, evalExpr(e->k[0], m), e->w); break;
  case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno:
    r = evalFCmp(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->w); break;
  case Op::SIToFP: case Op::UIToFP: case Op::FPToSI: case Op::FPToUI: case Op::FPExt: case Op::FPTrunc:
    r = evalFConv(e->op, evalExpr(e->k[0], m), e->k[0]->w, e->w); break;
  default: r = evalBin(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->w);
  }
  e->ev_epoch = g_epoch;
  e->ev_val = r;
  return r;
}

const std::vector<uint32_t> &symsOf(Expr *e) {
  if (e->syms) return *e->syms;
  if (e->op == Op::Const) { e->syms = &emptySyms; return emptySyms; }
  if (e->op == Op::Sym) { e->syms = new std::vector<uint32_t>{(uint32_t)e->c}; return *e->syms; }
  std::vector<uint32_t> r;
  const std::vector<uint32_t> *only = nullptr;
  int n = 0;
  for (int i = 0; i < 3; i++)
    if (e->k[i]) {
      auto &s = symsOf(e->k[i]);
      if (s.empty()) continue;
      if (only && *only == s) continue;
      n++; only = &s;
      std::vector<uint32_t> t;
      std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t));
      r.swap(t);
    }
  if (n == 0) e->syms = &emptySyms;
  else if (n == 1) e->syms = only;
  else e->syms = new std::vector<uint32_t>(std::move(r));
  return *e->syms;
}

std::string show(Expr *e, int depth) {
  static const char *names[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "umulo", "concat", "extract", "zext", "sext", "ite", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fsqrt", "foeq", "folt", "fole", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"};
  if (isConst(e)) return std::to_string(sextw(e->c, e->w)) + ":" + std::to_string(e->w);
  if (e->op == Op::Sym) return g_syms[e->c].name;
  if (depth == 0) return "...";
  std::string s = std::string("(") + names[(int)e->op];
  if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + show(e->k[i], depth - 1);
  return s + ")";
}
