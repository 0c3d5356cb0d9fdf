//@ entry: arith_int quick=150 thorough=900
//@ entry: arith_flt quick=150 thorough=900
//@ entry: arith_bits quick=100 thorough=900
//@ entry: large quick=120 thorough=900
//@ entry: pairs quick=200 thorough=1200
//@ entry: huge quick=150 thorough=900
//@ entry: alias quick=120 thorough=600
//@ cover: int flt bits large pairs huge alias
//@ bounds: all 36 ordered dtype pairs and the four operators; operands of equal shape with 0 to 2 dimensions of size 1..2 (thorough: 0..3), in 8 memory layouts each; integer operands: every value (64-bit); float operands: every integer value in -16..16 (solved exactly in fixed point), and every bit pattern incl. NaN/inf on scalar operands; (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements) with small values; (entry pairs) every dtype pair with every pair of the 8 layouts on 2x2 and 3-element operands (quick: + and - , resp. * and / on the equal-dtype pairs), small values; (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed; (entry alias) operands that share storage: every two of nine views of one 2x2 tensor (whole, reversed, transposed, rows, columns, reshaped, detached)
//@ outside: larger tensors; overflow of int32/int64 arithmetic (undefined in C++); division by zero or overflow in integer division; float rounding of non-small values except where the library's and the oracle's terms coincide or z3's FP theory decides
//@ oracle: the C++ expression on the native element types, cast to the promoted dtype
#include "h.h"
enum { ADD, SUB, MUL, DIV };
template <class L, class R> struct Prom { using t = std::conditional_t<(DT<L>::v >= DT<R>::v), L, R>; };
static Tensor apply(int op, const Tensor &a, const Tensor &b) {
  switch (op) {
  case ADD: return a + b;
  case SUB: return a - b;
  case MUL: return a * b;
  default: return a / b;
  }
}
// integer arithmetic is exact modulo 2^width of the result
template <class P> static P intRef(int op, int64_t a, int64_t b) {
  uint64_t x = (uint64_t)a, y = (uint64_t)b;
  switch (op) {
  case ADD: return (P)(x + y);
  case SUB: return (P)(x - y);
  case MUL: return (P)(x * y);
  default: return 0;
  }
}
extern "C" void arith_int() {
  int op = sym_choice(4, "op"), lk = sym_choice(4, "ltype"), rk = sym_choice(4, "rtype");
  Shape s = pickShape(0, 2, TIER ? 0 : 1, TIER ? 3 : 2, "shape");
  int va = 0, vb = 0;
  if (TIER || (lk == 2 && rk == 2)) { va = pickVar(s, "la"); vb = pickVar(s, "lb"); }
  else if (s.size() == 2) va = 1, vb = 2;
  withType(lk, [&](auto l) { withType(rk, [&](auto r) {
    using L = decltype(l); using R = decltype(r); using P = typename Prom<L, R>::t;
    if constexpr (!isF<L> && !isF<R>) {
      using C = decltype(l + r);
      size_t n = prod(s);
      auto a = anyv<L>(n, "a"); auto b = anyv<R>(n, "b");
      std::vector<P> e;
      for (size_t k = 0; k < n; ++k) {
        if (op == DIV) {
          sym_assume(b[k] != 0);
          sym_assume(!(b[k] == -1 && (C)a[k] == std::numeric_limits<C>::min()));
        }
        e.push_back(op == DIV ? (P)(a[k] / b[k]) : intRef<P>(op, a[k], b[k]));
      }
      Tensor ta = mkVar<L>(s, a, va), tb = mkVar<R>(s, b, vb);
      expect<P>(apply(op, ta, tb), s, e, "integer arithmetic is element-wise and exact modulo the promoted width");
    } }); });
  sym_cover("int");
}
extern "C" void arith_flt() {
  int op = sym_choice(4, "op"), lk = sym_choice(6, "ltype"), rk = sym_choice(6, "rtype");
  sym_assume(lk >= 4 || rk >= 4);
  Shape s = pickShape(0, 2, TIER ? 0 : 1, TIER ? 3 : 2, "shape");
  int va = 0, vb = 0;
  if (TIER || (lk == 4 && rk == 5)) { va = pickVar(s, "la"); vb = pickVar(s, "lb"); }
  else if (s.size() == 2) va = 5, vb = 3;
  withType(lk, [&](auto l) { withType(rk, [&](auto r) {
    using L = decltype(l); using R = decltype(r); using P = typename Prom<L, R>::t;
    if constexpr (isF<L> || isF<R>) {
      size_t n = prod(s);
      std::vector<L> a; std::vector<R> b; std::vector<P> e;
      for (size_t k = 0; k < n; ++k) {
        int64_t x = sym_range(-16, 16, "a"), y;
        if (op == DIV) { // power-of-two divisors: the quotient is exact
          y = sym_range(0, 3, "b");
          y = y == 0 ? 1 : y == 1 ? -2 : y == 2 ? 4 : -1;
        } else
          y = sym_range(-16, 16, "b");
        a.push_back((L)x); b.push_back((R)y);
        e.push_back(op == ADD ? (P)(x + y) : op == SUB ? (P)(x - y) : op == MUL ? (P)(x * y) : (P)((double)x / (double)y));
      }
      Tensor ta = mkVar<L>(s, a, va), tb = mkVar<R>(s, b, vb);
      expect<P>(apply(op, ta, tb), s, e, "float arithmetic is element-wise in the promoted dtype");
    } }); });
  sym_cover("flt");
}
extern "C" void arith_bits() {
  int op = sym_choice(4, "op"), lk = sym_choice(6, "ltype"), rk = sym_choice(6, "rtype");
  sym_assume(lk >= 4 || rk >= 4);
  withType(lk, [&](auto l) { withType(rk, [&](auto r) {
    using L = decltype(l); using R = decltype(r); using P = typename Prom<L, R>::t;
    if constexpr (isF<L> || isF<R>) {
      L a = any<L>("a"); R b = any<R>("b");
      P e = op == ADD ? (P)(a + b) : op == SUB ? (P)(a - b) : op == MUL ? (P)(a * b) : (P)(a / b);
      Tensor ta = mk<L>({}, {a}), tb = mk<R>({}, {b});
      Tensor t = apply(op, ta, tb);
      sym_assert(t.type() == DT<P>::v, "dtype of a float expression");
      sym_assert(is<P>(t, e), "float arithmetic is IEEE arithmetic in the promoted dtype");
    } }); });
  sym_cover("bits");
}
extern "C" void large() {
  int op = sym_choice(4, "op"), tp = sym_choice(TIER ? 8 : 5, "types");
  static const int P[][2] = {{2, 2}, {5, 5}, {0, 2}, {3, 4}, {5, 1}, {1, 0}, {4, 4}, {3, 3}};
  Shape s = pickLarge("shape");
  static const int V[][2] = {{0, 0}, {4, 0}, {0, 5}, {3, 2}, {1, 1}, {2, 4}};
  int v = sym_choice(TIER ? 6 : 4, "layout"), va = V[v][0], vb = V[v][1];
  sym_assume(varOk(va, s) && varOk(vb, s));
  withType(P[tp][0], [&](auto l) { withType(P[tp][1], [&](auto r) {
    using L = decltype(l); using R = decltype(r); using P = typename Prom<L, R>::t;
    std::vector<L> a; std::vector<R> b; std::vector<P> e;
    for (size_t k = 0; k < prod(s); ++k) {
      int64_t x = sym_range(-9, 9, "a"), y = op == DIV ? (k % 3 == 0 ? 2 : k % 3 == 1 ? -1 : -4) : sym_range(-9, 9, "b");
      a.push_back((L)x); b.push_back((R)y);
      e.push_back(op == ADD ? (P)(x + y) : op == SUB ? (P)(x - y) : op == MUL ? (P)(x * y) : isF<P> ? (P)((double)x / (double)y) : (P)(x / y));
    }
    Tensor ta = mkVar<L>(s, a, va), tb = mkVar<R>(s, b, vb);
    expect<P>(apply(op, ta, tb), s, e, "element-wise arithmetic on more elements and dimensions");
  }); });
  sym_cover("large");
}
// every pair of dtypes in every pair of layouts
extern "C" void pairs() {
  int lk = sym_choice(6, "ltype"), rk = sym_choice(6, "rtype"), op = sym_choice(4, "op");
  if (!TIER) sym_assume(lk == rk || op < 2);
  Shape s = sym_choice(2, "shape") ? Shape{2, 2} : Shape{3};
  int va = pickVar(s, "la"), vb = pickVar(s, "lb");
  withType(lk, [&](auto l) { withType(rk, [&](auto r) {
    using L = decltype(l); using R = decltype(r); using P = typename Prom<L, R>::t;
    std::vector<L> a; std::vector<R> b; std::vector<P> e;
    for (size_t k = 0; k < prod(s); ++k) {
      int64_t x = sym_range(-9, 9, "a"), y = op == DIV ? (k % 3 == 0 ? 2 : k % 3 == 1 ? -1 : -4) : sym_range(-9, 9, "b");
      a.push_back((L)x); b.push_back((R)y);
      e.push_back(op == ADD ? (P)(x + y) : op == SUB ? (P)(x - y) : op == MUL ? (P)(x * y) : isF<P> ? (P)((double)x / (double)y) : (P)(x / y));
    }
    Tensor ta = mkVar<L>(s, a, va), tb = mkVar<R>(s, b, vb);
    expect<P>(apply(op, ta, tb), s, e, "element-wise arithmetic for a pair of dtypes and layouts");
  }); });
  sym_cover("pairs");
}
extern "C" void huge() {
  int op = sym_choice(4, "op"), tp = sym_choice(TIER ? 5 : 3, "types");
  static const int P[][2] = {{2, 2}, {5, 5}, {0, 3}, {4, 1}, {1, 1}};
  Shape s = pickHuge("shape");
  int va = pickHugeVar(s, "la"), vb = sym_choice(2, "lb") ? 4 : 0;
  withType(P[tp][0], [&](auto l) { withType(P[tp][1], [&](auto r) {
    using L = decltype(l); using R = decltype(r); using P = typename Prom<L, R>::t;
    auto a = hugev<L>(prod(s), -9, 9, "a");
    std::vector<R> b;
    if (op == DIV) for (size_t k = 0; k < prod(s); ++k) b.push_back((R)(k % 3 == 0 ? 2 : k % 3 == 1 ? -1 : -4));
    else b = hugev<R>(prod(s), -8, 8, "b");
    std::vector<P> e;
    for (size_t k = 0; k < prod(s); ++k) {
      int64_t x = (int64_t)a[k], y = (int64_t)b[k];
      e.push_back(op == ADD ? (P)(x + y) : op == SUB ? (P)(x - y) : op == MUL ? (P)(x * y) : isF<P> ? (P)((double)x / (double)y) : (P)(x / y));
    }
    Tensor ta = mkVar<L>(s, a, va), tb = mkVar<R>(s, b, vb);
    expect<P>(apply(op, ta, tb), s, e, "element-wise arithmetic on many elements");
  }); });
  sym_cover("huge");
}
// operands that are different views of one tensor
static Tensor viewNo(Tensor &a, int k, View &v) {
  View w = whole({2, 2});
  Fld all{false, 0, 2, 1}, rev{false, 1, 2, -1};
  switch (k) {
  case 0: { v = w; Tensor t; t = a; return t; }
  case 1: v = vSlice(w, {rev, all}); return a["::-1"];
  case 2: v = vSlice(w, {all, rev}); return a[":, ::-1"];
  case 3: v = vTranspose(w, 0, 1); return a.transpose(0, 1);
  case 4: v = w; return a.detach();
  case 5: v = vSlice(w, {Fld{true, 0, 0, 0}, all}); return a["0"];
  case 6: v = vSlice(w, {Fld{true, 1, 0, 0}, all}); return a["1"];
  case 7: v = vSlice(w, {all, Fld{false, 1, 1, 1}}); return a[":, 1:"];
  default: v = View{{4, 1}, w.m}; return a.reshape(signedvec({-1, 1}));
  }
}

extern "C" void alias() {
  int op = sym_choice(4, "op"), x = sym_choice(9, "x"), y = sym_choice(9, "y"), ty = sym_choice(6, "type");
  withType(ty, [&](auto z) {
    using T = decltype(z);
    auto a = smallv<T>(4, -9, 9, "a");
    if (op == 3) for (auto &q : a) q = sym_choice(2, "q") ? T(4) : T(-2);
    Tensor t = mkVar<T>({2, 2}, a, (x + y) % 6, T(7));
    View v, w;
    Tensor p = viewNo(t, x, v), q = viewNo(t, y, w);
    Shape so;
    if (!bcast(v.s, w.s, so)) return;
    std::vector<T> e;
    for (size_t k = 0; k < prod(so); ++k) {
      Shape i = unravel(k, so);
      T m = a[v.m[ravel(bidx(i, v.s), v.s)]], n = a[w.m[ravel(bidx(i, w.s), w.s)]];
      e.push_back((T)(op == 0 ? m + n : op == 1 ? m - n : op == 2 ? m * n : m / n));
    }
    Tensor r = op == 0 ? p + q : op == 1 ? p - q : op == 2 ? p * q : p / q;
    expect<T>(r, so, e, "arithmetic on operands that share storage");
    sym_cover("alias");
  });
}
