//@ entry: cmp_scalar quick=120 thorough=600
//@ entry: cmp_tensor quick=120 thorough=1200
//@ entry: all_any quick=120 thorough=1200
//@ entry: large quick=120 thorough=900
//@ entry: pairs quick=200 thorough=1200
//@ entry: huge quick=150 thorough=900
//@ entry: alias quick=120 thorough=600
//@ cover: scalar tensor all large pairs huge alias
//@ bounds: six comparisons, all 36 dtype pairs, every bit pattern (incl. NaN, infinities, -0, values not representable in the other dtype); tensors of 0 to 2 dimensions of size 0..2 (thorough: 0..3) in 8 layouts; all() on every dtype and bit pattern; (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); (entry pairs) every dtype pair with every pair of the 8 layouts on 2x2 and 3-element operands, small values; (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed; (entry alias) operands that share storage: every two of nine views of one 2x2 tensor (whole, reversed, transposed, rows, columns, reshaped, detached)
//@ outside: larger tensors
//@ oracle: the C++ comparison of the native element values; all(): no element equals zero (vacuously true when empty)
#include "h.h"
static Tensor cmp(int op, const Tensor &a, const Tensor &b) {
  switch (op) {
  case 0: return a < b;
  case 1: return a > b;
  case 2: return a <= b;
  case 3: return a >= b;
  case 4: return a == b;
  default: return a != b;
  }
}
template <class L, class R> static bool ref(int op, L a, R b) {
  switch (op) {
  case 0: return a < b;
  case 1: return a > b;
  case 2: return a <= b;
  case 3: return a >= b;
  case 4: return a == b;
  default: return a != b;
  }
}
// Truth value of a 0/1 tensor element, read through arithmetic and to integers:
// the comparison result must be an i8 tensor holding exactly 0 or 1.
static bool isBit(Tensor &x, bool v) {
  bool one = (x - Tensor(int8_t(1))).all(); // false iff the element is 1
  bool zero = x.all();                      // false iff the element is 0
  return v ? !one : !zero;
}
extern "C" void cmp_scalar() {
  int op = sym_choice(6, "op"), lk = sym_choice(6, "ltype"), rk = sym_choice(6, "rtype");
  withType(lk, [&](auto l) { withType(rk, [&](auto r) {
    using L = decltype(l); using R = decltype(r);
    L a = any<L>("a"); R b = any<R>("b");
    Tensor ta(a), tb(b);
    Tensor t = cmp(op, ta, tb);
    sym_assert(t.type() == i8 && t.dim() == 0, "a comparison yields an i8 tensor of the same shape");
    bool e = ref(op, a, b);
    sym_assert(isBit(t, e), "a comparison yields 1 exactly where the relation holds and 0 elsewhere");
  }); });
  sym_cover("scalar");
}
extern "C" void cmp_tensor() {
  int op = sym_choice(6, "op");
  static const int P[][2] = {{2, 2}, {5, 5}, {0, 4}, {3, 1}};
  int p = sym_choice(4, "types");
  Shape s = pickShape(0, 2, 0, TIER ? 3 : 2, "shape");
  int va = pickVar(s, "la"), vb = pickVar(s, "lb");
  if (!TIER) sym_assume(vb == 0 || vb == (va + 2) % NVAR);
  withType(P[p][0], [&](auto l) { withType(P[p][1], [&](auto r) {
    using L = decltype(l); using R = decltype(r);
    size_t n = prod(s);
    auto a = anyv<L>(n, "a"); auto b = anyv<R>(n, "b");
    Tensor ta = mkVar<L>(s, a, va), tb = mkVar<R>(s, b, vb);
    Tensor t = cmp(op, ta, tb);
    sym_assert(t.type() == i8 && shapeOf(t) == s, "a comparison yields an i8 tensor of the same shape");
    for (size_t k = 0; k < n; ++k) {
      Tensor e = at(t, unravel(k, s));
      sym_assert(isBit(e, ref(op, a[k], b[k])), "element of a comparison");
    }
  }); });
  sym_cover("tensor");
}
extern "C" void all_any() {
  int k = sym_choice(6, "type");
  Shape s = pickShape(0, TIER ? 3 : 2, 0, 2, "shape");
  int v = pickVar(s, "layout");
  withType(k, [&](auto l) {
    using T = decltype(l);
    size_t n = prod(s);
    auto a = anyv<T>(n, "a");
    Tensor t = mkVar<T>(s, a, v, T(sym_choice(2, "junk")));
    bool e = true;
    for (auto x : a) e = e & (x != 0);
    bool r = t.all();
    sym_assert(r == e, "all() is true exactly when no element is zero");
  });
  sym_cover("all");
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int op = sym_choice(7, "op"), v = pickVar(s, "layout");
  if (!TIER) sym_assume(v != 1 && v != 3);
  size_t n = prod(s);
  if (op == 6) {
    size_t hot = sym_choice(n, "hot");
    std::vector<int32_t> d(n, 256);
    d[hot] = any<int32_t>("x");
    sym_assert(mkVar<int32_t>(s, d, v, 0).all() == (d[hot] != 0), "all() of more elements");
  } else {
    auto a = anyv<int32_t>(n, "a"), b = anyv<int32_t>(n, "b");
    Tensor ta = mkVar<int32_t>(s, a, v), tb = mkVar<int32_t>(s, b, varOk(3, s) ? 3 : 0);
    Tensor t = cmp(op, ta, tb);
    sym_assert(t.type() == i8 && shapeOf(t) == s, "a comparison yields an i8 tensor of the same shape");
    for (size_t k = 0; k < n; ++k) {
      Tensor e = at(t, unravel(k, s));
      sym_assert(isBit(e, ref(op, a[k], b[k])), "element of a comparison of more elements");
    }
  }
  sym_cover("large");
}
extern "C" void pairs() {
  int lk = sym_choice(6, "ltype"), rk = sym_choice(6, "rtype"), op = sym_choice(6, "op");
  if (!TIER) sym_assume(op == (lk + 2 * rk) % 6 || lk == rk);
  Shape s = TIER && sym_choice(2, "shape") ? Shape{3} : Shape{2, 2};
  int va = pickVar(s, "la"), vb = pickVar(s, "lb");
  withType(lk, [&](auto l) { withType(rk, [&](auto r) {
    using L = decltype(l); using R = decltype(r);
    std::vector<L> a; std::vector<R> b; std::vector<int8_t> e;
    for (size_t k = 0; k < prod(s); ++k) {
      int64_t x = sym_range(-3, 3, "a"), y = sym_range(-3, 3, "b");
      a.push_back((L)x); b.push_back((R)y);
      e.push_back(ref(op, x, y));
    }
    Tensor ta = mkVar<L>(s, a, va), tb = mkVar<R>(s, b, vb);
    expect<int8_t>(cmp(op, ta, tb), s, e, "comparison for a pair of dtypes and layouts");
  }); });
  sym_cover("pairs");
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int op = sym_choice(7, "op"), v = pickHugeVar(s, "layout"), k = sym_choice(3, "type") * 2 + 1;
  withType(k, [&](auto z) {
    using T = decltype(z);
    size_t n = prod(s);
    auto a = hugev<T>(n, -9, 9, "a"), b = hugev<T>(n, -8, 8, "b");
    if (op == 6) {
      bool e = true;
      for (size_t i = 0; i < n; ++i) {
        if (i != 0 && i != n / 2 && i + 1 != n && a[i] == T(0)) a[i] = T(64);
        e = e & (a[i] != T(0));
      }
      sym_assert(mkVar<T>(s, a, v, T(0)).all() == e, "all() of many elements");
    } else {
      std::vector<int8_t> e;
      for (size_t i = 0; i < n; ++i) e.push_back(ref(op, a[i], b[i]));
      expect<int8_t>(cmp(op, mkVar<T>(s, a, v), mk<T>(s, b)), s, e, "comparison of many elements");
    }
  });
  sym_cover("huge");
}
// operands that are different views of one tensor
static Tensor viewNo(Tensor &a, int k, View &v) {
  View w = whole({2, 2});
  Fld all{false, 0, 2, 1}, rev{false, 1, 2, -1};
  switch (k) {
  case 0: { v = w; Tensor t; t = a; return t; }
  case 1: v = vSlice(w, {rev, all}); return a["::-1"];
  case 2: v = vSlice(w, {all, rev}); return a[":, ::-1"];
  case 3: v = vTranspose(w, 0, 1); return a.transpose(0, 1);
  case 4: v = w; return a.detach();
  case 5: v = vSlice(w, {Fld{true, 0, 0, 0}, all}); return a["0"];
  case 6: v = vSlice(w, {Fld{true, 1, 0, 0}, all}); return a["1"];
  case 7: v = vSlice(w, {all, Fld{false, 1, 1, 1}}); return a[":, 1:"];
  default: v = View{{4, 1}, w.m}; return a.reshape(signedvec({-1, 1}));
  }
}

extern "C" void alias() {
  int op = sym_choice(6, "op"), x = sym_choice(9, "x"), y = sym_choice(9, "y"), ty = TIER ? sym_choice(6, "type") : (op + x + y) % 6;
  withType(ty, [&](auto z) {
    using T = decltype(z);
    auto a = smallv<T>(4, -9, 9, "a");
    Tensor t = mkVar<T>({2, 2}, a, (x + y) % 6, T(7));
    View v, w;
    Tensor p = viewNo(t, x, v), q = viewNo(t, y, w);
    Shape so;
    if (!bcast(v.s, w.s, so)) return;
    std::vector<int8_t> e;
    for (size_t k = 0; k < prod(so); ++k) {
      Shape i = unravel(k, so);
      T m = a[v.m[ravel(bidx(i, v.s), v.s)]], n = a[w.m[ravel(bidx(i, w.s), w.s)]];
      e.push_back(op == 0 ? m < n : op == 1 ? m <= n : op == 2 ? m > n : op == 3 ? m >= n : op == 4 ? m == n : m != n);
    }
    Tensor r = op == 0 ? p < q : op == 1 ? p <= q : op == 2 ? p > q : op == 3 ? p >= q : op == 4 ? p == q : p != q;
    expect<int8_t>(r, so, e, "comparison of operands that share storage");
    sym_cover("alias");
  });
}
