//@ entry: promote quick=100 thorough=600
//@ entry: cast_scalar quick=100 thorough=600
//@ entry: cast_tensor quick=100 thorough=900
//@ entry: cast_back quick=60 thorough=300
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ cover: promote scalar tensor castback large huge
//@ bounds: all 36 dtype pairs for arithmetic and cat; all 36 casts, every bit pattern of the source element (float to integer: values whose truncation is representable); tensors of 0 to 2 dimensions of size 0..2 (thorough 0..3) in 8 layouts; (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed
//@ outside: float to integer casts out of range (undefined in C++); larger tensors
//@ oracle: result dtype is the later of the two in i8<i16<i32<i64<f32<f64; cast elements are static_cast of the source elements
#include "h.h"
extern "C" void promote() {
  int op = sym_choice(5, "op"), lk = sym_choice(6, "ltype"), rk = sym_choice(6, "rtype");
  Shape s = pickShape(op == 4 ? 1 : 0, 1, 1, 2, "shape");
  withType(lk, [&](auto l) { withType(rk, [&](auto r) {
    using L = decltype(l); using R = decltype(r);
    using P = std::conditional_t<(DT<L>::v >= DT<R>::v), L, R>;
    size_t n = prod(s);
    auto a = smallv<L>(n, -8, 8, "a");
    std::vector<R> b;
    for (size_t k = 0; k < n; ++k) b.push_back(op == 3 ? R(2) : small<R>(-8, 8, "b"));
    Tensor ta = mk<L>(s, a), tb = mk<R>(s, b), t;
    std::vector<P> e;
    Shape rs = s;
    if (op == 4) {
      std::vector<Tensor> v;
      v.push_back(std::move(ta));
      v.push_back(std::move(tb));
      t = Tensor::cat(v, 0);
      rs[0] = 2 * s[0];
      for (auto x : a) e.push_back((P)x);
      for (auto x : b) e.push_back((P)x);
    } else {
      t = op == 0 ? ta + tb : op == 1 ? ta - tb : op == 2 ? ta * tb : ta / tb;
      for (size_t k = 0; k < n; ++k) e.push_back(op == 0 ? (P)((P)a[k] + (P)b[k]) : op == 1 ? (P)((P)a[k] - (P)b[k]) : op == 2 ? (P)((P)a[k] * (P)b[k]) : (P)((P)a[k] / (P)b[k]));
    }
    sym_assert(t.type() == DT<P>::v, "dtype of a mixed-dtype result");
    expect<P>(t, rs, e, "mixed-dtype operands are combined in the promoted dtype");
  }); });
  sym_cover("promote");
}
template <class T, class F> static void inRange(F x) { // assume the cast to T is defined
  if constexpr (isF<F> && !isF<T>) {
    sym_assume(x > (F)std::numeric_limits<T>::min() - (sizeof(T) < 4 ? (F)1 : (F)0) || x == (F)std::numeric_limits<T>::min());
    sym_assume(x < -(F)std::numeric_limits<T>::min());
  }
}
extern "C" void cast_scalar() {
  int fk = sym_choice(6, "from"), tk = sym_choice(6, "to");
  withType(fk, [&](auto f) { withType(tk, [&](auto t) {
    using F = decltype(f); using T = decltype(t);
    F x = any<F>("x");
    inRange<T>(x);
    Tensor a(x);
    Tensor b = a.type(DT<T>::v);
    sym_assert(b.type() == DT<T>::v && b.dim() == 0, "a cast yields the requested dtype and keeps the shape");
    sym_assert(is<T>(b, (T)x), "a cast converts the element like static_cast");
    sym_assert(a.type() == DT<F>::v && is<F>(a, x), "a cast leaves its operand alone");
  }); });
  sym_cover("scalar");
}
extern "C" void cast_tensor() {
  int fk = sym_choice(6, "from"), tk = sym_choice(6, "to");
  Shape s = pickShape(0, 2, 0, TIER ? 3 : 2, "shape");
  int v = pickVar(s, "layout");
  if (!TIER) sym_assume(v == (fk + tk) % NVAR || v == 5);
  withType(fk, [&](auto f) { withType(tk, [&](auto t) {
    using F = decltype(f); using T = decltype(t);
    auto d = smallv<F>(prod(s), -100, 100, "x");
    Tensor a = mkVar<F>(s, d, v);
    std::vector<T> e;
    for (auto x : d) e.push_back((T)x);
    expect<T>(a.type(DT<T>::v), s, e, "a cast converts every element of the view");
  }); });
  sym_cover("tensor");
}
// widening and back is the identity
extern "C" void cast_back() {
  int fk = sym_choice(6, "from"), tk = sym_choice(6, "to");
  static const int ok[6] = {0b111111, 0b111110, 0b101100, 0b001000, 0b110000, 0b100000};
  sym_assume(ok[fk] >> tk & 1);
  withType(fk, [&](auto f) { withType(tk, [&](auto t) {
    using F = decltype(f); using T = decltype(t);
    F x = any<F>("x");
    Tensor a(x);
    Tensor b = a.type(DT<T>::v);
    Tensor c = b.type(DT<F>::v);
    sym_assert(c.type() == DT<F>::v && is<F>(c, x), "casting to a dtype that represents every value and back changes nothing");
  }); });
  sym_cover("castback");
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int v = pickVar(s, "layout");
  static const int P[][2] = {{2, 5}, {5, 0}, {3, 4}, {4, 3}, {0, 1}, {1, 2}};
  int p = sym_choice(6, "types");
  if (!TIER) sym_assume(v != 1 && v != 3);
  withType(P[p][0], [&](auto f) { withType(P[p][1], [&](auto t) {
    using F = decltype(f); using T = decltype(t);
    auto d = smallv<F>(prod(s), -100, 100, "x");
    std::vector<T> e;
    for (auto x : d) e.push_back((T)x);
    expect<T>(mkVar<F>(s, d, v).type(DT<T>::v), s, e, "a cast converts every element of a larger tensor");
  }); });
  sym_cover("large");
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int v = pickHugeVar(s, "layout");
  static const int P[][2] = {{2, 5}, {5, 0}, {3, 4}, {0, 3}};
  int p = sym_choice(4, "types");
  withType(P[p][0], [&](auto f) { withType(P[p][1], [&](auto t) {
    using F = decltype(f); using T = decltype(t);
    auto d = hugev<F>(prod(s), -100, 100, "x");
    std::vector<T> e;
    for (auto x : d) e.push_back((T)x);
    expect<T>(mkVar<F>(s, d, v).type(DT<T>::v), s, e, "a cast converts every one of many elements");
  }); });
  sym_cover("huge");
}
