//@ entry: normal quick=100 thorough=600
//@ entry: integer quick=60 thorough=300
//@ entry: large quick=120 thorough=900
//@ entry: dims quick=150 thorough=900
//@ entry: huge quick=120 thorough=600
//@ cover: normal like int large dims huge
//@ bounds: shapes of 0..3 dimensions with sizes 0..3 and up to 6 (thorough: 12) elements, f32 and f64, randn and randn_like of tensors in 8 memory layouts, all integer dtypes; every sequence of distinct finite draws (f64: float-representable; the first 24 of a run symbolic, later ones fixed); (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); (entry dims) shapes of 6, 7 and 8 dimensions; (entry huge) 130 to 300 elements, each compared with its predecessors at distances 1, 2, 4 .. 256
//@ outside: the distribution itself (a statistical statement)
//@ oracle: requested shape and dtype, contiguous, no grad, every element holds a finite draw and no two hold the same one; integer dtypes raise runtime_error
//@ assume: std::normal_distribution returns finite numbers; in the symbolic run they are symbolic and distinct
#include "h.h"
template <class T> static void check(Tensor &t, const Shape &s) {
  size_t n = prod(s);
  sym_assert(shapeOf(t) == s && t.type() == DT<T>::v && t.numel() == n, "shape and dtype of randn");
  sym_assert(t.is_contiguous() && !t.requires_grad(), "randn returns a fresh contiguous tensor");
  std::vector<Tensor> e;
  for (size_t k = 0; k < n; ++k) {
    e.push_back(at(t, unravel(k, s)));
    sym_assert((e[k] == e[k]).all() && (e[k].abs() <= Tensor(std::numeric_limits<T>::max())).all(), "every element of randn is a finite number");
    for (size_t j = 0; j < k; ++j) sym_assert((e[k] != e[j]).all(), "every element of randn is drawn");
  }
}
extern "C" void normal() {
  Shape s = pickShape(0, 3, 0, 3, "shape");
  sym_assume(prod(s) <= (TIER ? 12 : 6));
  withType(4 + sym_choice(2, "type"), [&](auto z) {
    using T = decltype(z);
    if constexpr (isF<T>) {
      if (sym_choice(2, "like")) {
        int var = pickVar(s, "layout");
        std::vector<T> d(prod(s), T(5));
        Tensor t = mkVar<T>(s, d, var);
        Tensor r = Tensor::randn_like(t);
        check<T>(r, s);
        expect<T>(t, s, d, "randn_like leaves its argument alone");
        sym_cover("like");
      } else {
        Tensor r = Tensor::randn(sizevec(s), DT<T>::v);
        check<T>(r, s);
        if (prod(s)) {
          Tensor q = Tensor::randn(sizevec(s), DT<T>::v);
          sym_assert((q != r).all(), "two calls of randn draw different numbers");
        }
        sym_cover("normal");
      }
    }
  });
}
extern "C" void integer() {
  Shape s = pickShape(0, 2, 0, 2, "shape");
  types t = (types)sym_choice(4, "type");
  if (sym_choice(2, "like")) {
    Tensor x = Tensor::zeros(sizevec(s), t);
    sym_assert(throwsRuntime([&] { Tensor::randn_like(x); }), "randn_like of an integer tensor is rejected");
  } else
    sym_assert(throwsRuntime([&] { Tensor::randn(sizevec(s), t); }), "randn of an integer dtype is rejected");
  sym_cover("int");
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  if (sym_choice(2, "type")) { Tensor r = Tensor::randn(sizevec(s), f64); check<double>(r, s); }
  else { Tensor r = Tensor::randn(sizevec(s), f32); check<float>(r, s); }
  sym_cover("large");
}
extern "C" void dims() {
  static const Shape S[] = {{2, 1, 1, 2, 1, 2}, {1, 2, 1, 1, 1, 1, 3}, {1, 1, 1, 1, 1, 1, 1, 5}, {11, 1}};
  Shape s = S[sym_choice(4, "shape")];
  if (sym_choice(2, "type")) { Tensor r = Tensor::randn(sizevec(s), f64); check<double>(r, s); }
  else { Tensor r = Tensor::randn(sizevec(s), f32); check<float>(r, s); }
  sym_cover("dims");
}
extern "C" void huge() {
  static const Shape S[] = {{130}, {2, 65}, {257}, {300}};
  Shape s = S[sym_choice(TIER ? 4 : 2, "shape")];
  int ty = sym_choice(2, "type");
  Tensor t = Tensor::randn(sizevec(s), ty ? f64 : f32);
  sym_assert(shapeOf(t) == s && t.type() == (ty ? f64 : f32), "shape and dtype of randn");
  std::vector<Tensor> e;
  for (size_t k = 0; k < prod(s); ++k) {
    e.push_back(at(t, unravel(k, s)));
    sym_assert((e[k] == e[k]).all(), "every one of many elements of randn is a number");
    for (size_t j = 1; j <= k; j *= 2) sym_assert((e[k] != e[k - j]).all(), "every one of many elements of randn is drawn");
    if (k) sym_assert((e[k] != e[0]).all(), "every one of many elements of randn is drawn");
  }
  sym_cover("huge");
}
