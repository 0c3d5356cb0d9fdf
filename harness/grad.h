// Helpers for the autograd harnesses: leaves with small integer values, and a
// weighted sum as the loss, so that the gradient arriving at the operation
// under test is an arbitrary (symbolic) tensor.
#pragma once
#include "h.h"
struct Leaf {
  Shape s;
  std::vector<int64_t> v;
  Tensor t;
  int k; // dtype number
};
template <class T> std::vector<T> conv(const std::vector<int64_t> &v) {
  std::vector<T> r;
  for (auto x : v) r.push_back((T)x);
  return r;
}
inline Tensor tensorOf(int k, const Shape &s, const std::vector<int64_t> &v, int var) {
  Tensor t;
  withType(k, [&](auto z) {
    using T = decltype(z);
    t = mkVar<T>(s, conv<T>(v), var, T(7));
  });
  return t;
}
inline Leaf leaf(const Shape &s, int k, int var, bool rg, int lo, int hi, const char *n) {
  Leaf l{s, smallv<int64_t>(prod(s), lo, hi, n), Tensor(), k};
  l.t = tensorOf(k, s, l.v, var);
  if (rg) l.t.requires_grad(true);
  return l;
}
// (t * w).sum() for fresh symbolic weights w of t's shape
inline Tensor weighted(const Tensor &t, std::vector<int64_t> &w, int64_t lo = -3, int64_t hi = 3, int k = 5) {
  Shape s = shapeOf(t);
  w = smallv<int64_t>(prod(s), lo, hi, "w");
  Tensor wt = tensorOf(k, s, w, 0);
  Tensor m = t * wt;
  return m.sum();
}
inline void expectGrad(const Leaf &l, const std::vector<int64_t> &g, const char *msg, int den = 1) {
  Tensor t = l.t.grad();
  withType(l.k, [&](auto z) {
    using T = decltype(z);
    std::vector<T> e;
    for (auto x : g) e.push_back((T)x * (T)(1.0 / den));
    expect<T>(t, l.s, e, msg);
  });
}
inline bool noGrad(const Tensor &t) { return t.grad().to_string() == "[]"; }
