//@ entry: values quick=150 thorough=1800
//@ entry: types2 quick=120 thorough=1200
//@ entry: errors quick=60 thorough=600
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ entry: alias quick=120 thorough=600
//@ cover: values many types err errdim errempty large huge alias
//@ bounds: one to three tensors of 1..3 dimensions with sizes 0..2 (thorough: 0..3), every dimension, 6 memory layouts, all 36 dtype pairs, the same tensor several times; every integer element value, every f32/f64 bit pattern; out-of-range dimension: every 64-bit value; (entry large) four or five tensors of up to 4 dimensions with up to 7 along the dimension; (entry huge) two or three inputs of up to 200 elements in the concatenated dimension, or 6 dimensions; (entry alias) two or three out of eight views of one 2x2 tensor that share storage, along either dimension
//@ outside: more than three tensors, larger tensors
//@ oracle: element (.., j, ..) of the result is element (.., j - offset, ..) of the tensor whose range along the dimension contains j, converted to the largest dtype; shape mismatch, dimension out of range and an empty list raise runtime_error
#include "h.h"
template <class T> static void app(std::vector<Tensor> &l, Tensor &t) { l.push_back(t[""]); }
template <class P> struct Part { Shape s; std::vector<P> d; };
template <class P> static void check(Tensor &r, const std::vector<Part<P>> &ps, size_t dim) {
  Shape s = ps[0].s;
  s[dim] = 0;
  for (auto &p : ps) s[dim] += p.s[dim];
  std::vector<P> x;
  for (size_t k = 0; k < prod(s); ++k) {
    Shape i = unravel(k, s);
    size_t q = 0;
    while (i[dim] >= ps[q].s[dim]) i[dim] -= ps[q++].s[dim];
    x.push_back(ps[q].d[ravel(i, ps[q].s)]);
  }
  expect<P>(r, s, x, "cat places the tensors one after the other along the dimension");
}
extern "C" void values() {
  Shape s = pickShape(1, TIER ? 3 : 2, 1, 2, "shape");
  size_t dim = sym_choice(s.size(), "dim");
  int n = 1 + sym_choice(3, "n");
  std::vector<Tensor> l;
  std::vector<Part<int32_t>> ps;
  bool lay = true;
  for (int i = 0; i < n; ++i) {
    if (i == 1 && sym_choice(2, "again")) { // the first tensor again
      l.push_back(l[0][""]);
      ps.push_back(ps[0]);
      continue;
    }
    Shape q = s;
    q[dim] = sym_choice(TIER ? 4 : 3, "along");
    int var = lay && i < 2 ? pickVar(q, "layout", i == 0 || TIER ? (int)NVAR : 3) : 0;
    auto d = anyv<int32_t>(prod(q), "x");
    l.push_back(mkVar<int32_t>(q, d, var));
    ps.push_back({q, d});
  }
  Tensor r = Tensor::cat(l, dim);
  check<int32_t>(r, ps, dim);
  for (int i = 0; i < n; ++i) expect<int32_t>(l[i], ps[i].s, ps[i].d, "cat leaves its inputs alone");
  sym_cover("values");
  if (n == 3) sym_cover("many");
}
extern "C" void types2() {
  int lk = sym_choice(6, "ltype"), rk = sym_choice(6, "rtype");
  size_t dim = sym_choice(2, "dim");
  Shape s{1, 2}, q{1, 2};
  if (dim == 0) q[0] = 2; else q[1] = 1;
  int var = sym_choice(2, "layout") * 5;
  withType(lk, [&](auto a) { withType(rk, [&](auto b) {
    using L = decltype(a); using R = decltype(b);
    using P = std::conditional_t<(DT<L>::v >= DT<R>::v), L, R>;
    auto x = anyv<L>(2, "x"); auto y = anyv<R>(prod(q), "y");
    std::vector<Tensor> l;
    l.push_back(mkVar<L>(s, x, var, L(3)));
    l.push_back(mkVar<R>(q, y, var, R(3)));
    std::vector<Part<P>> ps{{s, {}}, {q, {}}};
    for (auto v : x) ps[0].d.push_back((P)v);
    for (auto v : y) ps[1].d.push_back((P)v);
    Tensor r = dim == 0 && sym_choice(2, "default") ? Tensor::cat(l) : Tensor::cat(l, dim);
    check<P>(r, ps, dim);
    sym_cover("types");
  }); });
}
extern "C" void errors() {
  sym_opaque_text(true);
  int kind = sym_choice(3, "kind");
  if (kind == 0) {
    std::vector<Tensor> l;
    size_t dim = any<int64_t>("dim");
    sym_assert(throws([&] { Tensor::cat(l, dim); }), "cat of nothing is rejected");
    sym_cover("errempty");
    return;
  }
  Shape a = pickShape(0, 2, 1, TIER ? 3 : 2, "a");
  std::vector<Tensor> l;
  l.push_back(mk<int32_t>(a, smallv<int32_t>(prod(a), 0, 9, "x")));
  if (kind == 1) {
    size_t dim = any<int64_t>("dim");
    sym_assume(dim >= a.size());
    if (sym_choice(2, "two")) l.push_back(l[0][""]);
    sym_assert(throwsRuntime([&] { Tensor::cat(l, dim); }), "cat rejects a dimension out of range");
    sym_cover("errdim");
    return;
  }
  Shape b = pickShape(0, 3, 0, TIER ? 3 : 2, "b");
  sym_assume(a.size() > 0);
  size_t dim = sym_choice(a.size(), "dim");
  bool ok = a.size() == b.size();
  for (size_t i = 0; ok && i < a.size(); ++i) ok = i == dim || a[i] == b[i];
  sym_assume(!ok);
  if (sym_choice(2, "third")) l.push_back(l[0][""]);
  l.push_back(mk<int32_t>(b, smallv<int32_t>(prod(b), 0, 9, "y")));
  sym_assert(throwsRuntime([&] { Tensor::cat(l, dim); }), "cat rejects tensors whose other sizes differ");
  sym_cover("err");
}
extern "C" void large() {
  static const Shape S[] = {{1}, {3, 2}, {2, 1, 2}, {2, 2, 1, 2}};
  Shape s = S[sym_choice(4, "shape")];
  size_t dim = sym_choice(s.size(), "dim");
  int n = 4 + sym_choice(2, "n"), rot = sym_choice(4, "sizes"), lay = sym_choice(3, "layout");
  static const int A[] = {2, 0, 7, 1, 3, 1, 0, 4};
  std::vector<Tensor> l;
  std::vector<Part<int32_t>> ps;
  for (int i = 0; i < n; ++i) {
    Shape q = s;
    q[dim] = A[(i + 2 * rot) % 8];
    int var = lay == 0 ? 0 : lay == 1 ? (q.size() >= 2 ? 5 : 2) : 4;
    auto d = anyv<int32_t>(prod(q), "x");
    l.push_back(mkVar<int32_t>(q, d, var));
    ps.push_back({q, d});
  }
  Tensor r = Tensor::cat(l, dim);
  check<int32_t>(r, ps, dim);
  // the dtype is decided by all inputs
  int big = sym_choice(n, "big");
  std::vector<Tensor> m;
  std::vector<Part<double>> pd;
  for (int i = 0; i < n; ++i) {
    if (i == big) { m.push_back(mk<double>(ps[i].s, std::vector<double>(prod(ps[i].s), 2.5))); pd.push_back({ps[i].s, std::vector<double>(prod(ps[i].s), 2.5)}); }
    else if (i % 2) { m.push_back(mk<int8_t>(ps[i].s, std::vector<int8_t>(prod(ps[i].s), -3))); pd.push_back({ps[i].s, std::vector<double>(prod(ps[i].s), -3)}); }
    else { m.push_back(mk<int64_t>(ps[i].s, std::vector<int64_t>(prod(ps[i].s), 1000000))); pd.push_back({ps[i].s, std::vector<double>(prod(ps[i].s), 1000000)}); }
  }
  Tensor u = Tensor::cat(m, dim);
  check<double>(u, pd, dim);
  sym_cover("large");
}
extern "C" void huge() {
  static const Shape S[] = {{1}, {2, 2}, {1, 2, 1, 1, 2, 1}};
  Shape s = S[sym_choice(3, "shape")];
  size_t dim = sym_choice(s.size(), "dim");
  static const int A[][3] = {{200, 100, 3}, {3, 130, 0}, {127, 1, 129}};
  int z = sym_choice(3, "sizes"), n = 2 + sym_choice(2, "n"), lay = sym_choice(2, "layout");
  std::vector<Tensor> l;
  std::vector<Part<int32_t>> ps;
  for (int i = 0; i < n; ++i) {
    Shape q = s;
    q[dim] = s.size() > 2 ? A[z][i] % 5 : A[z][i];
    auto d = prod(q) ? hugev<int32_t>(prod(q), -99, 99, "x") : std::vector<int32_t>{};
    l.push_back(mkVar<int32_t>(q, d, lay ? 7 : 0));
    ps.push_back({q, d});
  }
  Tensor r = Tensor::cat(l, dim);
  check<int32_t>(r, ps, dim);
  sym_cover("huge");
}
// operands that are different views of one tensor
static Tensor viewNo(Tensor &a, int k, View &v) {
  View w = whole({2, 2});
  Fld all{false, 0, 2, 1}, rev{false, 1, 2, -1};
  switch (k) {
  case 0: { v = w; Tensor t; t = a; return t; }
  case 1: v = vSlice(w, {rev, all}); return a["::-1"];
  case 2: v = vSlice(w, {all, rev}); return a[":, ::-1"];
  case 3: v = vTranspose(w, 0, 1); return a.transpose(0, 1);
  case 4: v = w; return a.detach();
  case 5: v = vSlice(w, {Fld{true, 0, 0, 0}, all}); return a["0"];
  case 6: v = vSlice(w, {Fld{true, 1, 0, 0}, all}); return a["1"];
  case 7: v = vSlice(w, {all, Fld{false, 1, 1, 1}}); return a[":, 1:"];
  default: v = View{{4, 1}, w.m}; return a.reshape(signedvec({-1, 1}));
  }
}

extern "C" void alias() {
  int n = 2 + sym_choice(2, "n"), d = sym_choice(2, "dim"), ty = TIER ? sym_choice(6, "type") : 3;
  withType(ty, [&](auto z) {
    using T = decltype(z);
    auto a = smallv<T>(4, -9, 9, "a");
    Tensor t = mkVar<T>({2, 2}, a, d ? 5 : 0, T(7));
    std::vector<Tensor> ts(n);
    std::vector<View> vs(n);
    static const int K[] = {0, 1, 2, 3, 4, 7};
    for (int i = 0; i < n; ++i) {
      Tensor u = viewNo(t, K[sym_choice(6, "view")], vs[i]);
      ts[i] = u;
      if (d == 0 && vs[i].s[1] != vs[0].s[1]) return;
    }
    Shape so = vs[0].s;
    for (int i = 1; i < n; ++i) so[d] += vs[i].s[d];
    std::vector<T> e;
    for (size_t k = 0; k < prod(so); ++k) {
      Shape i = unravel(k, so);
      int m = 0;
      while (i[d] >= vs[m].s[d]) i[d] -= vs[m++].s[d];
      e.push_back(a[vs[m].m[ravel(i, vs[m].s)]]);
    }
    expect<T>(Tensor::cat(ts, d), so, e, "cat of tensors that share storage");
    sym_cover("alias");
  });
}
