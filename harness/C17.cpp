//@ entry: chains quick=300 thorough=2400
//@ entry: several quick=200 thorough=1800
//@ entry: inner quick=150 thorough=1200
//@ entry: large quick=150 thorough=1800
//@ entry: huge quick=150 thorough=900
//@ cover: slice transpose reshape two inner overlap retained large huge
//@ bounds: bases of 1..3 dimensions with up to 6 elements (f32, f64), contiguous or themselves views; chains of 2 or 3 views out of 7 slicings, every transpose, flattening/reshaping; two views of one base (overlapping or not) and the base itself in one loss; views of an intermediate value; values and weights: every integer in -2..2; (entry large) bases of 12 elements in 1 to 4 dimensions, chains of two (thorough: three) views, f64 weights around 2^45; (entry huge) bases of up to 300 elements or 7 dimensions, chains of two views, f32 and f64
//@ outside: longer chains, larger tensors, other values
//@ oracle: the view's element map composed with the weights: each base element receives the sum of the weights of the view elements that alias it, everything else receives 0
#include "grad.h"
static bool stepView(Tensor &t, View &v, const char *nm) {
  int k = sym_choice(NSLICE + 5, nm);
  if (k < NSLICE) {
    std::string txt;
    std::vector<Fld> f;
    if (!slicing(k, v.s, txt, f)) return false;
    v = vSlice(v, f);
    Tensor u = t[txt];
    t = u;
    sym_cover("slice");
    return true;
  }
  k -= NSLICE;
  if (k < 3) {
    size_t a = k == 2 ? 1 : 0, b = k == 0 ? 1 : 2;
    if (v.s.size() <= b) return false;
    v = vTranspose(v, a, b);
    Tensor u = t.transpose(a, b);
    t = u;
    sym_cover("transpose");
    return true;
  }
  long long n = prod(v.s);
  if (k == 3) {
    v.s = {(size_t)n};
    Tensor u = t.reshape(signedvec({-1}));
    t = u;
  } else {
    if (n % 2) return false;
    v.s = {2, (size_t)n / 2};
    Tensor u = t.reshape(signedvec({2, n / 2}));
    t = u;
  }
  sym_cover("reshape");
  return true;
}
static Shape pickBase() {
  static const Shape S[] = {{2, 3}, {3}, {2, 1, 2}, {2, 2}, {3, 2}, {1, 2, 3}};
  return S[sym_choice(TIER ? 6 : 3, "base")];
}
extern "C" void chains() {
  Shape s = pickBase();
  static const int L[] = {0, 5, 1, 3};
  int var = L[sym_choice(TIER ? 4 : 2, "layout")], k = 4 + sym_choice(2, "type");
  sym_assume(varOk(var, s));
  Leaf a = leaf(s, k, var, true, -2, 2, "a");
  Tensor t;
  t = a.t;
  View v = whole(s);
  int n = TIER ? 3 : s.size() == 2 && s[1] == 3 ? 2 : 3;
  for (int i = 0; i < n; ++i) {
    bool ok = stepView(t, v, "view");
    sym_assume(ok);
  }
  sym_assert(shapeOf(t) == v.s && t.requires_grad(), "shape of a chain of views");
  if (v.m.empty()) return;
  std::vector<int64_t> w, g(prod(s), 0);
  Tensor l = weighted(t, w, -2, 2);
  l.backward();
  for (size_t i = 0; i < v.m.size(); ++i) g[v.m[i]] += w[i];
  expectGrad(a, g, "gradient through a chain of views");
}
// several uses of one base
extern "C" void several() {
  Shape s = sym_choice(2, "base") ? Shape{2, 2} : Shape{3};
  int var = sym_choice(2, "layout") ? (s.size() == 2 ? 5 : 3) : 0;
  Leaf a = leaf(s, 5, var, true, -2, 2, "a");
  Tensor t, u;
  t = a.t;
  u = a.t;
  View v = whole(s), x = whole(s);
  bool o1 = stepView(t, v, "view1");
  sym_assume(o1);
  bool o2 = stepView(u, x, "view2");
  sym_assume(o2);
  bool base = sym_choice(2, "useBase");
  std::vector<int64_t> w1, w2, w3, g(prod(s), 0);
  Tensor l1 = weighted(t, w1, -2, 2), l2 = weighted(u, w2, -2, 2);
  Tensor l = l1 + l2;
  if (base) {
    Tensor l3 = weighted(a.t, w3, -2, 2);
    Tensor q = l3 + l;
    l = q;
  }
  l.backward();
  for (size_t i = 0; i < v.m.size(); ++i) g[v.m[i]] += w1[i];
  for (size_t i = 0; i < x.m.size(); ++i) g[x.m[i]] += w2[i];
  for (size_t i = 0; i < w3.size(); ++i) g[i] += w3[i];
  expectGrad(a, g, "gradient of a base used through several views");
  sym_cover("two");
  for (auto p : v.m) for (auto q : x.m) if (p == q) { sym_cover("overlap"); return; }
}
// views of an intermediate value that is also used otherwise
extern "C" void inner() {
  Shape s = sym_choice(2, "base") ? Shape{2, 2} : Shape{3};
  Leaf a = leaf(s, 5, 0, true, -2, 2, "a");
  int how = sym_choice(4, "make"), keep = sym_choice(2, "retain");
  // an intermediate value, contiguous or itself a view
  Tensor m = how == 0 ? a.t + a.t : how == 1 ? a.t.clone() : how == 2 ? a.t["::-1"] : a.t * Tensor(3.0);
  if (keep) m.retain_grad(true);
  std::vector<size_t> map;
  for (size_t k = 0; k < prod(s); ++k) {
    Shape i = unravel(k, s);
    if (how == 2) i[0] = s[0] - 1 - i[0];
    map.push_back(ravel(i, s));
  }
  int64_t f = how == 0 ? 2 : how == 3 ? 3 : 1;
  Tensor t;
  t = m;
  View v = whole(s);
  int n = 1 + sym_choice(2, "depth");
  for (int i = 0; i < n; ++i) {
    bool ok = stepView(t, v, "view");
    sym_assume(ok);
  }
  bool also = sym_choice(2, "also");
  std::vector<int64_t> w, w2;
  Tensor l = weighted(t, w, -2, 2);
  if (also) {
    Tensor l2 = weighted(m, w2, -2, 2);
    Tensor q = sym_choice(2, "order") ? l + l2 : l2 + l;
    l = q;
  }
  l.backward();
  std::vector<int64_t> gm(prod(s), 0), g(prod(s), 0);
  for (size_t i = 0; i < v.m.size(); ++i) gm[v.m[i]] += w[i];
  for (size_t i = 0; i < w2.size(); ++i) gm[i] += w2[i];
  for (size_t i = 0; i < gm.size(); ++i) g[map[i]] += f * gm[i];
  expectGrad(a, g, "gradient through views of an intermediate value");
  if (keep) {
    std::vector<double> e;
    for (auto x : gm) e.push_back((double)x);
    Tensor gr = m.grad();
    expect<double>(gr, s, e, "retained gradient of a viewed value");
    sym_cover("retained");
  }
  sym_cover("inner");
}
extern "C" void large() {
  static const Shape S[] = {{12}, {4, 3}, {2, 3, 2}, {2, 1, 3, 2}};
  Shape s = S[sym_choice(4, "base")];
  int var = sym_choice(2, "layout") ? 4 : 0;
  Leaf a = leaf(s, sym_choice(2, "type") ? 4 : 5, var, true, 0, 0, "a");
  Tensor t;
  t = a.t;
  View v = whole(s);
  for (int i = 0; i < 2 + TIER; ++i) {
    bool ok = stepView(t, v, "view");
    sym_assume(ok);
  }
  if (v.m.empty()) return;
  std::vector<int64_t> w, g(prod(s), 0);
  int64_t W = a.k == 5 ? (1ll << 45) + 1 : 0; // gradients that need most of the significand
  Tensor l = weighted(t, w, W - 2, W + 2);
  l.backward();
  for (size_t i = 0; i < v.m.size(); ++i) g[v.m[i]] += w[i];
  expectGrad(a, g, "gradient through views of a larger base");
  sym_cover("large");
}
extern "C" void huge() {
  Shape s = pickHuge("base");
  size_t n = prod(s);
  Leaf a{s, std::vector<int64_t>(n, 2), Tensor(), 4 + (int)sym_choice(2, "type")};
  a.t = tensorOf(a.k, s, a.v, TIER ? pickHugeVar(s, "layout") : a.k == 4 ? 7 : 0);
  a.t.requires_grad(true);
  Tensor t;
  t = a.t;
  View v = whole(s);
  for (int i = 0; i < 2; ++i) {
    bool ok = stepView(t, v, "view");
    sym_assume(ok);
  }
  if (v.m.empty()) return;
  auto w = hugev<int64_t>(v.m.size(), -9, 9, "w");
  std::vector<int64_t> g(n, 0);
  (t * tensorOf(5, v.s, w, 0)).sum().backward();
  for (size_t i = 0; i < v.m.size(); ++i) g[v.m[i]] += w[i];
  expectGrad(a, g, "gradient through views of many elements");
  sym_cover("huge");
}
