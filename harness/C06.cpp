//@ entry: alias quick=150 thorough=1800
//@ entry: indep quick=150 thorough=1800
//@ entry: deep quick=150 thorough=1800
//@ entry: copies quick=150 thorough=900
//@ entry: huge quick=120 thorough=600
//@ cover: alias indep deep copies viewed huge
//@ bounds: chains of one or two (thorough: three) view operations out of seven slicings (forwards, backwards, with steps, indexing), transpose, detach and reshape of a contiguous tensor, over a 2x3 (thorough: also 3x3, 2x2x2 and 4) tensor; one in-place update of any of the tensors of the chain by any int32 values; copies by clone, contiguous, +0, type, cat; (entry deep) chains of three (thorough: four) views of a 2x2x3 and a 3x1x2x2 tensor; (entry copies) all six dtypes, shapes 2x2, 3 and scalar in 8 layouts, with and without requires_grad: 24 copying operations and 9 views, written through either side; (entry huge) bases of up to 300 elements or 7 dimensions, chains of two views
//@ outside: longer chains, larger tensors, updates whose right-hand side overlaps the target
//@ oracle: an explicit map from view positions to base positions; an update changes exactly the mapped elements
#include "h.h"
struct Step { Tensor t; View v; };
// apply one symbolically chosen view operation; contiguous says whether the source is laid out row by row
static bool viewOp(Tensor &t, const View &v, bool contiguous, Tensor &rt, View &rv) {
  int op = sym_choice(NSLICE + 3, "view");
  if (op < NSLICE) {
    std::string txt;
    std::vector<Fld> f;
    if (!slicing(op, v.s, txt, f)) return false;
    rt = t[txt];
    rv = vSlice(v, f);
    return true;
  }
  if (op == NSLICE) {
    if (v.s.size() < 2) return false;
    size_t a = 0, b = v.s.size() - 1;
    rt = t.transpose(a, b);
    rv = vTranspose(v, a, b);
    return true;
  }
  if (op == NSLICE + 1) {
    rt = t.detach();
    rv = v;
    return true;
  }
  if (!contiguous) return false;
  long long n = prod(v.s);
  rv.m = v.m;
  if (v.s.size() == 1 && n % 2 == 0) rv.s = Shape{2, (size_t)n / 2};
  else rv.s = Shape{(size_t)n};
  std::vector<long long> sv(rv.s.begin(), rv.s.end());
  rt = t.reshape(signedvec(sv));
  return true;
}
static Shape baseShape() {
  static const Shape S[] = {{2, 3}, {3, 3}, {2, 2, 2}, {4}};
  return S[sym_choice(TIER ? 4 : 1, "shape")];
}
static bool rowMajor(const View &v) {
  for (size_t k = 1; k < v.m.size(); ++k)
    if (v.m[k] != v.m[k - 1] + 1) return false;
  return true;
}
extern "C" void alias() {
  Shape s = baseShape();
  size_t n = prod(s);
  auto d = anyv<int32_t>(n, "x");
  std::vector<Tensor> ts;
  std::vector<View> vs;
  ts.push_back(mk<int32_t>(s, d));
  vs.push_back(whole(s));
  int len = 1 + sym_choice(2 + TIER, "len");
  for (int i = 0; i < len; ++i) {
    Tensor r;
    View v;
    sym_assume(viewOp(ts.back(), vs.back(), i == 0, r, v));
    ts.push_back(std::move(r));
    vs.push_back(v);
  }
  int w = sym_choice(len + 1, "written");
  size_t nw = vs[w].m.size();
  std::vector<int32_t> e(nw);
  if (sym_choice(2, "scalar")) {
    int32_t c = any<int32_t>("c");
    for (auto &x : e) x = c;
    ts[w] += Tensor(c);
  } else {
    e = anyv<int32_t>(nw, "c");
    Tensor rhs = mk<int32_t>(vs[w].s, e);
    ts[w] += rhs;
  }
  auto want = d;
  for (size_t k = 0; k < nw; ++k) want[vs[w].m[k]] = (int32_t)((uint32_t)want[vs[w].m[k]] + (uint32_t)e[k]);
  for (int i = 0; i <= len; ++i) {
    std::vector<int32_t> x;
    for (auto m : vs[i].m) x.push_back(want[m]);
    expect<int32_t>(ts[i], vs[i].s, x, "an in-place update is seen through every view, and changes nothing else");
  }
  sym_cover("alias");
}
extern "C" void indep() {
  Shape s = baseShape();
  auto d = anyv<int32_t>(prod(s), "x");
  Tensor t = mk<int32_t>(s, d), v;
  View vv;
  if (sym_choice(2, "viewed")) sym_assume(viewOp(t, whole(s), true, v, vv));
  else { v = t; vv = whole(s); }
  Tensor c;
  View cv = vv;
  bool wide = false;
  switch (sym_choice(7, "copy")) {
  case 0: c = v.clone(); break;
  case 1: c = v.contiguous(); break;
  case 2: c = v + Tensor((int32_t)0); break;
  case 3: c = v.type(i64); wide = true; break;
  case 4: {
    sym_assume(vv.s.size() >= 1);
    std::vector<Tensor> l;
    l.push_back(v[""]);
    c = Tensor::cat(l, 0);
    break;
  }
  case 5: c = v.clone().detach(); break;
  default: // reshape of something not laid out row by row, via clone
    c = v.clone().reshape(SignedVec{-1});
    cv.s = Shape{vv.m.size()};
  }
  std::vector<int32_t> x;
  for (auto m : vv.m) x.push_back(d[m]);
  int32_t e = any<int32_t>("e");
  if (sym_choice(2, "which")) { // write the source: the copy must not change
    if (sym_choice(2, "base")) t += Tensor(e);
    else v += Tensor(e);
    if (wide) {
      std::vector<int64_t> y(x.begin(), x.end());
      expect<int64_t>(c, cv.s, y, "a copy does not change when its source is written");
    } else
      expect<int32_t>(c, cv.s, x, "a copy does not change when its source is written");
  } else {
    c += Tensor(e);
    expect<int32_t>(t, s, d, "writing a copy does not change its source");
    expect<int32_t>(v, vv.s, x, "writing a copy does not change the view it was taken of");
  }
  sym_cover("indep");
}
extern "C" void deep() {
  Shape s = sym_choice(2, "shape") ? Shape{2, 2, 3} : Shape{3, 1, 2, 2};
  size_t n = prod(s);
  auto d = anyv<int32_t>(n, "x");
  std::vector<Tensor> ts;
  std::vector<View> vs;
  ts.push_back(mk<int32_t>(s, d));
  vs.push_back(whole(s));
  int len = 3 + TIER;
  static const int SL[] = {1, 2, 4, 6};
  for (int i = 0; i < len; ++i) {
    int op = sym_choice(7, "view");
    Tensor r;
    View v = vs.back();
    if (op < 4) {
      std::string txt;
      std::vector<Fld> f;
      bool ok = slicing(SL[op], v.s, txt, f);
      sym_assume(ok);
      r = ts.back()[txt];
      v = vSlice(v, f);
    } else if (op < 6) {
      sym_assume(v.s.size() >= 2);
      size_t a = op == 4 ? 0 : v.s.size() - 2, b = v.s.size() - 1;
      if (op == 5) sym_assume(v.s.size() >= 3);
      r = ts.back().transpose(a, b);
      v = vTranspose(v, a, b);
    } else {
      sym_assume(i == 0);
      v.s = {prod(v.s) / 2, 1, 2};
      r = ts.back().reshape(signedvec({-1, 1, 2}));
    }
    ts.push_back(std::move(r));
    vs.push_back(v);
  }
  int w = len - sym_choice(2, "written");
  int32_t c = any<int32_t>("c");
  ts[w] += Tensor(c);
  auto want = d;
  for (auto m : vs[w].m) want[m] = (int32_t)((uint32_t)want[m] + (uint32_t)c);
  for (int i = 0; i <= len; ++i) {
    std::vector<int32_t> x;
    for (auto m : vs[i].m) x.push_back(want[m]);
    expect<int32_t>(ts[i], vs[i].s, x, "an in-place update is seen through a longer chain of views, and changes nothing else");
  }
  sym_cover("deep");
}
// every kind of copy and view, for every dtype, with and without requires_grad
extern "C" void copies() {
  static const Shape S[] = {{2, 2}, {3}, {}};
  Shape s = S[sym_choice(3, "shape")];
  int k = sym_choice(6, "type"), var = TIER ? pickVar(s, "layout") : 0;
  bool rg = k >= 4 && sym_choice(2, "requires_grad");
  int op = sym_choice(33, "op");
  if (!TIER) { // one layout per operation and shape
    static const int V[] = {0, 1, 2, 3, 4, 5, 6, 7};
    var = V[(op + k) % 8];
    if (!varOk(var, s)) var = 4;
  }
  withType(k, [&](auto z) {
    using T = decltype(z);
    size_t n = prod(s);
    auto d = smallv<T>(n, -9, 9, "x");
    Tensor t = mkVar<T>(s, d, var, T(7)), c;
    if (rg) t.requires_grad(true);
    Tensor base = t.detach();
    View v = whole(s);
    std::vector<T> e = d; // the copy's elements
    bool isView = op >= 24;
    auto map = [&](auto f) { for (auto &x : e) x = (T)f(x); };
    switch (op) {
    case 0: c = t.clone(); break;
    case 1: if (t.is_contiguous()) return; c = t.contiguous(); break;
    case 2: c = t + Tensor((int8_t)0); break;
    case 3: c = t - Tensor((int8_t)0); break;
    case 4: c = t * Tensor((int8_t)1); break;
    case 5: c = t / Tensor((int8_t)1); break;
    case 6: c = Tensor((int8_t)0) + t; break;
    case 7: c = -t; map([](auto x) { return -x; }); break;
    case 8: c = t.abs(); map([](auto x) { return x < 0 ? -x : x; }); break;
    case 9: { if (s.empty()) return; std::vector<Tensor> l(1); l[0] = t; c = Tensor::cat(l, 0); break; }
    case 10: { if (s.empty()) return; std::vector<Tensor> l(1); l[0] = t; c = Tensor::cat(l, s.size() - 1); break; }
    case 11: c = t.detach().clone(); break;
    case 12: c = t.clone().detach(); break;
    case 13: { if (k >= 4 && rg) return; c = t.type((types)((k + 1) % 6)).type((types)k); if (k == 5) return; break; }
    case 14: c = Tensor::zeros_like(t) + t; break;
    case 15: c = Tensor::ones_like(t) * t; break;
    case 16: if (n != 1) return; c = t.max(); break;
    case 17: if (n != 1) return; c = t.min(); break;
    case 18: if (n != 1 || (k != 3 && k != 5)) return; c = t.sum(); break;
    case 19: if (n != 1 || (k != 3 && k != 5)) return; c = t.mean(); break;
    case 20: c = t + Tensor::zeros({1}, (types)k); if (s.empty()) return; break;
    case 21: c = Tensor::ones(t.size(), (types)k) * t; break;
    case 22: { Tensor u = t[""]; c = u.clone(); break; }
    case 23: { c = t.clone(); Tensor u = c.detach(); c = u[""]; break; }
    // views
    case 24: c = t[""]; break;
    case 25: c = t.detach(); break;
    case 26: if (s.size() < 2) return; c = t.transpose(0, 1); v = vTranspose(v, 0, 1); break;
    case 27: if (s.size() < 2) return; c = Tensor::transpose(t, 1, 0); v = vTranspose(v, 0, 1); break;
    case 28: if (!t.is_contiguous()) return; c = t.reshape(signedvec({-1})); v.s = {n}; break;
    case 29: if (!t.is_contiguous()) return; c = Tensor::reshape(t, signedvec({1, (long long)n})); v.s = {1, n}; break;
    case 30: { if (s.empty()) return; std::vector<Fld> f; for (auto x : s) f.push_back({false, 0, (long)x, 1}); f[0] = {false, (long)s[0] - 1, (long)s[0], -1}; c = t["::-1"]; v = vSlice(v, f); break; }
    case 31: { if (s.empty()) return; std::vector<Fld> f; for (auto x : s) f.push_back({false, 0, (long)x, 1}); f[0] = {true, 1, 0, 0}; c = t["1"]; v = vSlice(v, f); break; }
    default: { if (!t.is_contiguous()) return; c = t.reshape_as(Tensor::zeros({n, 1}, i8)); v.s = {n, 1}; break; }
    }
    if (isView) {
      e.clear();
      for (auto m : v.m) e.push_back(d[m]);
    }
    T q = (T)sym_range(1, 5, "q");
    Tensor cd = c.detach();
    if (sym_choice(2, "side")) {
      cd += Tensor(q);
      for (auto &x : e) x = (T)(x + q);
      if (isView) for (auto m : v.m) d[m] = (T)(d[m] + q);
    } else {
      base += Tensor(q);
      for (auto &x : d) x = (T)(x + q);
      if (isView) for (auto &x : e) x = (T)(x + q);
    }
    expect<T>(base, s, d, isView ? "a write to a view shows in its source" : "a write to a copy does not show in its source");
    if (isView || s.empty() || op >= 16) expect<T>(cd, isView ? v.s : shapeOf(cd), e, "a view shows writes to its source, a copy does not");
    else expect<T>(cd, s, e, "a copy does not show writes to its source");
    sym_cover(isView ? "viewed" : "copies");
  });
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  size_t n = prod(s);
  auto d = hugev<int32_t>(n, -9, 9, "x");
  Tensor t = mk<int32_t>(s, d), u, w;
  View v = whole(s), a, b;
  sym_assume(viewOp(t, v, true, u, a));
  sym_assume(viewOp(u, a, rowMajor(a) && a.s.size() == s.size(), w, b));
  sym_assume(!b.m.empty());
  int32_t q = sym_range(1, 1000, "q");
  int which = sym_choice(2, "written");
  (which ? w : t) += Tensor(q);
  auto e = d;
  if (which) for (auto m : b.m) e[m] += q;
  else for (auto &x : e) x += q;
  std::vector<int32_t> f, g;
  for (auto m : a.m) f.push_back(e[m]);
  for (auto m : b.m) g.push_back(e[m]);
  expect<int32_t>(t, s, e, "an update through a view of many elements");
  expect<int32_t>(u, a.s, f, "an update of many elements seen through a view");
  expect<int32_t>(w, b.s, g, "an update of many elements seen through a view of a view");
  sym_cover("huge");
}
