//@ entry: histories quick=300 thorough=2400
//@ entry: retain quick=100 thorough=900
//@ entry: again quick=60 thorough=120 
//@ entry: large quick=120 thorough=900
//@ entry: separate quick=200 thorough=900
//@ entry: huge quick=150 thorough=900
//@ cover: prod lin sum rerun zero refuse freeze thaw retained dropped kept large other huge
//@ bounds: two 2-element leaves (f64, and f32, or f64 that is itself a stepped view with an offset, or a reversed view); every history of 4 (thorough: 5) steps out of: a backward pass over a fresh product, difference or sum graph, another pass over one kept root, zero_grad of either leaf, a refused backward, switching requires_grad of a leaf off and on; element values and weights: every integer in -2..2; retain_grad on any subset of three intermediate values; (entry large) a leaf of one of ten shapes up to 42 elements, in 8 layouts, over two passes with or without zero_grad in between; (entry separate) one of 15 operations on two 2-element leaves (f32, f64) with its result retained, then one of 7 events (zero_grad, another pass, in-place addition to a gradient) on one of the three tensors: the other two keep their gradients; (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed, over three passes with or without zero_grad, weights around 2^45
//@ outside: longer histories, other values
//@ oracle: the gradient of a leaf is the exact sum of the contributions of all passes since its last zero_grad, unaffected by anything else; an intermediate value keeps its gradient exactly if retain_grad is set
#include "grad.h"
struct Acc {
  Leaf l;
  std::vector<int64_t> g;
  bool has = false;
  void check(const char *m) {
    if (!has) sym_assert(noGrad(l.t), "no gradient before the first backward pass");
    else expectGrad(l, g, m);
  }
};
extern "C" void histories() {
  Acc a, b;
  a.l = leaf({2}, 5, 0, true, -2, 2, "a");
  int cfg = sym_choice(3, "b's layout");
  b.l = leaf({2}, cfg ? 5 : 4, cfg == 1 ? 2 : cfg == 2 ? 3 : 0, true, -2, 2, "b");
  a.g = b.g = {0, 0};
  Tensor root = a.l.t.sum();
  int len = TIER ? 5 : 4;
  for (int i = 0; i < len; ++i) {
    int op = sym_choice(i + 1 == len ? 4 : 9, "step");
    bool ra = a.l.t.requires_grad(), rb = b.l.t.requires_grad();
    std::vector<int64_t> w;
    switch (op) {
    case 0: { // fresh product
      Tensor r = a.l.t * b.l.t;
      sym_assume(ra || rb);
      Tensor l = weighted(r, w, -2, 2);
      l.backward();
      for (int k = 0; k < 2; ++k) {
        if (ra) a.g[k] += w[k] * b.l.v[k];
        if (rb) b.g[k] += w[k] * a.l.v[k];
      }
      a.has |= ra;
      b.has |= rb;
      sym_cover("prod");
      break;
    }
    case 1: { // fresh difference through a temporary
      sym_assume(ra || rb);
      Tensor l;
      {
        Tensor d = b.l.t - a.l.t, e = d + b.l.t;
        l = e.sum();
      }
      l.backward();
      for (int k = 0; k < 2; ++k) {
        if (ra) a.g[k] -= 1;
        if (rb) b.g[k] += 2;
      }
      a.has |= ra;
      b.has |= rb;
      sym_cover("lin");
      break;
    }
    case 2: { // fresh sum
      sym_assume(rb);
      b.l.t.sum().backward();
      for (auto &x : b.g) x += 1;
      b.has = true;
      sym_cover("sum");
      break;
    }
    case 3: // the kept root again
      root.backward();
      if (ra) {
        for (auto &x : a.g) x += 1;
        a.has = true;
      }
      sym_cover("rerun");
      break;
    case 4: a.l.t.zero_grad(); a.g = {0, 0}; sym_cover("zero"); break;
    case 5: b.l.t.zero_grad(); b.g = {0, 0}; break;
    case 6: {
      Tensor r = a.l.t + b.l.t, leafSum = Tensor(2.0);
      sym_assert(throwsRuntime([&] { r.backward(); }), "backward from several elements is refused");
      sym_assert(throwsRuntime([&] { leafSum.backward(); }), "backward from a constant is refused");
      sym_cover("refuse");
      break;
    }
    case 7: sym_assume(rb); b.l.t.requires_grad(false); sym_cover("freeze"); break;
    default: sym_assume(!rb); b.l.t.requires_grad(true); sym_cover("thaw");
    }
    a.check("gradient of the first leaf after a history");
    b.check("gradient of the second leaf after a history");
  }
}
extern "C" void retain() {
  Leaf a = leaf({2}, 5, 0, true, -2, 2, "a"), b = leaf({2}, 4, 0, true, -2, 2, "b");
  int keep = sym_choice(16, "keep"), off = sym_choice(2, "off");
  Tensor m = a.t * b.t;     // [2]
  Tensor n = m + m;         // [2]
  Tensor v = n["::-1"];     // [2]
  std::vector<int64_t> w = smallv<int64_t>(2, -2, 2, "w");
  Tensor p = v * tensorOf(5, {2}, w, 0);
  Tensor l = p.sum();
  Tensor *t[] = {&m, &n, &v, &l};
  for (int i = 0; i < 4; ++i) {
    sym_assert(!t[i]->retain_grad(), "retain_grad is off by default");
    if (keep >> i & 1) t[i]->retain_grad(true);
    else if (off) { t[i]->retain_grad(true); t[i]->retain_grad(false); }
    sym_assert(t[i]->retain_grad() == bool(keep >> i & 1), "retain_grad as set");
  }
  l.backward();
  std::vector<std::vector<double>> e = {{2.0 * w[1], 2.0 * w[0]}, {1.0 * w[1], 1.0 * w[0]}, {1.0 * w[0], 1.0 * w[1]}, {1.0}};
  for (int i = 0; i < 4; ++i) {
    if (keep >> i & 1) {
      Tensor g = t[i]->grad();
      expect<double>(g, i == 3 ? Shape{} : Shape{2}, e[i], "a retained gradient");
      sym_cover("retained");
    } else {
      sym_assert(noGrad(*t[i]), "a gradient that is not retained is dropped");
      sym_cover("dropped");
    }
  }
  sym_assert(noGrad(p), "a gradient that is not retained is dropped");
  expectGrad(a, {2 * w[1] * b.v[0], 2 * w[0] * b.v[1]}, "gradient of a leaf under retained values");
  expectGrad(b, {2 * w[1] * a.v[0], 2 * w[0] * a.v[1]}, "gradient of a leaf under retained values");
  sym_cover("kept");
}
// a second pass through an intermediate value (known finding)
extern "C" void again() {
  Leaf a = leaf({2}, 5, 0, true, -2, 2, "a");
  Tensor m = a.t.clone();
  m.sum().backward();
  expectGrad(a, {1, 1}, "gradient after the first pass");
  m.sum().backward();
  Tensor g = a.t.grad();
  sym_assert((g == Tensor(2.0)).all(), "[KF1] a second backward pass through an intermediate value adds its gradient");

}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int var = pickVar(s, "layout"), k = 4 + sym_choice(2, "type");
  Leaf a = leaf(s, k, var, true, 0, 0, "a");
  std::vector<int64_t> w, g(prod(s), 0);
  weighted(a.t, w, -2, 2).backward();
  g = w;
  expectGrad(a, g, "gradient of a larger leaf");
  if (sym_choice(2, "zero")) {
    a.t.zero_grad();
    for (auto &x : g) x = 0;
    expectGrad(a, g, "zero_grad clears every element");
  }
  weighted(a.t, w, -2, 2).backward();
  for (size_t i = 0; i < g.size(); ++i) g[i] += w[i];
  expectGrad(a, g, "accumulated gradient of a larger leaf");
  sym_cover("large");
}
// gradients of different tensors are separate: clearing, extending or changing
// one leaves the others as they are
extern "C" void separate() {
  int ka = 4 + sym_choice(2, "type of a"), kb = 4 + sym_choice(2, "type of b");
  Leaf a = leaf({2}, ka, 0, true, -2, 2, "a"), b = leaf({2}, kb, 0, true, -2, 2, "b");
  int op = sym_choice(15, "op");
  Tensor m;
  int64_t da = 1, db = 0; // dm[i]/da[i], dm[i]/db[i] where constant
  bool rev = false, mul = false;
  switch (op) {
  case 0: m = a.t.clone(); break;
  case 1: m = a.t.contiguous(); break;
  case 2: m = -a.t; da = -1; break;
  case 3: m = a.t[":"]; break;
  case 4: m = a.t["::-1"]; rev = true; break;
  case 5: m = a.t.reshape({2, 1}); break;
  case 6: m = a.t.reshape({1, 2}).transpose(0, 1); break;
  case 7: m = a.t.type(ka == 4 ? f64 : f32); break;
  case 8: m = a.t + b.t; db = 1; break;
  case 9: m = a.t - b.t; db = -1; break;
  case 10: m = a.t * b.t; mul = true; break;
  case 11: m = a.t + a.t; da = 2; break;
  case 12: m = a.t + Tensor::zeros({2}, f64); break;
  case 13: m = a.t * Tensor::ones({2}, f64); break;
  default: {
    std::vector<Tensor> v(1);
    v[0] = a.t;
    m = Tensor::cat(v, 0);
  }
  }
  m.retain_grad(true);
  std::vector<int64_t> w;
  weighted(m, w, -2, 2).backward();
  std::vector<int64_t> ga, gb, gm = w;
  for (int i = 0; i < 2; ++i) {
    int64_t u = w[rev ? 1 - i : i];
    ga.push_back(mul ? u * b.v[i] : u * da);
    gb.push_back(mul ? u * a.v[i] : u * db);
  }
  bool hasB = mul || db != 0;
  Leaf lm{shapeOf(m), {}, Tensor(), m.type() == f32 ? 4 : 5};
  lm.t = m;
  expectGrad(lm, gm, "the retained gradient");
  int ev = sym_choice(7, "event");
  switch (ev) {
  case 0: a.t.zero_grad(); ga = {0, 0}; break;
  case 1: sym_assume(hasB); b.t.zero_grad(); gb = {0, 0}; break;
  case 2: m.zero_grad(); gm = {0, 0}; break;
  case 3: a.t.sum().backward(); for (auto &x : ga) x += 1; break;
  case 4: b.t.sum().backward(); for (auto &x : gb) x += 1; hasB = true; break;
  case 5: { Tensor g = a.t.grad(); g += Tensor(3.0); for (auto &x : ga) x += 3; break; }
  default: { Tensor g = m.grad(); g += Tensor(3.0); for (auto &x : gm) x += 3; }
  }
  expectGrad(a, ga, "gradient of a leaf after an event elsewhere");
  if (hasB) expectGrad(b, gb, "gradient of the other leaf after an event elsewhere");
  else sym_assert(noGrad(b.t), "a leaf that was not used has no gradient");
  expectGrad(lm, gm, "retained gradient after an event elsewhere");
  sym_cover("other");
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int var = pickHugeVar(s, "layout");
  size_t n = prod(s);
  Leaf a{s, std::vector<int64_t>(n, 1), Tensor(), 5};
  a.t = tensorOf(5, s, a.v, var);
  a.t.requires_grad(true);
  std::vector<int64_t> g(n, 0);
  for (int p = 0; p < 3; ++p) {
    auto w = hugev<int64_t>(n, -3, 3, "w");
    for (auto &x : w) x += (1ll << 45) + 1; // gradients that need most of the significand
    (a.t * tensorOf(5, s, w, 0)).sum().backward();
    for (size_t i = 0; i < n; ++i) g[i] += w[i];
    if (p == 1 && sym_choice(2, "zero")) {
      a.t.zero_grad();
      g.assign(n, 0);
      expectGrad(a, g, "zero_grad clears every one of many elements");
    }
  }
  expectGrad(a, g, "accumulated gradient of many elements");
  sym_cover("huge");
}
