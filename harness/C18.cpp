//@ entry: propagation quick=200 thorough=1800
//@ entry: guards quick=100 thorough=900
//@ entry: atomic quick=150 thorough=900
//@ entry: defaults quick=60 thorough=300
//@ cover: binary cmp unary viewed cat consts intcast inplace flag scalar def threw
//@ bounds: operations + - * / comparisons neg abs sum mean max min clone contiguous detach type reshape transpose slice cat on operands of up to 4 elements, f32/f64 (and integer constants), every combination of requires_grad; element values: every integer in -2..2 (divisors +-1, +-2)
//@ outside: larger tensors, other values
//@ oracle: the result requires grad exactly if an operand does (never for comparisons and detach); its values do not depend on requires_grad; refused calls raise runtime_error and change no value, flag or gradient, and a later backward pass is exact
#include "grad.h"
enum { NOP = 22 };
static bool binaryOp(int op) { return op < 10 || op == 21; }
static Tensor apply(int op, Tensor &a, Tensor &b) {
  switch (op) {
  case 0: return a + b;
  case 1: return a - b;
  case 2: return a * b;
  case 3: return a / b;
  case 4: return a < b;
  case 5: return a <= b;
  case 6: return a > b;
  case 7: return a >= b;
  case 8: return a == b;
  case 9: return a != b;
  case 10: return -a;
  case 11: return a.abs();
  case 12: return a.sum();
  case 13: return a.mean();
  case 14: return a.max();
  case 15: return a.min();
  case 16: return a.clone();
  case 17: return a.contiguous();
  case 18: return a.detach();
  case 19: return a.type(a.type() == f64 ? f32 : f64);
  case 20: {
    int k = sym_choice(3, "view");
    if (k == 0) return a["::-1"];
    if (k == 1) return a.reshape(signedvec({-1, 1}));
    Tensor r = a.reshape(signedvec({1, -1}));
    return r.transpose(0, 1);
  }
  default: {
    std::vector<Tensor> ts;
    ts.emplace_back(); ts.back() = a;
    ts.emplace_back(); ts.back() = b;
    return Tensor::cat(ts);
  }
  }
}
extern "C" void propagation() {
  int op = sym_choice(NOP, "op"), ra = sym_choice(2, "ra"), rb = binaryOp(op) ? sym_choice(2, "rb") : 0;
  Shape sa = {2}, sb = {2};
  int bc = op < 10 ? sym_choice(3, "shapes") : 0;
  if (bc == 1) sb = {};
  if (bc == 2) sa = {2, 1};
  int ka = 4 + sym_choice(2, "ka"), kb = binaryOp(op) ? 4 + sym_choice(2, "kb") : 5;
  if (binaryOp(op) && !rb && sym_choice(2, "int")) kb = 2;
  std::vector<int64_t> va = smallv<int64_t>(prod(sa), -2, 2, "a"), vb;
  for (size_t i = 0; i < prod(sb); ++i) {
    if (op == 3) { static const int D[] = {1, -2}; vb.push_back(D[sym_choice(2, "b")]); }
    else vb.push_back(sym_range(-2, 2, "b"));
  }
  Tensor a = tensorOf(ka, sa, va, 0), b = tensorOf(kb, sb, vb, 0);
  Tensor plain;
  { // the same without autograd; the choices inside apply() must agree
    if (op != 20) { Tensor p = apply(op, a, b); plain = p; }
  }
  if (ra) a.requires_grad(true);
  if (rb) b.requires_grad(true);
  Tensor r = apply(op, a, b);
  bool want = (op >= 4 && op < 10) || op == 18 ? false : ra || rb;
  sym_assert(r.requires_grad() == want, "requires_grad of a result");
  sym_assert(a.requires_grad() == bool(ra) && b.requires_grad() == bool(rb), "an operation leaves requires_grad of its operands alone");
  sym_assert(noGrad(a) && noGrad(b) && noGrad(r), "an operation creates no gradient");
  if (op != 20) {
    sym_assert(r.type() == plain.type() && shapeOf(r) == shapeOf(plain), "dtype and shape do not depend on requires_grad");
    Tensor rd = r.detach(), pd = plain.detach();
    sym_assert((rd == pd).all(), "values do not depend on requires_grad");
  }
  sym_cover(op < 4 ? "binary" : op < 10 ? "cmp" : op == 20 ? "viewed" : op == 21 ? "cat" : "unary");
  if (!ra && !rb) sym_cover("consts");
}
// refused calls: what they must not disturb
static void undisturbed(Leaf &a, const std::vector<int64_t> &g, bool rg) {
  sym_assert(a.t.requires_grad() == rg, "a refused call leaves requires_grad alone");
  withType(a.k, [&](auto z) {
    using T = decltype(z);
    Tensor d = a.t.detach();
    expect<T>(d, a.s, conv<T>(a.v), "a refused call leaves the values alone");
  });
  if (g.empty()) sym_assert(noGrad(a.t), "a refused call creates no gradient");
  else expectGrad(a, g, "a refused call leaves the gradient alone");
}
extern "C" void guards() {
  int what = sym_choice(8, "what"), had = sym_choice(2, "had");
  Leaf a = leaf({2}, 4 + sym_choice(2, "type"), 0, true, -2, 2, "a");
  std::vector<int64_t> g;
  if (had) {
    a.t.sum().backward();
    g = {1, 1};
  }
  Tensor m = a.t * a.t;
  bool keep = had && sym_choice(2, "retain");
  if (keep) { // m holds a gradient of its own
    m.retain_grad(true);
    m.sum().backward();
    for (int i = 0; i < 2; ++i) g[i] += 2 * a.v[i];
  }
  bool threw;
  switch (what) {
  case 0: threw = throwsRuntime([&] { a.t.backward(); }); sym_cover("scalar"); break;
  case 1: threw = throwsRuntime([&] { m.backward(); }); break;
  case 2: threw = throwsRuntime([&] { a.t += Tensor(1.0); }); sym_cover("inplace"); break;
  case 3: threw = throwsRuntime([&] { m += a.t; }); break;
  case 4: {
    types t = (types)sym_choice(4, "to");
    threw = throwsRuntime([&] { a.t.type(t); });
    sym_cover("intcast");
    break;
  }
  case 5: {
    Tensor i = tensorOf(sym_choice(4, "itype"), {2}, {1, 2}, 0);
    threw = throwsRuntime([&] { i.requires_grad(true); });
    sym_assert(!i.requires_grad(), "an integer tensor never requires grad");
    sym_cover("flag");
    break;
  }
  case 6: {
    Tensor s(1.5);
    s.requires_grad(true);
    threw = throwsRuntime([&] { s.backward(); }); // a leaf
    break;
  }
  default: {
    Tensor d = m.detach().sum();
    threw = throwsRuntime([&] { d.backward(); });
  }
  }
  sym_assert(threw, "a meaningless autograd call raises runtime_error");
  undisturbed(a, g, true);
  sym_assert(m.requires_grad() && m.retain_grad() == keep, "a refused call leaves the flags alone");
  if (keep) {
    Leaf lm{{2}, {}, Tensor(), a.k};
    lm.t = m;
    expectGrad(lm, {1, 1}, "a refused call leaves a retained gradient alone");
  }
  else sym_assert(noGrad(m), "a refused call creates no gradient");
  if (keep) (a.t * a.t).sum().backward(); // a fresh graph: m has had its pass
  else m.sum().backward();
  if (g.empty()) g = {0, 0};
  for (int i = 0; i < 2; ++i) g[i] += 2 * a.v[i];
  expectGrad(a, g, "backward after a refused call");
  sym_cover("threw");
}
// operations that raise an error in the middle of a computation
extern "C" void atomic() {
  int what = sym_choice(8, "what");
  Leaf a = leaf({2}, 5, 0, true, -2, 2, "a"), b = leaf({3}, 4, 0, true, -2, 2, "b");
  Tensor m = a.t + a.t;
  bool threw = throws([&] {
    switch (what) {
    case 0: m + b.t; break;
    case 1: b.t * m; break;
    case 2: m / b.t; break;
    case 3: m["2"]; break;
    case 4: m.reshape(signedvec({3})); break;
    case 5: m.transpose(0, 1); break;
    case 6: {
      std::vector<Tensor> ts;
      ts.emplace_back(); ts.back() = m;
      ts.emplace_back(); ts.back() = Tensor(1.0);
      Tensor::cat(ts);
      break;
    }
    default: m < b.t;
    }
  });
  sym_assert(threw, "an impossible operation raises an error");
  undisturbed(a, {}, true);
  undisturbed(b, {}, true);
  std::vector<int64_t> w;
  Tensor l = weighted(m, w, -2, 2);
  l.backward();
  expectGrad(a, {2 * w[0], 2 * w[1]}, "backward after a failed operation");
  sym_assert(noGrad(b.t), "a failed operation leaves no trace in the graph");
}
extern "C" void defaults() {
  Shape s = {2};
  int k = sym_choice(6, "type"), how = sym_choice(6, "how");
  Tensor src = Tensor::ones(sizevec(s), f64);
  src.requires_grad(true);
  Tensor t = how == 0 ? Tensor::zeros(sizevec(s), (types)k) : how == 1 ? tensorOf(k, s, {1, 2}, 0) : how == 2 ? Tensor::zeros_like(src) : how == 3 ? Tensor::ones_like(src) : how == 4 ? Tensor::full(sizevec(s), 1.0, (types)k) : Tensor(2.5);
  sym_assert(!t.requires_grad() && !t.retain_grad() && noGrad(t), "a new tensor takes no part in autograd");
  if (t.type() == f32 || t.type() == f64) {
    t.requires_grad(true);
    sym_assert(t.requires_grad() && noGrad(t), "requires_grad can be switched on");
    t.requires_grad(false);
    sym_assert(!t.requires_grad(), "requires_grad can be switched off");
  } else {
    t.requires_grad(false);
    sym_assert(!t.requires_grad(), "requires_grad(false) is harmless");
  }
  t.zero_grad();
  sym_assert(noGrad(t), "zero_grad without a gradient does nothing");
  sym_cover("def");
}
