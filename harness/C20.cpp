//@ entry: forward quick=200 thorough=1800
//@ entry: backward quick=200 thorough=1800
//@ entry: flags quick=100 thorough=600
//@ entry: around quick=100 thorough=600
//@ cover: arith cmp reduce copy viewed back flags kept around
//@ bounds: operations + - * / comparisons neg abs sum mean max min all clone contiguous detach type slice transpose reshape reshape_as cat zeros_like ones_like to_string; operands of up to 4 elements in 8 memory layouts, all dtypes for the forward pass (values: every bit pattern; divisors and casts of floats to integers: small integers), also the same tensor twice; f32/f64 for the backward pass; (entry flags) f32 and f64 operands with every combination of requires_grad, retain_grad and an existing gradient; (entry around) the second operand broadcast (scalar, row or column) or the operand a view whose surrounding storage is watched, all 27 operations
//@ outside: larger tensors; in-place addition (C21)
//@ oracle: after the call each operand has its old dtype, shape, strides, flags and, bit for bit, values; the storage around a view is untouched too
#include "grad.h"
enum { NF = 27 };
template <class A, class B> static void run(int op, Tensor &a, Tensor &b) {
  switch (op) {
  case 0: a + b; break;
  case 1: a - b; break;
  case 2: a * b; break;
  case 3: a / b; break;
  case 4: a < b; break;
  case 5: a <= b; break;
  case 6: a > b; break;
  case 7: a >= b; break;
  case 8: a == b; break;
  case 9: a != b; break;
  case 10: { std::vector<Tensor> l; l.emplace_back(); l.back() = a; l.emplace_back(); l.back() = b; Tensor::cat(l); break; }
  case 11: -a; break;
  case 12: a.abs(); break;
  case 13: a.sum(); break;
  case 14: a.mean(); break;
  case 15: a.max(); break;
  case 16: a.min(); break;
  case 17: a.all(); break;
  case 18: a.clone(); break;
  case 19: a.contiguous(); break;
  case 20: a.detach(); break;
  case 21: a.type(f64); break;
  case 22: a.type(i16); break;
  case 23: a["::-1"]; break;
  case 24: a.reshape(signedvec({-1})); a.reshape_as(b); break;
  case 25: Tensor::zeros_like(a); Tensor::ones_like(a); break;
  default: if (a.dim() >= 2) a.transpose(0, 1); else +a;
  }
}
extern "C" void forward() {
  int op = sym_choice(NF, "op");
  bool bin = op <= 10 || op == 24;
  Shape s = sym_choice(2, "shape") ? Shape{2, 2} : Shape{3};
  int ka = sym_choice(6, "ka"), kb = bin && !TIER ? (ka + sym_choice(2, "kb") * 3) % 6 : bin ? sym_choice(6, "kb") : 0;
  int var = pickVar(s, "layout", TIER ? 8 : 4);
  bool same = bin && ka == kb && sym_choice(2, "same");
  withType(ka, [&](auto z) {
    using A = decltype(z);
    withType(kb, [&](auto y) {
      using B = decltype(y);
      // small values where the operation could leave C++'s defined behaviour
      bool small_ = op == 3 || op == 22 || op == 11 || op == 12 || op <= 2 || op == 13 || op == 14;
      size_t n = prod(s);
      std::vector<A> da;
      std::vector<B> db;
      for (size_t i = 0; i < n; ++i) {
        da.push_back(small_ ? (A)sym_range(1, 4, "a") : any<A>("a"));
        db.push_back(same ? B(da[i]) : small_ ? (B)(1 + i % 2) : bin ? any<B>("b") : B(1));
        if constexpr (isF<A>) if (op == 15 || op == 16) sym_assume(da[i] == da[i]);
      }
      Tensor a = mkVar<A>(s, da, var), b;
      if (same) b = a;
      else b = mkVar<B>(s, db, 0);
      SignedVec st = a.stride();
      run<A, B>(op, a, b);
      expect<A>(a, s, da, "an operation leaves its first operand alone");
      if (bin) expect<B>(b, s, db, "an operation leaves its second operand alone");
      SignedVec st2 = a.stride();
      sym_assert(st.size() == st2.size(), "strides unchanged");
      for (size_t i = 0; i < st.size(); ++i) sym_assert(st[i] == st2[i], "strides unchanged");
      sym_assert(!a.requires_grad() && !b.requires_grad() && noGrad(a), "flags unchanged");
      sym_cover(op <= 3 ? "arith" : op < 10 ? "cmp" : op >= 13 && op <= 17 ? "reduce" : op == 18 || op == 19 ? "copy" : "viewed");
    });
  });
}
// the backward pass changes gradients only
extern "C" void backward() {
  int op = sym_choice(14, "op"), k = 4 + sym_choice(2, "type");
  Shape s = sym_choice(2, "shape") ? Shape{2, 2} : Shape{3};
  static const int L[] = {0, 5, 2, 3, 4, 1};
  int var = L[sym_choice(TIER ? 6 : 3, "layout")];
  sym_assume(varOk(var, s));
  size_t n = prod(s);
  std::vector<int64_t> va = smallv<int64_t>(n, 1, 3, "a"), vb(n, 2);
  for (size_t i = 0; i < n; i += 2) vb[i] = 1;
  Tensor a = tensorOf(k, s, va, var), b = tensorOf(9 - k, s, vb, 0);
  int rg = 1 + sym_choice(3, "rg");
  if (op > 4) rg = 1;
  if (rg & 1) a.requires_grad(true);
  if (rg & 2) b.requires_grad(true);
  Tensor r;
  switch (op) {
  case 0: r = a + b; break;
  case 1: r = a - b; break;
  case 2: r = a * b; break;
  case 3: r = a / b; break;
  case 4: { std::vector<Tensor> l; l.emplace_back(); l.back() = a; l.emplace_back(); l.back() = b; r = Tensor::cat(l); break; }
  case 5: r = -a; break;
  case 6: r = a.abs(); break;
  case 7: r = a.mean(); break;
  case 8: r = a.max(); break;
  case 9: r = a["::-1"]; break;
  case 10: r = a.reshape(signedvec({-1})); break;
  case 11: r = a.clone(); break;
  case 12: r = a.type(k == 4 ? f64 : f32); break;
  default: r = a.contiguous();
  }
  Tensor rc = r.detach().clone();
  Tensor w = Tensor::full(r.size(), 2.0, f64);
  Tensor m = r * w;
  Tensor l = m.sum();
  l.backward();
  auto same = [&](Tensor &t, int kk, const std::vector<int64_t> &v, const char *msg) {
    withType(kk, [&](auto z) {
      using T = decltype(z);
      Tensor d = t.detach();
      expect<T>(d, s, conv<T>(v), msg);
    });
  };
  same(a, k, va, "a backward pass leaves the operands alone");
  same(b, 9 - k, vb, "a backward pass leaves the operands alone");
  sym_assert(a.requires_grad() == bool(rg & 1) && b.requires_grad() == bool(rg & 2), "a backward pass leaves the flags alone");
  Tensor rd = r.detach();
  sym_assert((rd == rc).all(), "a backward pass leaves intermediate values alone");
  sym_assert((w == Tensor(2.0)).all(), "a backward pass leaves constants alone");
  sym_cover("back");
  sym_cover("flags");
}
// an operation leaves the flags and the gradient its operands already have alone
extern "C" void flags() {
  int op = sym_choice(NF, "op"), k = 4 + sym_choice(2, "type"), st = sym_choice(8, "state");
  Shape s = {2, 2};
  bool rg = st & 1, rt = st & 2, had = st & 4;
  sym_assume(!had || rg);
  std::vector<int64_t> va = smallv<int64_t>(4, 1, 2, "a");
  Tensor a = tensorOf(k, s, va, sym_choice(2, "layout")), b = tensorOf(9 - k, s, {1, 2, 1, 2}, 0);
  if (rg) a.requires_grad(true);
  if (rt) a.retain_grad(true);
  b.retain_grad(!rt);
  std::vector<int64_t> w;
  if (had) weighted(a, w, -2, 2).backward();
  bool swap = op <= 9 && sym_choice(2, "swap");
  try {
    if (swap) run<double, double>(op, b, a);
    else run<double, double>(op, a, b);
  } catch (const std::runtime_error &) {
    sym_assert(op == 22 && rg, "only conversion of a tensor that requires grad to an integer dtype is refused");
  }
  sym_assert(a.requires_grad() == rg && a.retain_grad() == rt, "an operation leaves the flags of its operand alone");
  sym_assert(!b.requires_grad() && b.retain_grad() == !rt, "an operation leaves the flags of its operand alone");
  sym_assert(noGrad(b), "an operation creates no gradient");
  if (had) {
    Leaf l{s, va, Tensor(), k};
    l.t = a;
    expectGrad(l, w, "an operation leaves the gradient of its operand alone");
  } else sym_assert(noGrad(a), "an operation creates no gradient");
  withType(k, [&](auto z) {
    using T = decltype(z);
    Tensor d = a.detach();
    expect<T>(d, s, conv<T>(va), "an operation leaves its operand alone");
  });
  sym_cover("kept");
}
// broadcast operands, and the storage around a view
extern "C" void around() {
  int op = sym_choice(NF, "op"), ka = sym_choice(6, "ka"), how = sym_choice(3, "how");
  static const Shape B[] = {{}, {2}, {2, 1}};
  bool bin = op <= 9;
  if (op == 24 || (!bin && how)) return;
  withType(ka, [&](auto z) {
    using A = decltype(z);
    std::vector<A> d, f{2, 1};
    for (int i = 0; i < 12; ++i) d.push_back((A)sym_range(1, 4, "x"));
    Tensor base = mk<A>({3, 4}, d);
    Tensor a = base["1:, 1:3"];
    f.resize(prod(B[how]));
    Tensor b = mk<A>(B[how], f);
    if (bin || op != 10) run<A, A>(op, a, b);
    if (bin) run<A, A>(op, b, a);
    expect<A>(base, {3, 4}, d, "an operation leaves the storage around a view alone");
    expect<A>(b, B[how], f, "an operation leaves a broadcast operand alone");
    sym_cover("around");
  });
}
