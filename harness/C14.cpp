//@ entry: binary quick=200 thorough=1800
//@ entry: division quick=200 thorough=1800
//@ entry: mixed quick=100 thorough=900
//@ entry: same quick=60 thorough=600
//@ entry: unary quick=150 thorough=1200
//@ entry: mean3 quick=60 thorough=300
//@ entry: casts quick=60 thorough=300
//@ entry: concat quick=100 thorough=900
//@ entry: large quick=200 thorough=1200
//@ entry: huge quick=150 thorough=900
//@ entry: alias quick=200 thorough=900
//@ entry: precise quick=120 thorough=600
//@ cover: add sub mul div bc mixed same neg abs sum mean max min clone cast cat mean3 large huge alias precise
//@ bounds: operands of 0..3 dimensions with up to 6 (thorough: 8) elements, broadcast against each other, contiguous or laid out as views, f32 and f64 (and integer constants); element values and the gradient arriving at the operation: every integer in -3..3 (divisors: +-1, +-2, +-4); cat of up to 3 tensors; (entry large) results of up to 24 elements and 4 dimensions, broadcast or not, f64 and f32; (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed, through + - * / abs sum mean max min clone and negation; (entry alias) + - * / and cat of every two out of ten views of one 2x2 tensor (whole, reversed, transposed, rows, columns, reshaped, detached as a constant and as a second leaf), i.e. operands that share storage; (entry precise) f64 leaves with values around 2^25 and arriving gradients around 2^26 (f32: 2^11, 2^12), so that every result is exact but needs the whole significand; mean over 3 to 13 elements and division by 3, 7, -10 within 4 units in the last place
//@ outside: larger tensors, other values (rounding), changing operands in place between the forward and the backward pass
//@ oracle: the exact vector-Jacobian product of the operation, computed in integers; at kinks (abs at 0, ties of max/min) any subgradient is accepted
#include "grad.h"
static Shape pickS(const char *n) {
  static const Shape S[] = {{}, {2}, {1}, {2, 1}, {2, 2}, {1, 2}, {2, 1, 2}, {3}, {3, 2}, {2, 2, 2}};
  return S[sym_choice(TIER ? 10 : 9, n)];
}
static int pickLay(const Shape &s, const char *n) {
  static const int L[] = {0, 5, 4, 1, 2, 3};
  int v = L[sym_choice(TIER ? 6 : 2, n)];
  sym_assume(varOk(v, s));
  return v;
}
static const char *OPN[] = {"add", "sub", "mul"};
extern "C" void binary() {
  Shape sa = pickS("sa"), sb = pickS("sb"), so;
  sym_assume(bcast(sa, sb, so));
  sym_assume(prod(so) <= (TIER ? 8 : 6));
  int op = sym_choice(3, "op"), rg = 1 + sym_choice(3, "requires"), types = sym_choice(TIER ? 4 : 2, "types");
  int lay = sym_choice(3, "layouts"), va = lay == 1 ? 5 : 0, vb = lay == 2 ? 3 : 0;
  if (TIER) va = pickLay(sa, "la"), vb = pickLay(sb, "lb");
  sym_assume(varOk(va, sa) && varOk(vb, sb));
  int ka = types == 0 ? 5 : types == 3 ? 5 : 4, kb = types == 0 || types == 1 ? 5 : 4;
  if (rg == 1 && sym_choice(2, "int")) kb = 2; // integer constant operand
  Leaf a = leaf(sa, ka, va, rg & 1, -3, 3, "a"), b = leaf(sb, kb, vb, rg & 2, -3, 3, "b");
  Tensor r = op == 0 ? a.t + b.t : op == 1 ? a.t - b.t : a.t * b.t;
  std::vector<int64_t> w;
  Tensor loss = weighted(r, w);
  loss.backward();
  std::vector<int64_t> ga(prod(sa), 0), gb(prod(sb), 0);
  for (size_t k = 0; k < prod(so); ++k) {
    Shape i = unravel(k, so);
    size_t x = ravel(bidx(i, sa), sa), y = ravel(bidx(i, sb), sb);
    ga[x] += op == 2 ? w[k] * b.v[y] : w[k];
    gb[y] += op == 2 ? w[k] * a.v[x] : op == 1 ? -w[k] : w[k];
  }
  if (rg & 1) expectGrad(a, ga, "gradient of the left operand");
  else sym_assert(noGrad(a.t), "no gradient for a constant");
  if (rg & 2) expectGrad(b, gb, "gradient of the right operand");
  else sym_assert(noGrad(b.t), "no gradient for a constant");
  sym_cover(OPN[op]);
  if (prod(so) != prod(sa)) sym_cover("bc");
}
extern "C" void division() {
  Shape sa = pickS("sa"), sb = pickS("sb"), so;
  sym_assume(bcast(sa, sb, so));
  sym_assume(prod(so) <= (TIER ? 4 : 3));
  int rg = 1 + sym_choice(3, "requires"), types = sym_choice(TIER ? 4 : 2, "types");
  int ka = types == 0 || types == 3 ? 5 : 4, kb = types == 0 || types == 1 ? 5 : 4;
  if (rg == 1 && sym_choice(2, "int")) kb = 2;
  Leaf a = leaf(sa, ka, TIER ? pickLay(sa, "la") : 0, rg & 1, -3, 3, "a");
  Leaf b{sb, {}, Tensor(), kb};
  for (size_t i = 0; i < prod(sb); ++i) {
    static const int64_t D[] = {1, -2, 4, -1, 2, -4};
    b.v.push_back(D[sym_choice(TIER ? 6 : 3, "b")]);
  }
  b.t = tensorOf(kb, sb, b.v, TIER ? pickLay(sb, "lb") : 0);
  if (rg & 2) b.t.requires_grad(true);
  Tensor r = a.t / b.t;
  std::vector<int64_t> w;
  Tensor loss = weighted(r, w);
  loss.backward();
  std::vector<int64_t> ga(prod(sa), 0), gb(prod(sb), 0); // in sixteenths
  for (size_t k = 0; k < prod(so); ++k) {
    Shape i = unravel(k, so);
    size_t x = ravel(bidx(i, sa), sa), y = ravel(bidx(i, sb), sb);
    ga[x] += w[k] * (16 / b.v[y]);
    gb[y] -= w[k] * a.v[x] * (16 / (b.v[y] * b.v[y]));
  }
  if (rg & 1) expectGrad(a, ga, "gradient of a numerator", 16);
  if (rg & 2) expectGrad(b, gb, "gradient of a denominator", 16);
  sym_cover("div");
}
// an operand used together with a constant of another kind, on either side
extern "C" void mixed() {
  Shape s = sym_choice(2, "s") ? Shape{2} : Shape{};
  int op = sym_choice(4, "op"), ka = 4 + sym_choice(2, "ka"), kc = sym_choice(6, "kc");
  Leaf a = leaf(s, ka, 0, true, 1, 2, "a");
  int64_t c = 2;
  Tensor ct = tensorOf(kc, {}, {c}, 0);
  std::vector<int64_t> w, g;
  Tensor r = op == 0 ? ct * a.t : op == 1 ? ct - a.t : op == 2 ? a.t / ct : ct + a.t;
  Tensor loss = weighted(r, w, -3, 3, sym_choice(2, "kw") ? 2 : 5);
  loss.backward();
  for (auto x : w) g.push_back(op == 0 ? 2 * c * x : op == 1 ? -2 * x : op == 2 ? x : 2 * x);
  expectGrad(a, g, "gradient with a constant operand", 2);
  sym_assert(noGrad(ct), "no gradient for a constant");
  sym_cover("mixed");
}
// the same tensor on both sides
extern "C" void same() {
  Shape s = pickS("s");
  sym_assume(prod(s) <= (TIER ? 4 : 2));
  int op = sym_choice(4, "op"), k = 4 + sym_choice(2, "type"), lay = pickLay(s, "la");
  Leaf a = leaf(s, k, lay, true, op == 3 ? 1 : -3, op == 3 ? 1 : 3, "a");
  Tensor r = op == 0 ? a.t + a.t : op == 1 ? a.t - a.t : op == 2 ? a.t * a.t : a.t / a.t;
  std::vector<int64_t> w, g;
  Tensor loss = weighted(r, w);
  loss.backward();
  for (size_t i = 0; i < w.size(); ++i) g.push_back(op == 0 ? 2 * w[i] : op == 2 ? 2 * a.v[i] * w[i] : 0);
  expectGrad(a, g, "gradient of an operation of a tensor with itself");
  sym_cover("same");
}
extern "C" void unary() {
  Shape s = pickS("s");
  int var = pickLay(s, "la"), k = 4 + sym_choice(2, "type"), op = sym_choice(8, "op");
  size_t n = prod(s);
  sym_assume(n > 0 && n <= (TIER ? 8 : 6));
  if (op >= 4 && op < 6) sym_assume(TIER || n <= 3);
  Leaf a = leaf(s, k, var, true, op == 1 && !TIER ? -1 : -3, op == 1 && !TIER ? 1 : 3, "a");
  std::vector<int64_t> w, g(n, 0);
  Tensor r;
  switch (op) {
  case 0: r = -a.t; break;
  case 1: r = a.t.abs(); break;
  case 2: r = a.t.sum(); break;
  case 3: r = a.t.mean(); sym_assume((n & (n - 1)) == 0); break;
  case 4: r = a.t.max(); break;
  case 5: r = a.t.min(); break;
  case 6: r = a.t.clone(); break;
  default: r = a.t.contiguous();
  }
  Tensor loss = weighted(r, w);
  loss.backward();
  if (op == 0) { for (size_t i = 0; i < n; ++i) g[i] = -w[i]; expectGrad(a, g, "gradient of unary minus"); sym_cover("neg"); }
  if (op == 1) {
    Tensor t = a.t.grad();
    sym_assert(shapeOf(t) == s && t.type() == a.t.type(), "shape and dtype of the gradient of abs");
    for (size_t i = 0; i < n; ++i) {
      Tensor x = at(t, unravel(i, s));
      if (a.v[i] == 0) sym_assert((x.abs() <= Tensor((double)(w[i] < 0 ? -w[i] : w[i]))).all(), "subgradient of abs at 0");
      else sym_assert((x == Tensor((double)(a.v[i] < 0 ? -w[i] : w[i]))).all(), "gradient of abs");
    }
    sym_cover("abs");
  }
  if (op == 2) { for (auto &x : g) x = w[0]; expectGrad(a, g, "gradient of sum"); sym_cover("sum"); }
  if (op == 3) { for (auto &x : g) x = w[0]; expectGrad(a, g, "gradient of mean", n); sym_cover("mean"); }
  if (op == 4 || op == 5) {
    int64_t m = a.v[0];
    for (auto x : a.v) m = op == 4 ? (x > m ? x : m) : (x < m ? x : m);
    Tensor t = a.t.grad();
    sym_assert(shapeOf(t) == s && t.type() == a.t.type(), "shape and dtype of the gradient of max/min");
    Tensor sum = t.sum();
    sym_assert(is<double>(sum, (double)w[0]), "the gradients of max/min add up");
    for (size_t i = 0; i < n; ++i) {
      Tensor x = at(t, unravel(i, s));
      bool zero = (x == Tensor(0.0)).all(), sign = (x * Tensor((double)w[0]) >= Tensor(0.0)).all();
      sym_assert(zero | (a.v[i] == m), "only extremal elements get a gradient");
      sym_assert(sign, "sign of the gradient of max/min");
    }
    sym_cover(op == 4 ? "max" : "min");
  }
  if (op >= 6) { expectGrad(a, w, "gradient of a copy"); sym_cover("clone"); }
}
// a number of elements that is no power of two
extern "C" void mean3() {
  int k = 4 + sym_choice(2, "type");
  Leaf a = leaf({3}, k, sym_choice(2, "la") ? 3 : 0, true, -3, 3, "a");
  Tensor m = a.t.mean();
  int64_t c = sym_concrete(sym_range(-2, 2, "c"));
  Tensor l = m * Tensor((double)c);
  l.backward();
  Tensor g = a.t.grad();
  sym_assert(g.type() == a.t.type() && shapeOf(g) == Shape{3}, "shape and dtype of the gradient of mean");
  Tensor e = (g - Tensor(c / 3.0)).abs();
  sym_assert((e < Tensor(1e-6)).all(), "gradient of mean");
  sym_cover("mean3");
}
extern "C" void casts() {
  Shape s = pickS("s");
  sym_assume(prod(s) <= 4);
  int k = 4 + sym_choice(2, "type"), to = 4 + sym_choice(2, "to");
  Leaf a = leaf(s, k, pickLay(s, "la"), true, -3, 3, "a");
  Tensor r = a.t.type((types)to);
  std::vector<int64_t> w;
  Tensor loss = weighted(r, w);
  loss.backward();
  expectGrad(a, w, "gradient of a cast");
  sym_cover("cast");
}
extern "C" void concat() {
  Shape s = pickS("s");
  sym_assume(s.size() >= 1 && prod(s) <= 2 + 2 * TIER);
  size_t dim = sym_choice(s.size(), "dim"), n = 2 + sym_choice(2, "count");
  int rg = sym_choice(8, "requires"), mixedTypes = sym_choice(2, "types"), dup = sym_choice(2, "dup");
  std::vector<Leaf> l;
  std::vector<Tensor> ts;
  Shape so = s;
  so[dim] = 0;
  for (size_t i = 0; i < n; ++i) {
    Shape si = s;
    if (i == 1) si[dim] = sym_choice(TIER ? 3 : 2, "size") * 2;
    l.push_back(leaf(si, mixedTypes ? (i == 1 ? 4 : 5) : 4, i == 0 ? pickLay(s, "la") : 0, rg >> i & 1, -3, 3, "a"));
    so[dim] += si[dim];
  }
  if (dup) so[dim] += s[dim];
  sym_assume(rg >> n == 0 && rg);
  for (auto &x : l) { ts.emplace_back(); ts.back() = x.t; }
  if (dup) { ts.emplace_back(); ts.back() = l[0].t; } // one tensor twice
  Tensor r = Tensor::cat(ts, dim);
  sym_assert(shapeOf(r) == so, "shape of cat");
  std::vector<int64_t> w;
  Tensor loss = weighted(r, w);
  loss.backward();
  size_t off = 0;
  for (size_t i = 0; i < n; ++i) {
    std::vector<int64_t> g;
    for (size_t k = 0; k < prod(l[i].s); ++k) {
      Shape x = unravel(k, l[i].s);
      x[dim] += off;
      g.push_back(w[ravel(x, so)]);
      if (i == 0 && dup) {
        x[dim] += so[dim] - s[dim];
        g.back() += w[ravel(x, so)];
      }
    }
    if (rg >> i & 1) expectGrad(l[i], g, "gradient of a concatenated tensor");
    else sym_assert(noGrad(l[i].t), "no gradient for a constant");
    off += l[i].s[dim];
  }
  sym_cover("cat");
}
extern "C" void large() {
  static const Shape S[][2] = {{{19}, {19}}, {{5, 4}, {4}}, {{5, 1}, {1, 4}}, {{2, 1, 3, 2}, {3, 1}}, {{2, 2, 3}, {1, 2, 1}}, {{17}, {}}};
  int p = sym_choice(6, "shapes"), sw = sym_choice(2, "swap"), op = sym_choice(10, "op"), ty = sym_choice(2, "types");
  Shape sa = S[p][sw], sb = S[p][1 - sw], so;
  bcast(sa, sb, so);
  int lay = sym_choice(2, "layout") ? 4 : 0;
  if (op >= 4) { sa = so; sym_assume(!sw); }
  size_t na = prod(sa), nb = prod(sb);
  Leaf a = leaf(sa, ty ? 4 : 5, lay, true, -1, 1, "a"), b{sb, {}, Tensor(), 5};
  if (op >= 5 && op <= 7) { // abs, max, min: two symbolic elements, the rest fixed
    for (size_t i = 0; i < na; ++i) a.v[i] = (int64_t)(i * 5 % 7) - 3 + (i % 7 == 3);
    a.v[na - 2] = sym_range(1, 5, "h");
    a.v[na / 2] = sym_range(-5, -1, "h");
    if (op >= 6) for (size_t i = 0; i < na; ++i) if (i != na - 2 && i != na / 2) a.v[i] = 0; // unique extrema
    a.t = tensorOf(a.k, sa, a.v, lay);
    a.t.requires_grad(true);
  }
  std::vector<int64_t> w, ga(na, 0), gb(nb, 0);
  if (op < 4) {
    for (size_t i = 0; i < nb; ++i) b.v.push_back(op == 3 ? (i % 3 == 0 ? 2 : i % 3 == 1 ? -1 : 4) : sym_range(-1, 1, "b"));
    b.t = tensorOf(5, sb, b.v, 0);
    b.t.requires_grad(true);
    Tensor r = op == 0 ? a.t + b.t : op == 1 ? a.t - b.t : op == 2 ? a.t * b.t : a.t / b.t;
    weighted(r, w, -1, 1).backward();
    int64_t den = op == 3 ? 16 : 1;
    for (size_t k = 0; k < prod(so); ++k) {
      Shape i = unravel(k, so);
      size_t x = ravel(bidx(i, sa), sa), y = ravel(bidx(i, sb), sb);
      ga[x] += op == 2 ? w[k] * b.v[y] : op == 3 ? w[k] * (den / b.v[y]) : w[k];
      gb[y] += op == 2 ? w[k] * a.v[x] : op == 1 ? -w[k] : op == 3 ? -w[k] * a.v[x] * (den / (b.v[y] * b.v[y])) : w[k];
    }
    expectGrad(a, ga, "gradient of the left operand of a larger operation", den);
    expectGrad(b, gb, "gradient of the right operand of a larger operation", den);
  } else {
    Tensor r = op == 4 ? -a.t : op == 5 ? a.t.abs() : op == 6 ? a.t.max() : op == 7 ? a.t.min() : op == 8 ? a.t.sum() : a.t.contiguous();
    weighted(r, w, -2, 2).backward();
    for (size_t i = 0; i < na; ++i) ga[i] = op == 4 ? -w[i] : op == 5 ? (a.v[i] < 0 ? -w[i] : w[i]) : op == 6 ? (i == na - 2 ? w[0] : 0) : op == 7 ? (i == na / 2 ? w[0] : 0) : op == 8 ? w[0] : w[i];
    expectGrad(a, ga, "gradient of a larger unary operation");
  }
  sym_cover("large");
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int var = pickHugeVar(s, "layout"), op = sym_choice(10, "op");
  size_t n = prod(s);
  int ty = TIER ? sym_choice(2, "type") : (op + var) % 2;
  Leaf a{s, hugev<int64_t>(n, -9, 9, "a"), Tensor(), ty ? 4 : 5}, b{s, {}, Tensor(), 5};
  for (size_t i = 0; i < n; ++i) {
    b.v.push_back(op == 3 ? (i % 3 == 0 ? 2 : i % 3 == 1 ? -1 : 4) : (int64_t)(i % 5) - 2);
    if (a.v[i] == 0 && i != 0 && i != n / 2 && i + 1 != n) a.v[i] = 4;
  }
  if (op == 4) { sym_assume(a.v[0] != 0); sym_assume(a.v[n / 2] != 0); sym_assume(a.v[n - 1] != 0); }
  size_t hot = n / 2;
  if (op == 5) a.v[hot] = sym_range(10, 12, "h");
  if (op == 6) a.v[hot] = sym_range(-12, -10, "h");
  a.t = tensorOf(a.k, s, a.v, var);
  b.t = tensorOf(b.k, s, b.v, 0);
  a.t.requires_grad(true);
  b.t.requires_grad(true);
  std::vector<int64_t> w = hugev<int64_t>(op >= 5 && op <= 8 ? 1 : n, -3, 3, "w"), ga(n, 0), gb(n, 0);
  Tensor r = op == 0 ? a.t + b.t : op == 1 ? a.t - b.t : op == 2 ? a.t * b.t : op == 3 ? a.t / b.t : op == 4 ? a.t.abs() : op == 5 ? a.t.max() : op == 6 ? a.t.min() : op == 7 ? a.t.sum() : op == 8 ? a.t.mean() : a.t.clone();
  if (op == 8) sym_assume((n & (n - 1)) == 0);
  int den = op == 3 ? 16 : op == 8 ? (int)n : 1;
  Tensor l = (r * tensorOf(5, shapeOf(r), w, 0)).sum();
  l.backward();
  for (size_t i = 0; i < n; ++i) {
    int64_t u = w.size() == 1 ? w[0] : w[i];
    ga[i] = op == 2 ? u * b.v[i] : op == 3 ? u * (16 / b.v[i]) : op == 4 ? (a.v[i] < 0 ? -u : u) : op == 5 || op == 6 ? (i == hot ? u : 0) : u;
    gb[i] = op == 0 ? u : op == 1 ? -u : op == 2 ? u * a.v[i] : op == 3 ? -u * a.v[i] * (16 / (b.v[i] * b.v[i])) : 0;
  }
  expectGrad(a, ga, "gradient of an operation on many elements", den);
  if (op < 4) expectGrad(b, gb, "gradient of the second operand on many elements", den);
  else sym_assert(noGrad(b.t), "an unused leaf has no gradient");
  sym_cover("huge");
}
// operands that are different views of one tensor
struct Opd {
  Tensor t;
  View v;
  int who; // 0: gradient goes to a, 1: to the second leaf, 2: constant
};
static Opd opd(Tensor &a, Tensor &b, int k) {
  View w = whole({2, 2});
  Fld all{false, 0, 2, 1}, rev{false, 1, 2, -1};
  switch (k) {
  case 0: { Opd o{Tensor(), w, 0}; o.t = a; return o; }
  case 1: return {a["::-1"], vSlice(w, {rev, all}), 0};
  case 2: return {a[":, ::-1"], vSlice(w, {all, rev}), 0};
  case 3: return {a.transpose(0, 1), vTranspose(w, 0, 1), 0};
  case 4: return {a.detach(), w, 2};
  case 5: return {a["0"], vSlice(w, {Fld{true, 0, 0, 0}, all}), 0};
  case 6: return {a["1"], vSlice(w, {Fld{true, 1, 0, 0}, all}), 0};
  case 7: return {a[":, 1:"], vSlice(w, {all, Fld{false, 1, 1, 1}}), 0};
  case 8: { Opd o{Tensor(), w, 1}; o.t = b; return o; }
  default: return {a.reshape(signedvec({1, 4})), View{{1, 4}, w.m}, 0};
  }
}
extern "C" void alias() {
  int op = sym_choice(5, "op"), x = sym_choice(10, "x"), y = sym_choice(10, "y"), k = TIER ? 4 + sym_choice(2, "type") : 5;
  Leaf a{{2, 2}, {}, Tensor(), k};
  for (int i = 0; i < 4; ++i) a.v.push_back(op == 3 ? (sym_choice(2, "s") ? 1 : -2) : sym_range(-3, 3, "a"));
  int var = TIER ? sym_choice(4, "layout") : (x + y) % 4;
  a.t = tensorOf(k, a.s, a.v, var);
  a.t.requires_grad(true);
  Leaf b{a.s, a.v, Tensor(), k};
  b.t = a.t.detach();
  b.t.requires_grad(true);
  Opd p = opd(a.t, b.t, x), q = opd(a.t, b.t, y);
  Shape so;
  std::vector<int64_t> ga(4, 0), gb(4, 0), w;
  auto give = [&](const Opd &o, size_t e, int64_t g) { (o.who == 0 ? ga : gb)[o.v.m[e]] += o.who == 2 ? 0 : g; };
  bool useA = p.who == 0 || q.who == 0, useB = p.who == 1 || q.who == 1;
  if (!useA && !useB) return;
  if (op == 4) {
    if (p.v.s.size() != q.v.s.size() || p.v.s.back() != q.v.s.back()) return;
    std::vector<Tensor> ts(2);
    ts[0] = p.t;
    ts[1] = q.t;
    if (p.v.s.size() == 1) return;
    Tensor r = Tensor::cat(ts, 0);
    weighted(r, w, -3, 3).backward();
    for (size_t i = 0; i < w.size(); ++i) i < p.v.m.size() ? give(p, i, w[i]) : give(q, i - p.v.m.size(), w[i]);
  } else {
    if (!bcast(p.v.s, q.v.s, so)) return;
    Tensor r = op == 0 ? p.t + q.t : op == 1 ? p.t - q.t : op == 2 ? p.t * q.t : p.t / q.t;
    weighted(r, w, -3, 3).backward();
    for (size_t i = 0; i < w.size(); ++i) {
      Shape ix = unravel(i, so);
      size_t e = ravel(bidx(ix, p.v.s), p.v.s), f = ravel(bidx(ix, q.v.s), q.v.s);
      int64_t u = a.v[p.v.m[e]], z = a.v[q.v.m[f]];
      give(p, e, op < 2 ? w[i] : op == 2 ? w[i] * z : w[i] * (16 / z));
      give(q, f, op == 0 ? w[i] : op == 1 ? -w[i] : op == 2 ? w[i] * u : -w[i] * u * (16 / (z * z)));
    }
  }
  int den = op == 3 ? 16 : 1;
  if (useA) expectGrad(a, ga, "gradient of operands that share storage", den);
  else sym_assert(noGrad(a.t), "no gradient for a tensor that only shares storage");
  if (useB) expectGrad(b, gb, "gradient of a second leaf over the same storage", den);
  else sym_assert(noGrad(b.t), "no gradient for a leaf that only shares storage");
  sym_cover("alias");
}
// results that need the full precision of the dtype
extern "C" void precise() {
  int k = 4 + sym_choice(2, "type"), op = sym_choice(14, "op");
  int64_t A = k == 5 ? (1 << 25) + 1 : (1 << 11) + 1, W = k == 5 ? (1 << 26) + 1 : (1 << 12) + 1;
  if (op >= 12) { // inexact results
    static const int C[] = {3, 5, 6, 7, 10, 13};
    int n = op == 12 ? C[sym_choice(6, "count")] : 1;
    static const int D[] = {3, 7, -10};
    int d = D[op == 12 ? 0 : sym_choice(3, "divisor")];
    Leaf a{{(size_t)n}, std::vector<int64_t>(n, 5), Tensor(), k}, b{{(size_t)n}, std::vector<int64_t>(n, d), Tensor(), k};
    a.t = tensorOf(k, a.s, a.v, 0);
    b.t = tensorOf(k, b.s, b.v, 0);
    a.t.requires_grad(true);
    b.t.requires_grad(true);
    int64_t w = sym_concrete(sym_range(-3, 3, "w"));
    Tensor r = op == 12 ? a.t.mean() : a.t / b.t;
    (r * Tensor((double)w)).sum().backward();
    double tol = (k == 5 ? 1e-15 : 5e-7) * 4;
    Tensor e = (a.t.grad() - Tensor((double)w / (op == 12 ? n : d))).abs();
    sym_assert(shapeOf(e) == a.s && (e < Tensor(tol)).all(), "gradient of mean and division to the precision of the dtype");
    if (op == 13) {
      Tensor f = (b.t.grad() - Tensor(-5.0 * (double)w / (d * d))).abs();
      sym_assert(shapeOf(f) == a.s && (f < Tensor(tol)).all(), "gradient of a divisor to the precision of the dtype");
    }
    sym_cover("precise");
    return;
  }
  Leaf a{{2}, {A + sym_range(-3, 3, "a0"), -A + sym_range(-3, 3, "a1")}, Tensor(), k}, b{{2}, {}, Tensor(), k};
  if (op == 3) b.v = {4, -2};
  else b.v = {A - 8 + sym_range(-3, 3, "b0"), A + sym_range(4, 9, "b1")};
  a.t = tensorOf(k, a.s, a.v, sym_choice(2, "layout") ? 3 : 0);
  b.t = tensorOf(k, b.s, b.v, 0);
  a.t.requires_grad(true);
  b.t.requires_grad(true);
  std::vector<int64_t> w{W + sym_range(-2, 2, "w0"), W + sym_range(-2, 2, "w1")}, ga, gb;
  Tensor r;
  switch (op) {
  case 0: r = a.t + b.t; ga = w; gb = w; break;
  case 1: r = a.t - b.t; ga = w; gb = {-w[0], -w[1]}; break;
  case 2: r = a.t * b.t; ga = {w[0] * b.v[0], w[1] * b.v[1]}; gb = {w[0] * a.v[0], w[1] * a.v[1]}; break;
  case 3: r = a.t / b.t; ga = {w[0] * 4, w[1] * -8}; gb = {-w[0] * a.v[0], -w[1] * a.v[1] * 4}; break;
  case 4: r = -a.t; ga = {-w[0], -w[1]}; break;
  case 5: r = a.t.abs(); ga = {w[0], -w[1]}; break;
  case 6: r = a.t.sum(); ga = {w[0], w[0]}; break;
  case 7: r = a.t.max(); ga = {w[0], 0}; break;
  case 8: r = a.t.min(); ga = {0, w[0]}; break;
  case 9: r = a.t.clone(); ga = w; break;
  case 10: r = a.t.mean(); ga = {w[0], w[0]}; break;
  default: {
    std::vector<Tensor> v(2);
    v[0] = a.t;
    v[1] = b.t;
    r = Tensor::cat(v, 0);
    w.push_back(W + sym_range(-2, 2, "w2"));
    w.push_back(W + 1);
    ga = {w[0], w[1]};
    gb = {w[2], w[3]};
  }
  }
  if (op >= 6 && (op <= 8 || op == 10)) w.resize(1);
  (r * tensorOf(5, shapeOf(r), w, 0)).sum().backward();
  expectGrad(a, ga, "gradient to the precision of the dtype", op == 3 ? 16 : op == 10 ? 2 : 1);
  if (!gb.empty()) expectGrad(b, gb, "gradient of the second operand to the precision of the dtype", op == 3 ? 16 : 1);
  sym_cover("precise");
}
