//@ entry: programs quick=400 thorough=2400
//@ entry: programs3 quick=300 thorough=2400
//@ entry: chain quick=150 thorough=1800
//@ entry: shared quick=150 thorough=1200
//@ entry: wide quick=150 thorough=1800
//@ entry: deep quick=120 thorough=600
//@ cover: add sub mul sum view clone freeze detach cat used fan nograd chain shared late div neg abs mean max min cast contig deep
//@ bounds: every program of 2 operations, and of 3 operations (quick: without - reshape clone detach), drawn from + - * sum reversed-slice transpose/reshape clone detach cat freeze over two 2-element leaves (f64; for 2 operations and in the thorough check also f32 and f64, and leaves of different shape), operands chosen among all earlier results, the last operation using the newest; chains of up to 5 (thorough: 7) operations whose operands are the previous result and any leaf; a value used up to 4 times along paths of different length; leaf values: every integer in -2..2 (programs, shared) or -1..1 (chain), weights of the loss: every integer in -2..2 (chain with leaves -1, 1: also around 2^40); (entry wide) every program of 2 operations (thorough: also 3, the middle one from + * cat reverse) of which at least one is / neg abs mean max min conversion-f32/f64 contiguous index 1:-slice, the other any (divisors: +-1; no kinks; mean only as the last operation); (entry deep) 300 uses of one intermediate value (added up one after another, multiplied, concatenated), 200 additions in a row, 50 doublings x = x + x
//@ outside: longer programs, larger leaves, other values (rounding), several backward passes through one graph (C16)
//@ oracle: forward-mode differentiation in exact integers: the Jacobian of every intermediate value with respect to every leaf element is carried along; the gradient is its product with the weights
#include "grad.h"
struct Node {
  Shape s;
  std::vector<int64_t> v;
  std::vector<std::vector<int64_t>> j;
  bool rg;
};
struct Prog {
  std::vector<Tensor> t;
  std::vector<Node> n;
  size_t nl = 0;
  int den = 1;
  std::vector<Leaf> leaves;
  void addLeaf(const Shape &s, int k, bool rg, int lo, int hi, const char *nm) {
    leaves.push_back(leaf(s, k, 0, rg, lo, hi, nm));
    t.emplace_back();
    t.back() = leaves.back().t;
    Node x{s, leaves.back().v, {}, rg};
    n.push_back(x);
    nl += prod(s);
  }
  void start() {
    size_t off = 0;
    for (auto &x : n) {
      for (size_t i = 0; i < x.v.size(); ++i) {
        x.j.emplace_back(nl, 0);
        if (x.rg) x.j.back()[off + i] = 1;
      }
      off += x.v.size();
    }
  }
  void push(Tensor &&x, Node &&m) {
    t.push_back(std::move(x));
    n.push_back(std::move(m));
  }
  bool binary(int op, size_t a, size_t b) {
    Shape so;
    if (!bcast(n[a].s, n[b].s, so)) return false;
    Node m{so, {}, {}, n[a].rg || n[b].rg};
    for (size_t k = 0; k < prod(so); ++k) {
      Shape i = unravel(k, so);
      size_t x = ravel(bidx(i, n[a].s), n[a].s), y = ravel(bidx(i, n[b].s), n[b].s);
      int64_t p = n[a].v[x], q = n[b].v[y];
      m.v.push_back(op == 0 ? p + q : op == 1 ? p - q : p * q);
      std::vector<int64_t> g;
      for (size_t l = 0; l < nl; ++l) {
        int64_t dp = n[a].j[x][l], dq = n[b].j[y][l];
        g.push_back(op == 0 ? dp + dq : op == 1 ? dp - dq : dp * q + dq * p);
      }
      m.j.push_back(g);
    }
    push(op == 0 ? t[a] + t[b] : op == 1 ? t[a] - t[b] : t[a] * t[b], std::move(m));
    return true;
  }
  void map(Tensor &&r, size_t a, const View &v) {
    Node m{v.s, {}, {}, n[a].rg};
    for (auto k : v.m) {
      m.v.push_back(n[a].v[k]);
      m.j.push_back(n[a].j[k]);
    }
    push(std::move(r), std::move(m));
  }
  void sum(size_t a) {
    Node m{{}, {0}, {std::vector<int64_t>(nl, 0)}, n[a].rg};
    for (size_t k = 0; k < n[a].v.size(); ++k) {
      m.v[0] += n[a].v[k];
      for (size_t l = 0; l < nl; ++l) m.j[0][l] += n[a].j[k][l];
    }
    push(t[a].sum(), std::move(m));
  }
  void cutLast(bool detach) {
    if (detach) {
      Tensor d = t.back().detach();
      t.back() = d;
    } else
      t.back().requires_grad(false);
    n.back().rg = false;
    for (auto &r : n.back().j)
      for (auto &x : r) x = 0;
  }
  bool reverse(size_t a) {
    if (n[a].s.empty() || n[a].s[0] == 0) return false;
    std::vector<Fld> f;
    for (auto x : n[a].s) f.push_back({false, 0, (long)x, 1});
    f[0] = {false, (long)n[a].s[0] - 1, (long)n[a].s[0], -1};
    map(t[a]["::-1"], a, vSlice(whole(n[a].s), f));
    return true;
  }
  // one operation; false if it does not apply
  bool step(int op, size_t a, size_t b) {
    switch (op) {
    case 0: case 1: case 2: return binary(op, a, b);
    case 3: sum(a); return true;
    case 4: return reverse(a);
    case 5:
      if (n[a].s.size() == 1) map(t[a].reshape(signedvec({(long long)n[a].s[0], 1})), a, View{{n[a].s[0], 1}, whole(n[a].s).m});
      else if (n[a].s.size() == 2) map(t[a].transpose(0, 1), a, vTranspose(whole(n[a].s), 0, 1));
      else return false;
      return true;
    case 6: map(t[a].clone(), a, whole(n[a].s)); return true;
    case 7: // cat(a, b) along dimension 0
      if (n[a].s.empty() || n[a].s.size() != n[b].s.size()) return false;
      for (size_t i = 1; i < n[a].s.size(); ++i) if (n[a].s[i] != n[b].s[i]) return false;
      {
        std::vector<Tensor> ts;
        ts.emplace_back(); ts.back() = t[a];
        ts.emplace_back(); ts.back() = t[b];
        Node m{n[a].s, n[a].v, n[a].j, n[a].rg || n[b].rg};
        m.s[0] += n[b].s[0];
        m.v.insert(m.v.end(), n[b].v.begin(), n[b].v.end());
        m.j.insert(m.j.end(), n[b].j.begin(), n[b].j.end());
        push(Tensor::cat(ts), std::move(m));
      }
      return true;
    case 8: map(t[a].clone(), a, whole(n[a].s)); cutLast(false); return true;
    case 9: map(t[a][""], a, whole(n[a].s)); cutLast(true); return true;
    // the wider set
    case 10: { // divisors +-1, whose reciprocal is themselves
      Shape so;
      if (!bcast(n[a].s, n[b].s, so)) return false;
      for (auto q : n[b].v) sym_assume(q == 1 || q == -1);
      Node m{so, {}, {}, n[a].rg || n[b].rg};
      for (size_t k = 0; k < prod(so); ++k) {
        Shape i = unravel(k, so);
        size_t x = ravel(bidx(i, n[a].s), n[a].s), y = ravel(bidx(i, n[b].s), n[b].s);
        int64_t p = n[a].v[x], q = n[b].v[y];
        m.v.push_back(p * q);
        std::vector<int64_t> g;
        for (size_t l = 0; l < nl; ++l) g.push_back(n[a].j[x][l] * q - n[b].j[y][l] * p);
        m.j.push_back(g);
      }
      push(t[a] / t[b], std::move(m));
      return true;
    }
    case 11: case 12: { // neg, abs away from 0
      Node m = n[a];
      for (size_t k = 0; k < m.v.size(); ++k) {
        if (op == 12) sym_assume(m.v[k] != 0);
        int64_t f = op == 11 || m.v[k] < 0 ? -1 : 1;
        m.v[k] *= f;
        for (auto &x : m.j[k]) x *= f;
      }
      push(op == 11 ? -t[a] : t[a].abs(), std::move(m));
      return true;
    }
    case 13: { // mean, as the last operation: the oracle carries the sum
      size_t c = n[a].v.size();
      if (c != 1 && c != 2 && c != 4) return false;
      sum(a);
      Tensor r = t[a].mean();
      t.back() = r;
      den = c;
      return true;
    }
    case 14: case 15: { // max, min without ties
      size_t best = 0, c = n[a].v.size();
      for (size_t k = 1; k < c; ++k) if (op == 14 ? n[a].v[k] > n[a].v[best] : n[a].v[k] < n[a].v[best]) best = k;
      for (size_t k = 0; k < c; ++k) if (k != best) sym_assume(n[a].v[k] != n[a].v[best]);
      Node m{{}, {n[a].v[best]}, {n[a].j[best]}, n[a].rg};
      push(op == 14 ? t[a].max() : t[a].min(), std::move(m));
      return true;
    }
    case 16: map(t[a].type(t[a].type() == f64 ? f32 : f64), a, whole(n[a].s)); return true;
    case 17: map(t[a].contiguous(), a, whole(n[a].s)); return true;
    default: {
      if (n[a].s.empty() || n[a].s[0] < 2) return false;
      std::vector<Fld> f;
      for (auto x : n[a].s) f.push_back({false, 0, (long)x, 1});
      if (op == 18) {
        f[0] = {true, 0, 0, 0};
        map(t[a]["0"], a, vSlice(whole(n[a].s), f));
      } else {
        f[0] = {false, 1, (long)n[a].s[0] - 1, 1};
        map(t[a]["1:"], a, vSlice(whole(n[a].s), f));
      }
      return true;
    }
    }
  }
  void finish(size_t last, int64_t wlo, int64_t whi) {
    if (!n[last].rg) {
      sym_assert(!t[last].requires_grad(), "a result of constants does not require grad");
      Tensor l = t[last].sum();
      sym_assert(throwsRuntime([&] { l.backward(); }), "backward from a constant is refused");
      for (auto &x : leaves) sym_assert(noGrad(x.t), "no gradient without a backward pass");
      sym_cover("nograd");
      return;
    }
    sym_assert(t[last].requires_grad(), "a result of a tensor that requires grad requires grad");
    std::vector<int64_t> w;
    Tensor l = weighted(t[last], w, wlo, whi);
    l.backward();
    check(w, last);
  }
  void check(const std::vector<int64_t> &w, size_t last) {
    size_t off = 0;
    for (size_t i = 0; i < leaves.size(); ++i) {
      std::vector<int64_t> g;
      for (size_t e = 0; e < n[i].v.size(); ++e) {
        int64_t x = 0;
        for (size_t k = 0; k < w.size(); ++k) x += w[k] * n[last].j[k][off + e];
        g.push_back(x);
      }
      if (!n[i].rg) sym_assert(noGrad(leaves[i].t), "no gradient for a constant");
      else if (!noGrad(leaves[i].t)) { expectGrad(leaves[i], g, "gradient of a leaf", den); sym_cover("used"); }
      else for (auto x : g) sym_assert(x == 0, "a leaf the loss depends on has a gradient");
      off += n[i].v.size();
    }
  }
};
static const char *N[] = {"add", "sub", "mul", "sum", "view", "view", "clone", "cat", "freeze", "detach"};
static void program(int steps, int cfg) {
  Prog p;
  p.addLeaf({2}, 5, true, -2, 2, "a");
  p.addLeaf(cfg == 2 ? Shape{2, 1} : Shape{2}, cfg == 1 ? 4 : 5, cfg != 1, -2, 2, "b");
  p.start();
  for (int i = 0; i < steps; ++i) {
    static const int FEW[] = {0, 2, 3, 4, 7, 8};
    int op = steps > 2 && !TIER ? FEW[sym_choice(6, "op")] : sym_choice(10, "op");
    size_t m = p.t.size(), a = sym_choice(m, "x"), b = op < 3 || op == 7 ? sym_choice(m, "y") : 0;
    if (i + 1 == steps) sym_assume(a + 1 == m || ((op < 3 || op == 7) && b + 1 == m)); // use the newest value
    bool ok = p.step(op, a, b);
    sym_assume(ok);
    sym_cover(N[op]);
  }
  p.finish(p.t.size() - 1, -2, 2);
}
extern "C" void programs() { program(2, sym_choice(3, "leaves")); }
extern "C" void programs3() { program(3, TIER ? sym_choice(3, "leaves") : 0); }
// long chains
extern "C" void chain() {
  Prog p;
  bool big = sym_choice(2, "big");
  p.addLeaf({2}, 5, true, -1, big ? -1 : 1, "a");
  p.addLeaf({2}, 5, true, big ? 1 : -1, 1, "b");
  p.start();
  size_t len = TIER ? 7 : 5, cur = sym_choice(2, "start");
  for (size_t i = 0; i < len; ++i) {
    int op = sym_choice(4, "op"); // + leaf, * leaf, reverse, self + self
    bool ok = op == 0 ? p.binary(0, cur, 1) : op == 1 ? p.binary(2, cur, 0) : op == 2 ? p.reverse(cur) : p.binary(0, cur, cur);
    sym_assume(ok);
    cur = p.t.size() - 1;
  }
  int64_t W = big ? (1ll << 40) + 1 : 0; // gradients that need most of the significand
  p.finish(cur, W - 2, W + 2);
  sym_cover("chain");
}
// one intermediate value reaching the loss along paths of different lengths
extern "C" void shared() {
  Prog p;
  p.addLeaf({2}, 5, true, -2, 2, "a");
  p.addLeaf({2}, 5, true, -2, 2, "b");
  p.start();
  p.binary(2, 0, 1); // 2: a*b
  size_t m = 2, acc = m;
  bool keep = sym_choice(2, "retain");
  if (keep) p.t[m].retain_grad(true);
  for (int u = 0; u < (TIER ? 3 : 2); ++u) {
    size_t x = m;
    int op = sym_choice(4, "use"), len = sym_choice(3, "length");
    for (int k = 0; k < len; ++k) {
      bool ok = op == 0 ? p.binary(0, x, 1) : op == 1 ? p.reverse(x) : op == 2 ? p.step(6, x, 0) : p.binary(1, 1, x);
      sym_assume(ok);
      x = p.t.size() - 1;
    }
    p.binary(sym_choice(2, "join") ? 1 : 0, u ? acc : x, u ? x : m);
    acc = p.t.size() - 1;
  }
  int late = sym_choice(2, "late");
  if (late) { // freezing the intermediate value before the backward pass cuts every path through it
    p.t[m].requires_grad(false);
    sym_assume(!keep);
    sym_cover("late");
    std::vector<int64_t> w;
    Tensor l = weighted(p.t[acc], w, -1, 1);
    l.backward();
    sym_assert(noGrad(p.leaves[0].t), "a leaf only reached through a frozen value has no gradient");
    return;
  }
  p.finish(acc, -2, 2);
  sym_cover("fan");
  sym_cover("shared");
}
extern "C" void wide() {
  Prog p;
  // concrete leaves (several signs and orders), symbolic weights
  static const int A[][2] = {{3, -2}, {-1, 1}, {-2, -3}, {1, 1}};
  for (int i = 0; i < 2; ++i) {
    int c = sym_choice(4, i ? "b" : "a");
    p.addLeaf({2}, 5, true, A[c][0], A[c][0], i ? "b" : "a");
    Leaf &l = p.leaves.back();
    l.v = {A[c][0], A[c][1]};
    l.t = tensorOf(5, {2}, l.v, 0);
    l.t.requires_grad(true);
    p.t.back() = l.t;
    p.n.back().v = l.v;
  }
  p.start();
  static const char *M[] = {"div", "neg", "abs", "mean", "max", "min", "cast", "contig", "view", "view"};
  static const int MID[] = {0, 2, 4, 7};
  int first = sym_choice(2, "first"), steps = TIER ? 2 + sym_choice(2, "steps") : 2;
  for (int i = 0; i < steps; ++i) {
    bool w = i == 0 ? first : i + 1 == steps ? !first || sym_choice(2, "wide") : false;
    int op = w ? 10 + sym_choice(10, "op") : i && i + 1 < steps ? MID[sym_choice(4, "op")] : sym_choice(10, "op");
    if (op == 13) sym_assume(i + 1 == steps);
    bool two = op < 3 || op == 7 || op == 10;
    size_t m = p.t.size(), a = sym_choice(m, "x"), b = two ? sym_choice(m, "y") : 0;
    if (i + 1 == steps) sym_assume(a + 1 == m || (two && b + 1 == m));
    bool ok = p.step(op, a, b);
    sym_assume(ok);
    if (op >= 10) sym_cover(M[op - 10]);
  }
  p.finish(p.t.size() - 1, -2, 2);
}
// graphs beyond 8-bit counters, and graphs whose number of paths is exponential
extern "C" void deep() {
  int how = sym_choice(5, "how"), keep = sym_choice(2, "retain");
  Leaf a = leaf({2}, 5, 0, true, -2, 2, "a");
  std::vector<int64_t> w;
  Tensor m = a.t * Tensor(3.0), x;
  if (keep) m.retain_grad(true);
  int64_t f = 0;
  switch (how) {
  case 0: x = m; for (int i = 1; i < 300; ++i) x = x + m; f = 300; break;
  case 1: x = m; for (int i = 0; i < 50; ++i) x = x + x; f = 1ll << 50; break;
  case 2: { std::vector<Tensor> l(300); for (auto &t : l) t = m; x = Tensor::cat(l, 0); f = 0; break; }
  case 3: x = m; for (int i = 0; i < 200; ++i) x = x + Tensor(1.0); f = 1; break;
  default: x = m.sum(); for (int i = 1; i < 260; ++i) x = x + m.sum(); f = 260; break;
  }
  if (how == 2) {
    w = hugev<int64_t>(600, -3, 3, "w");
    (x * tensorOf(5, {600}, w, 0)).sum().backward();
    int64_t g[2] = {0, 0};
    for (int i = 0; i < 600; ++i) g[i % 2] += 3 * w[i];
    expectGrad(a, {g[0], g[1]}, "gradient of a value used many times");
  } else if (how == 4) {
    x.backward();
    expectGrad(a, {3 * f, 3 * f}, "gradient of a value used many times");
  } else {
    (x * tensorOf(5, {2}, {1, -1}, 0)).sum().backward();
    expectGrad(a, {3 * f, -3 * f}, "gradient through a deep graph");
  }
  sym_cover("deep");
}
