//@ entry: programs quick=400 thorough=2400
//@ entry: errors quick=100 thorough=600
//@ entry: orders quick=150 thorough=900
//@ entry: release quick=60 thorough=300
//@ cover: binary view copy cat back grad drop assign cast err freed forward backward loop moved released
//@ bounds: every program of 2 (thorough: 3) calls out of 13 over three handles (a leaf, an integer tensor, a value computed from the leaf or empty), from three starting situations, results stored over the operand or in another handle, followed by use of every live handle; every order of dropping five handles that share storage and graph; errors raised by 10 kinds of misuse; values are symbolic
//@ outside: longer programs; very long graphs (recursion depth); use of an empty Tensor or of a tensor after release()
//@ oracle: the executor's memory model (bounds, lifetime, double free, mismatched delete, read of uninitialised memory in a decision); no allocation is left when the last handle is gone
#include "grad.h"
static const int M = 3;
struct Pool {
  Tensor t[M];
  bool live[M] = {};
};
static void put(Pool &p, int d, Tensor &&x) {
  p.t[d] = std::move(x);
  p.live[d] = true;
}
static bool call(Pool &p, int op, int a, int b, int d) {
  if (!p.live[a]) return false;
  Tensor &x = p.t[a];
  switch (op) {
  case 0: if (!p.live[b]) return false; put(p, d, x + p.t[b]); sym_cover("binary"); break;
  case 1: if (!p.live[b]) return false; put(p, d, p.t[b] * x); break;
  case 2: put(p, d, x["::-1"]); sym_cover("view"); break;
  case 3: put(p, d, x["-1"]); break;
  case 4: put(p, d, x.reshape(signedvec({-1, 1}))); break;
  case 5: put(p, d, x.abs()); sym_cover("copy"); break;
  case 6: {
    if (!p.live[b]) return false;
    std::vector<Tensor> l;
    l.emplace_back(); l.back() = x;
    l.emplace_back(); l.back() = p.t[b];
    put(p, d, Tensor::cat(l));
    sym_cover("cat");
    break;
  }
  case 7: if (d != a) return false; x.sum().backward(); sym_cover("back"); break;
  case 8: {
    Tensor g = x.grad();
    if (g.to_string() == "[]") return false;
    put(p, d, std::move(g));
    sym_cover("grad");
    break;
  }
  case 9:
    if (d != a) { p.t[d] = x; p.live[d] = true; sym_cover("assign"); }
    else { p.t[a] = Tensor(); p.live[a] = false; sym_cover("drop"); }
    break;
  case 10: put(p, d, x.type(f64)); sym_cover("cast"); break;
  case 11: put(p, d, x.max()); break;
  default: put(p, d, x.detach());
  }
  return true;
}
extern "C" void programs() {
  int64_t before = sym_heap_live();
  {
    Pool p;
    int start = sym_choice(3, "start");
    put(p, 0, tensorOf(5, {2}, {sym_range(1, 2, "v"), 2}, start == 1 ? 3 : 0));
    p.t[0].requires_grad(true);
    put(p, 1, tensorOf(2, {2}, {sym_range(1, 2, "v"), 1}, 0));
    if (start) {
      put(p, 2, p.t[0] * p.t[0]);
      if (start == 2) {
        p.t[2].retain_grad(true);
        p.t[2].sum().backward();
      }
    }
    int n = TIER ? 3 : 2;
    for (int i = 0; i < n; ++i) {
      int op = sym_choice(13, "op"), a = sym_choice(M, "a"), b = op == 0 || op == 1 || op == 6 ? sym_choice(2, "b") : 0;
      b = (a + b) % M;
      int d = sym_choice(2, "d") ? (a + 1) % M : a;
      bool ok = true;
      try {
        ok = call(p, op, a, b, d);
      } catch (const std::runtime_error &) {
        sym_cover("err");
      }
      sym_assume(ok);
    }
    for (int i = 0; i < M; ++i)
      if (p.live[i]) {
        Tensor s = p.t[i].sum(), u = p.t[i].clone();
        sym_assert(u.numel() == p.t[i].numel(), "a copy has as many elements");
        try {
          s.backward();
        } catch (const std::runtime_error &) {
        }
      }
    if (sym_choice(2, "order")) {
      p.t[2] = Tensor(); p.t[1] = Tensor(); p.t[0] = Tensor();
      sym_cover("backward");
    } else {
      p.t[0] = Tensor(); p.t[1] = Tensor(); p.t[2] = Tensor();
      sym_cover("forward");
    }
  }
  sym_assert(sym_heap_live() == before, "no memory is leaked");
  sym_cover("freed");
}
extern "C" void errors() {
  int what = sym_choice(10, "what");
  { Tensor warm = tensorOf(5, {2}, {1, 2}, 0); throws([&] { warm["7"]; }); }
  int64_t before = sym_heap_live();
  {
    Leaf a = leaf({2}, 5, 0, sym_choice(2, "rg"), -2, 2, "a");
    Tensor b = tensorOf(5, {3}, {1, 2, 3}, 0);
    bool t = throws([&] {
      switch (what) {
      case 0: a.t + b; break;
      case 1: a.t["2"]; break;
      case 2: a.t["0,0"]; break;
      case 3: a.t["::0"]; break;
      case 4: a.t.reshape(signedvec({3, -1})); break;
      case 5: a.t.transpose(0, 1); break;
      case 6: b.backward(); break;
      case 7: { std::vector<Tensor> l; Tensor::cat(l); break; }
      case 8: Tensor::zeros(sizevec({1ull << 40, 1ull << 40}), f64); break;
      default: { Tensor i = tensorOf(2, {1}, {1}, 0); i.requires_grad(true); }
      }
    });
    sym_assert(t, "misuse raises an exception");
  }
  sym_assert(sym_heap_live() == before, "an error leaks no memory");
}
// handles dropped in every order; what is left stays usable
extern "C" void orders() {
  int64_t before = sym_heap_live();
  {
    Leaf a = leaf({2, 2}, 5, 0, true, -2, 2, "a");
    std::vector<int64_t> v = a.v;
    Tensor t[5];
    t[0] = a.t;
    a.t = Tensor();
    t[1] = t[0].transpose(0, 1);
    t[2] = t[1]["1"]; // a[:,1]
    t[3] = t[2] * t[2];
    t[4] = t[3].sum();
    bool on[5] = {true, true, true, true, true};
    bool back = false;
    for (int k = 0; k < 4; ++k) {
      int d = sym_choice(5, "drop");
      sym_assume(on[d]);
      on[d] = false;
      t[d] = Tensor();
      if (!back && on[4]) {
        if (sym_choice(2, "back")) {
          t[4].backward();
          back = true;
        }
      }
    }
    std::vector<double> sq = {(double)(v[1] * v[1]), (double)(v[3] * v[3])};
    for (int d = 0; d < 5; ++d)
      if (on[d]) {
        Tensor q = t[d].detach();
        if (d == 0) expect<double>(q, {2, 2}, {(double)v[0], (double)v[1], (double)v[2], (double)v[3]}, "the base outlives its views");
        if (d == 1) expect<double>(q, {2, 2}, {(double)v[0], (double)v[2], (double)v[1], (double)v[3]}, "a view outlives its base");
        if (d == 2) expect<double>(q, {2}, {(double)v[1], (double)v[3]}, "a view outlives the view it came from");
        if (d == 3) expect<double>(q, {2}, sq, "a result outlives its operands");
        if (d == 4) sym_assert((q == Tensor((double)(v[1] * v[1] + v[3] * v[3]))).all(), "a result outlives its operands");
      }
    if (on[0] && back) {
      Tensor g = t[0].grad();
      expect<double>(g, {2, 2}, {0.0, 2.0 * v[1], 0.0, 2.0 * v[3]}, "gradients flow through dropped handles");
    }
  }
  sym_assert(sym_heap_live() == before, "no memory is leaked");
  sym_cover("freed");
}
extern "C" void release() {
  int64_t before = sym_heap_live();
  {
    // rebinding one handle in a loop
    Leaf a = leaf({2}, 5, 0, true, -2, 2, "a");
    Tensor s;
    s = a.t;
    int n = 1 + sym_choice(TIER ? 5 : 3, "n");
    for (int i = 0; i < n; ++i) s = s + a.t;
    Tensor u = std::move(s);
    Tensor l = u.sum();
    l.backward();
    expectGrad(a, {n + 1, n + 1}, "gradient after rebinding a handle in a loop");
    sym_cover("loop");
    Tensor w;
    w = std::move(u);
    w = w;
    Tensor *self = &w;
    w = std::move(*self);
    sym_cover("moved");
    // releasing the memory of a gradient; the next pass gets a fresh one
    a.t.grad().release();
    a.t.sum().backward();
    expectGrad(a, {1, 1}, "gradient after its memory was released");
    Tensor b = Tensor::ones(sizevec({3}), f32);
    b.release();
    b.release();
    sym_assert(b.numel() == 3 && shapeOf(b) == Shape{3}, "release keeps the shape");
    sym_cover("released");
  }
  sym_assert(sym_heap_live() == before, "no memory is leaked");
}
