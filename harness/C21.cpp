//@ entry: ints quick=200 thorough=1800
//@ entry: floats quick=150 thorough=1800
//@ entry: mixed quick=150 thorough=900
//@ entry: errors quick=100 thorough=900
//@ entry: large quick=120 thorough=900
//@ entry: pairs quick=200 thorough=1200
//@ entry: huge quick=150 thorough=900
//@ cover: ints bc floats mixed chain views shape grad self large pairs huge
//@ bounds: targets of 0..3 dimensions with up to 6 (thorough: 12) elements in 8 memory layouts, right-hand sides of every shape that broadcasts to the target, all dtype pairs; integers: every i8/i16 value and every i32/i64 value whose sum is representable; floats: every bit pattern for equal dtypes, multiples of 1/4 in -60..60 and integers in -60..60 for mixed ones; a tensor added to itself; (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); (entry pairs) every dtype pair with every pair of the 8 layouts on 2x2, 3-element and (right-hand side) broadcast operands, small values; (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed
//@ outside: right-hand sides that overlap the target differently from element to element; targets smaller than the broadcast result; larger tensors
//@ oracle: each target element becomes target + right-hand side in the common C++ type, converted to the target's dtype; the rest of the storage, the right-hand side and, after an error, everything is unchanged
#include "h.h"
static bool into(const Shape &a, const Shape &b) { // b broadcasts to a
  Shape r;
  if (!bcast(a, b, r) || r != a) return false;
  for (size_t d = 1; d <= b.size(); ++d) if (a[a.size() - d] == 0 && b[b.size() - d] != 0) return false; // size 0 against 1 is refused
  return true;
}
static Shape pickT(const char *n) {
  static const Shape S[] = {{}, {3}, {2, 2}, {2, 1, 2}, {1}, {2, 3}, {2, 0}, {2, 2, 2}, {3, 4}};
  return S[sym_choice(TIER ? 9 : 7, n)];
}
static Shape pickR(const char *n) {
  static const Shape S[] = {{}, {3}, {1}, {2, 2}, {2, 1}, {1, 2}, {2}, {2, 1, 2}, {2, 3}, {1, 3}, {2, 0}, {1, 1, 1}, {2, 2, 2}, {3, 4}, {4}};
  return S[sym_choice(TIER ? 15 : 11, n)];
}
template <class A, class B, class F> static void go(const Shape &s, const Shape &r, int va, int vb, F val) {
  std::vector<A> a, e;
  std::vector<B> b;
  for (size_t i = 0; i < prod(s); ++i) a.push_back(val(A{}, "a"));
  for (size_t i = 0; i < prod(r); ++i) b.push_back(val(B{}, "b"));
  for (size_t k = 0; k < prod(s); ++k) {
    B y = b[ravel(bidx(unravel(k, s), r), r)];
    if constexpr (sizeof(A) == 8 && !isF<A>) { int64_t q; if constexpr (!isF<B>) sym_assume(!__builtin_add_overflow((int64_t)a[k], (int64_t)y, &q)); }
    else if constexpr (!isF<A> && !isF<B>) sym_assume((int64_t)a[k] + (int64_t)y <= INT32_MAX && (int64_t)a[k] + (int64_t)y >= INT32_MIN);
    e.push_back((A)(a[k] + y));
  }
  Tensor t = mkVar<A>(s, a, va), u = mkVar<B>(r, b, vb);
  Tensor v = t[""];
  Tensor &res = t += u;
  sym_assert(&res == &t, "+= returns its target");
  expect<A>(t, s, e, "in-place addition");
  expect<A>(v, s, e, "in-place addition shows in other views");
  expect<B>(u, r, b, "in-place addition leaves the right-hand side alone");
  if (prod(r) != prod(s)) sym_cover("bc");
}
extern "C" void ints() {
  Shape s = pickT("s"), r = pickR("r");
  sym_assume(into(s, r));
  int va = pickVar(s, "la"), k = sym_choice(4, "type"), vb = sym_choice(2, "lb") ? (r.size() >= 2 ? 5 : 4) : 0;
  withType(k, [&](auto z) {
    using T = decltype(z);
    if constexpr (!isF<T>) go<T, T>(s, r, va, vb, [](auto q, const char *n) { return any<decltype(q)>(n); });
  });
  sym_cover("ints");
}
extern "C" void floats() {
  Shape s = pickT("s"), r = pickR("r");
  sym_assume(into(s, r));
  int va = pickVar(s, "la"), k = 4 + sym_choice(2, "type");
  withType(k, [&](auto z) {
    using T = decltype(z);
    if constexpr (isF<T>) go<T, T>(s, r, va, 0, [](auto q, const char *n) { return any<decltype(q)>(n); });
  });
  sym_cover("floats");
}
extern "C" void mixed() {
  int ka = sym_choice(6, "ka"), kb = sym_choice(6, "kb");
  Shape s = sym_choice(2, "s") ? Shape{2} : Shape{2, 1}, r = sym_choice(2, "r") ? Shape{} : Shape{1};
  if (s.size() == 1 && r.size() == 1 && sym_choice(2, "full")) r = {2};
  int va = sym_choice(2, "la") ? 2 : 0;
  withType(ka, [&](auto y) {
    using A = decltype(y);
    withType(kb, [&](auto z) {
      using B = decltype(z);
      go<A, B>(s, r, va, 0, [](auto q, const char *n) {
        using Q = decltype(q);
        if constexpr (isF<Q>) return (Q)((Q)sym_range(-240, 240, n) / 4);
        else return (Q)sym_range(-60, 60, n);
      });
    });
  });
  sym_cover("mixed");
}
extern "C" void errors() {
  switch (sym_choice(4, "what")) {
  case 3: { // itself
    Shape s = pickT("s");
    int va = pickVar(s, "la");
    auto a = smallv<int32_t>(prod(s), -1000000, 1000000, "a"), e = a;
    for (auto &x : e) x += x;
    Tensor t = mkVar<int32_t>(s, a, va), u = t[""];
    if (sym_choice(2, "view")) t += u;
    else t += t;
    expect<int32_t>(t, s, e, "a tensor added to itself in place");
    sym_cover("self");
    break;
  }
  case 0: { // shapes that do not broadcast
    Shape s = pickT("s"), r = pickR("r"), q;
    sym_assume(!bcast(s, r, q));
    auto a = anyv<int32_t>(prod(s), "a"), b = anyv<int32_t>(prod(r), "b");
    int va = pickVar(s, "la");
    Tensor t = mkVar<int32_t>(s, a, va), u = mk<int32_t>(r, b);
    sym_assert(throws([&] { t += u; }), "in-place addition of incompatible shapes is refused");
    expect<int32_t>(t, s, a, "a refused addition changes nothing");
    expect<int32_t>(u, r, b, "a refused addition changes nothing");
    sym_cover("shape");
    break;
  }
  case 1: { // a target that requires grad
    int k = sym_choice(2, "type");
    auto a = anyv<double>(2, "a");
    Tensor t = mk<double>({2}, a), u = k ? Tensor(1.5) : Tensor((int32_t)3);
    t.requires_grad(true);
    sym_assert(throwsRuntime([&] { t += u; }), "in-place addition to a tensor that requires grad is refused");
    Tensor d = t.detach();
    expect<double>(d, {2}, a, "a refused addition changes nothing");
    sym_cover("grad");
    break;
  }
  default: { // several in a row, through views
    auto a = smallv<int32_t>(4, -1000, 1000, "a");
    int32_t x = sym_range(-1000, 1000, "x"), y = sym_range(-1000, 1000, "y");
    Tensor t = mk<int32_t>({2, 2}, a);
    (t += Tensor(x)) += Tensor(y);
    Tensor row = t["1"], col = t[":,0"];
    row += Tensor(x);
    col += Tensor(y);
    expect<int32_t>(t, {2, 2}, {a[0] + x + y + y, a[1] + x + y, a[2] + x + y + x + y, a[3] + x + y + x}, "in-place additions through views add up");
    sym_cover("chain");
    sym_cover("views");
  }
  }
}
extern "C" void large() {
  Shape s = pickLarge("s"), r = s;
  int va = pickVar(s, "la"), ty = sym_choice(4, "types"), bc = sym_choice(4, "bc");
  if (!TIER) sym_assume(va != 1 && va != 3);
  if (bc == 1) r = {};
  if (bc == 2) r[0] = 1;
  if (bc == 3) r.erase(r.begin());
  static const int P[][2] = {{2, 2}, {5, 5}, {4, 2}, {1, 3}};
  withType(P[ty][0], [&](auto y) { withType(P[ty][1], [&](auto z) {
    go<decltype(y), decltype(z)>(s, r, va, 0, [](auto q, const char *n) { return (decltype(q))sym_range(-60, 60, n); });
  }); });
  sym_cover("large");
}
extern "C" void pairs() {
  int ka = sym_choice(6, "ka"), kb = sym_choice(6, "kb"), f = sym_choice(3, "form");
  Shape s = f == 1 ? Shape{3} : Shape{2, 2}, r = f == 2 ? Shape{2} : s;
  int va = pickVar(s, "la"), vb = pickVar(r, "lb");
  if (!TIER) sym_assume(f != 1 || ka == kb);
  withType(ka, [&](auto y) { withType(kb, [&](auto z) {
    go<decltype(y), decltype(z)>(s, r, va, vb, [](auto q, const char *n) { return (decltype(q))sym_range(-60, 60, n); });
  }); });
  sym_cover("pairs");
}
extern "C" void huge() {
  Shape s = pickHuge("s"), r = s;
  int va = pickHugeVar(s, "la"), ty = sym_choice(3, "types"), bc = sym_choice(3, "bc"), i = 0;
  if (bc == 1) r = {};
  if (bc == 2) r[0] = 1;
  static const int P[][2] = {{2, 2}, {5, 5}, {0, 4}};
  size_t n = prod(s);
  withType(P[ty][0], [&](auto y) { withType(P[ty][1], [&](auto z) {
    go<decltype(y), decltype(z)>(s, r, va, 0, [&](auto q, const char *m) { ++i; return (decltype(q))(i == 1 || (size_t)i == n || (size_t)i == n + 1 ? sym_range(-60, 60, m) : i * 7 % 61 - 30); });
  }); });
  sym_cover("huge");
}
