//@ entry: bc_shapes quick=200 thorough=1800
//@ entry: bc_layouts quick=120 thorough=1200
//@ entry: bc_zero quick=60 thorough=300
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ entry: refused quick=120 thorough=900
//@ cover: ok mismatch layouts zero large bad huge refused
//@ bounds: operand shapes with 0 to 2 dimensions of size 1..3 (thorough: 0 to 3 dimensions of size 1..2 as well), every pair, compatible or not; all ten binary operators; every value of the (int16/int32) elements; layouts: 4 memory layouts per operand on 2-d operands; (entry large) 19 pairs of shapes of up to 5 dimensions and sizes up to 7, in either order, also with different dtypes; (entry huge) ten pairs of shapes whose result has up to 300 elements or 7 dimensions, in either order, first, middle and last element of each operand symbolic; (entry refused) every pair of 1- and 2-dimensional shapes of sizes 1..6, and of 3-dimensional shapes of sizes 1, 2, 4, that does not match, under one operator each (thorough: all ten)
//@ outside: more than 3 dimensions; sizes above 3; a size-0 dimension against size 1 (the library rejects it, its tests pin that)
//@ oracle: NumPy broadcasting: align on the right, sizes must match or be 1, result size is the other one; element (i...) combines each operand's element at i with its size-1 dimensions indexed 0
#include "h.h"
static Tensor apply(int op, const Tensor &a, const Tensor &b) {
  switch (op) {
  case 0: return a + b;
  case 1: return a - b;
  case 2: return a * b;
  case 3: return a / b;
  case 4: return a < b;
  case 5: return a > b;
  case 6: return a <= b;
  case 7: return a >= b;
  case 8: return a == b;
  default: return a != b;
  }
}
static int64_t ref(int op, int64_t a, int64_t b) {
  switch (op) {
  case 0: return a + b;
  case 1: return a - b;
  case 2: return a * b;
  case 3: return a;
  case 4: return a < b;
  case 5: return a > b;
  case 6: return a <= b;
  case 7: return a >= b;
  case 8: return a == b;
  default: return a != b;
  }
}
template <class T> static void one(int op, const Shape &sa, const Shape &sb, int va, int vb) {
  std::vector<T> a = anyv<T>(prod(sa), "a"), b;
  for (size_t k = 0; k < prod(sb); ++k) b.push_back(op == 3 ? T(k % 2 ? 3 : -2) : any<T>("b"));
  Tensor ta = mkVar<T>(sa, a, va), tb = mkVar<T>(sb, b, vb);
  Shape r;
  if (!bcast(sa, sb, r)) {
    sym_assert(throwsRuntime([&] { apply(op, ta, tb); }), "operands that cannot be broadcast are rejected with runtime_error");
    sym_cover("mismatch");
    return;
  }
  Tensor t = apply(op, ta, tb);
  sym_assert(shapeOf(t) == r, "shape of a broadcast result");
  sym_assert(t.type() == (op >= 4 ? i8 : DT<T>::v), "dtype of a broadcast result");
  for (size_t k = 0; k < prod(r); ++k) {
    Shape i = unravel(k, r);
    T x = a[ravel(bidx(i, sa), sa)], y = b[ravel(bidx(i, sb), sb)];
    Tensor e = at(t, i);
    if (op >= 4) sym_assert(is<int8_t>(e, (int8_t)ref(op, x, y)), "element of a broadcast comparison");
    else if (op == 3) sym_assert(is<T>(e, (T)(x / y)), "element of a broadcast quotient");
    else sym_assert(is<T>(e, (T)ref(op, x, y)), "element of a broadcast result");
  }
  sym_cover("ok");
}
extern "C" void bc_shapes() {
  Shape sa, sb;
  if (TIER && sym_choice(2, "rank3")) { sa = pickShape(0, 3, 1, 2, "sa"); sb = pickShape(3, 3, 1, 2, "sb"); }
  else { sa = pickShape(0, 2, 1, 3, "sa"); sb = pickShape(0, 2, 1, 3, "sb"); }
  int op = sym_choice(10, "op");
  if (!TIER && sa.size() == 2 && sb.size() == 2) sym_assume(op == 0 || op == 1 || op == 3 || op == 8 || op == 4);
  one<int16_t>(op, sa, sb, 0, 0);
}
extern "C" void bc_layouts() {
  static const Shape A[] = {{2, 2}, {2, 1}, {1, 2}, {2}, {1}, {}, {2, 1, 2}};
  Shape sa = A[sym_choice(7, "sa")], sb = A[sym_choice(7, "sb")];
  int op = sym_choice(4, "op");
  op = op == 0 ? 0 : op == 1 ? 2 : op == 2 ? 1 : 5;
  int va = pickVar(sa, "la"), vb = pickVar(sb, "lb");
  if (!TIER) { sym_assume(va == 0 || va == 2 || va == 5 || va == 7); sym_assume(vb == 0 || vb == 4 || vb == 1 || vb == 6); }
  one<int32_t>(op, sa, sb, va, vb);
  sym_cover("layouts");
}
// size 0: equal sizes combine to an empty result, other sizes >= 2 are rejected
extern "C" void bc_zero() {
  static const Shape A[] = {{0}, {2}, {2, 0}, {0, 2}, {0, 0}, {3, 0}};
  Shape sa = A[sym_choice(6, "sa")], sb = A[sym_choice(6, "sb")];
  int op = sym_choice(10, "op");
  one<int16_t>(op, sa, sb, 0, 0);
  sym_cover("zero");
}
extern "C" void large() {
  static const Shape S[][2] = {{{2, 1, 3, 2}, {3, 1}}, {{1, 2, 1, 2, 2}, {2, 1, 1}}, {{4, 1}, {1, 5}}, {{2, 3, 1}, {4}}, {{2, 1, 2}, {3, 2}}, {{2, 2, 1, 3}, {3}},
                               {{7}, {2, 1}}, {{1, 1, 1, 2}, {3, 1, 2, 1}}, {{2, 3, 2}, {1, 3, 1}}, {{1, 5}, {2, 1, 1}}, {{6, 1, 2}, {1, 2}}, {{2, 2, 2, 2}, {}}, {{2, 1, 1, 1, 2}, {1, 2, 3, 1, 1}},
                               {{2, 3, 2}, {2, 2}}, {{2, 1, 3, 2}, {2, 2, 2}}, {{4}, {5}}, {{2, 3, 4}, {3, 3, 4}}, {{2, 2, 1, 3}, {2}}, {{3, 1, 2}, {2, 1, 2}}};
  int p = sym_choice(19, "shapes"), op = sym_choice(10, "op"), sw = sym_choice(2, "swap"), ty = sym_choice(3, "types");
  Shape sa = S[p][sw], sb = S[p][1 - sw], r;
  withType(ty == 1 ? 0 : 2, [&](auto l) { withType(ty == 2 ? 1 : 3, [&](auto q) {
    using L = decltype(l); using R = decltype(q);
    if constexpr (!isF<L> && !isF<R>) {
      using P = std::conditional_t<(sizeof(L) >= sizeof(R)), L, R>;
      auto a = smallv<L>(prod(sa), -9, 9, "a");
      std::vector<R> b;
      for (size_t k = 0; k < prod(sb); ++k) b.push_back(op == 3 ? R(k % 2 ? 3 : -2) : (R)sym_range(-9, 9, "b"));
      Tensor ta = mk<L>(sa, a), tb = mk<R>(sb, b);
      if (!bcast(sa, sb, r)) {
        sym_assert(throwsRuntime([&] { apply(op, ta, tb); }), "operands that cannot be broadcast are rejected with runtime_error");
        sym_cover("bad");
        return;
      }
      Tensor t = apply(op, ta, tb);
      std::vector<P> e;
      for (size_t k = 0; k < prod(r); ++k) {
        Shape i = unravel(k, r);
        int64_t x = a[ravel(bidx(i, sa), sa)], y = b[ravel(bidx(i, sb), sb)];
        e.push_back((P)(op == 3 ? x / y : ref(op, x, y)));
      }
      if (op >= 4) expect<int8_t>(t, r, std::vector<int8_t>(e.begin(), e.end()), "broadcast comparison of larger shapes");
      else expect<P>(t, r, e, "broadcast of larger shapes");
      sym_cover("large");
    }
  }); });
}
extern "C" void huge() {
  static const Shape S[][2] = {{{130}, {2, 1}}, {{2, 1}, {1, 130}}, {{130, 1}, {2}}, {{2, 1, 1, 3, 1, 2}, {2, 1, 1}}, {{1, 1, 1, 1, 1, 1, 3}, {4}}, {{1, 2, 1, 2, 1, 2, 1}, {2, 1, 3}},
                               {{300}, {}}, {{300}, {1}}, {{300}, {150}}, {{3, 1, 1, 1, 1, 1}, {3, 2, 1, 1, 1, 1, 1}}};
  int p = sym_choice(10, "shapes"), op = sym_choice(TIER ? 10 : 5, "op") * (TIER ? 1 : 2), sw = sym_choice(2, "swap");
  Shape sa = S[p][sw], sb = S[p][1 - sw], r;
  auto a = hugev<int32_t>(prod(sa), -9, 9, "a"), b = hugev<int32_t>(prod(sb), -8, 8, "b");
  if (op == 3) for (size_t k = 0; k < b.size(); ++k) b[k] = k % 2 ? 3 : -2;
  Tensor ta = mk<int32_t>(sa, a), tb = mk<int32_t>(sb, b);
  if (!bcast(sa, sb, r)) {
    sym_assert(throwsRuntime([&] { apply(op, ta, tb); }), "operands that cannot be broadcast are rejected with runtime_error");
    return;
  }
  std::vector<int32_t> e;
  for (size_t k = 0; k < prod(r); ++k) {
    Shape i = unravel(k, r);
    int64_t x = a[ravel(bidx(i, sa), sa)], y = b[ravel(bidx(i, sb), sb)];
    e.push_back((int32_t)(op == 3 ? x / y : ref(op, x, y)));
  }
  Tensor t = apply(op, ta, tb);
  if (op >= 4) expect<int8_t>(t, r, std::vector<int8_t>(e.begin(), e.end()), "broadcast comparison of many elements");
  else expect<int32_t>(t, r, e, "broadcast of many elements");
  sym_cover("huge");
}
// every mismatch of sizes up to 6 is refused
extern "C" void refused() {
  static const size_t Z[] = {1, 2, 4};
  auto pick = [&](bool three, const char *nm) {
    Shape s;
    if (three) for (int i = 0; i < 3; ++i) s.push_back(Z[sym_choice(3, nm)]);
    else {
      int d = 1 + sym_choice(2, nm);
      for (int i = 0; i < d; ++i) s.push_back(1 + sym_choice(6, nm));
    }
    return s;
  };
  bool three = sym_choice(2, "three");
  Shape sa = pick(three, "a"), sb = pick(three, "b"), r;
  if (bcast(sa, sb, r)) return;
  int op = TIER ? sym_choice(10, "op") : (prod(sa) + 3 * prod(sb)) % 10;
  Tensor ta = Tensor::ones(sizevec(sa), i32), tb = Tensor::ones(sizevec(sb), i32);
  sym_assert(throwsRuntime([&] { apply(op, ta, tb); }), "operands whose sizes differ and are not 1 are rejected with runtime_error");
  sym_cover("refused");
}
