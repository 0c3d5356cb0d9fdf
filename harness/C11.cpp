//@ entry: unary quick=200 thorough=1800
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ cover: abs neg pos large huge
//@ bounds: tensors of 0..3 dimensions with up to 6 (thorough: 12) elements in 8 memory layouts, all dtypes, every element value (integers: except the most negative one); (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed
//@ outside: larger tensors, the most negative integer (its magnitude is not representable)
//@ oracle: |x|, -x and x of the same dtype and shape; the source is unchanged
#include "h.h"
extern "C" void unary() {
  static const Shape S[] = {{}, {1}, {3}, {2, 3}, {2, 1, 2}, {2, 0}, {0}, {3, 4}, {2, 2, 3}};
  Shape s = S[sym_choice(TIER ? 9 : 7, "shape")];
  int var = pickVar(s, "layout"), op = sym_choice(3, "op");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    auto d = anyv<T>(prod(s), "x");
    std::vector<T> w;
    for (auto x : d) {
      if constexpr (!isF<T>) sym_assume(x != std::numeric_limits<T>::min());
      w.push_back(op == 0 ? (T)(x < 0 ? -x : x) : op == 1 ? (T)-x : x);
    }
    Tensor t = mkVar<T>(s, d, var);
    Tensor r = op == 0 ? t.abs() : op == 1 ? -t : +t;
    expect<T>(r, s, w, op == 0 ? "abs" : op == 1 ? "unary minus" : "unary plus");
    expect<T>(t, s, d, "a unary operation leaves its operand alone");
    sym_cover(op == 0 ? "abs" : op == 1 ? "neg" : "pos");
  });
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int var = pickVar(s, "layout"), op = sym_choice(2, "op");
  if (!TIER) sym_assume(var != 1 && var != 3);
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    auto d = smallv<T>(prod(s), -100, 100, "x");
    std::vector<T> w;
    for (auto x : d) w.push_back(op == 0 ? (T)(x < 0 ? -x : x) : (T)-x);
    Tensor t = mkVar<T>(s, d, var);
    expect<T>(op == 0 ? t.abs() : -t, s, w, op == 0 ? "abs of more elements" : "unary minus of more elements");
    sym_cover("large");
  });
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int var = pickHugeVar(s, "layout"), op = sym_choice(2, "op");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    auto d = hugev<T>(prod(s), -100, 100, "x");
    std::vector<T> w;
    for (auto x : d) w.push_back(op == 0 ? (T)(x < 0 ? -x : x) : (T)-x);
    Tensor t = mkVar<T>(s, d, var);
    expect<T>(op == 0 ? t.abs() : -t, s, w, op == 0 ? "abs of many elements" : "unary minus of many elements");
    sym_cover("huge");
  });
}
