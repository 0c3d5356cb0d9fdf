//@ entry: values quick=150 thorough=1800
//@ entry: errors quick=60 thorough=300
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ cover: values twice err large huge
//@ bounds: 2 or 3 (thorough: 4) dimensions of size 0..2 (thorough: 0..3), every pair of dimensions, 6 memory layouts, every element value of i8, i32, i64, f32 and f64 tensors; out-of-range arguments: every 64-bit value; (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed
//@ outside: larger tensors
//@ oracle: element (.., i, .., j, ..) of the transpose is element (.., j, .., i, ..) of the source; equal or out-of-range dimensions raise runtime_error
#include "h.h"
extern "C" void values() {
  static const int K[] = {2, 5, 0, 3, 4};
  Shape s = pickShape(2, TIER ? 4 : 3, 0, TIER ? 3 : 2, "shape");
  sym_assume(prod(s) <= (TIER ? 24 : 8));
  int var = pickVar(s, "layout");
  size_t a = sym_choice(s.size(), "a"), b = sym_choice(s.size(), "b");
  sym_assume(a != b);
  bool st = sym_choice(2, "static");
  int k = K[sym_choice(TIER ? 5 : (s.size() == 2 ? 5 : 1), "type")];
  withType(k, [&](auto z) {
    using T = decltype(z);
    auto d = anyv<T>(prod(s), "x");
    Tensor t = mkVar<T>(s, d, var);
    Tensor r = st ? Tensor::transpose(t, a, b) : t.transpose(a, b);
    View v = vTranspose(whole(s), a, b);
    std::vector<T> x;
    for (auto m : v.m) x.push_back(d[m]);
    expect<T>(r, v.s, x, "transpose exchanges two dimensions");
    sym_cover("values");
    Tensor u = r.transpose(b, a);
    expect<T>(u, s, d, "transposing twice gives the tensor back");
    size_t c = 0;
    while (c == a || c == b) ++c;
    if (c < s.size()) { // three dimensions: a cycle
      Tensor w = r.transpose(b, c);
      View v2 = vTranspose(v, b, c);
      std::vector<T> y;
      for (auto m : v2.m) y.push_back(d[m]);
      expect<T>(w, v2.s, y, "transposes compose");
      sym_cover("twice");
    }
  });
}
extern "C" void errors() {
  Shape s = pickShape(0, 3, 1, 2, "shape");
  auto d = anyv<int32_t>(prod(s), "x");
  Tensor t = mk<int32_t>(s, d);
  size_t a = any<int64_t>("a"), b = any<int64_t>("b");
  bool bad = a >= s.size() || b >= s.size() || a == b;
  sym_assume(bad);
  bool st = sym_choice(2, "static");
  sym_assert(throwsRuntime([&] { st ? Tensor::transpose(t, a, b) : t.transpose(a, b); }), "transpose rejects equal or out-of-range dimensions");
  expect<int32_t>(t, s, d, "a rejected transpose changes nothing");
  sym_cover("err");
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  sym_assume(s.size() >= 2);
  int var = pickVar(s, "layout");
  if (!TIER) sym_assume(var == 0 || var == 2 || var == 5 || var == 7);
  size_t a = sym_choice(s.size(), "a"), b = sym_choice(s.size(), "b");
  sym_assume(a != b);
  auto d = anyv<int32_t>(prod(s), "x");
  Tensor t = mkVar<int32_t>(s, d, var);
  View v = vTranspose(whole(s), a, b);
  std::vector<int32_t> x;
  for (auto m : v.m) x.push_back(d[m]);
  Tensor r = t.transpose(a, b);
  expect<int32_t>(r, v.s, x, "transpose of more elements and dimensions");
  expect<int32_t>(r.transpose(a, b), s, d, "transposing twice gives the tensor back");
  sym_cover("large");
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  sym_assume(s.size() >= 2);
  int var = pickHugeVar(s, "layout");
  size_t a = sym_choice(s.size(), "a"), b = sym_choice(s.size(), "b");
  sym_assume(a != b);
  auto d = hugev<int32_t>(prod(s), -99, 99, "x");
  Tensor t = mkVar<int32_t>(s, d, var);
  View v = vTranspose(whole(s), a, b);
  std::vector<int32_t> x;
  for (auto m : v.m) x.push_back(d[m]);
  Tensor r = t.transpose(a, b);
  expect<int32_t>(r, v.s, x, "transpose of many elements");
  sym_assert(throwsRuntime([&] { t.transpose(a, s.size()); }) && throwsRuntime([&] { t.transpose(s.size() + 1, b); }), "a dimension out of range is refused");
  sym_cover("huge");
}
