//@ entry: sums_int quick=150 thorough=1200
//@ entry: sums_flt quick=150 thorough=1200
//@ entry: mean3 quick=60 thorough=300
//@ entry: extrema quick=200 thorough=1800
//@ entry: empty quick=60 thorough=300
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ cover: sumi sumf meanf ext extf empty mean3 large huge
//@ bounds: tensors of 0..3 dimensions with up to 6 (thorough: 9) elements in 8 memory layouts, all dtypes; every i8/i16/i32 value, i64 values within +-2^40; floats: every multiple of 1/4 in -16..16 (sums, means over 1, 2, 4 or 8 elements), multiples of n in -2..2 for other means, every bit pattern but NaN (max, min); (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements), of which the extrema have three symbolic elements; (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed
//@ outside: larger tensors, rounding of float sums, NaN in max/min, the value of mean/max/min of an empty tensor
//@ oracle: sum in 64-bit integers (int64 result) or exactly (double result); mean: truncating integer division, or the exact quotient; max/min: an element not exceeded by any other, of the source's dtype; sum of an empty tensor is 0
#include "h.h"
static Shape pick(const char *n) {
  static const Shape S[] = {{}, {1}, {3}, {2, 3}, {2, 2}, {2, 1, 2}, {1, 4}, {3, 3}, {2, 2, 2}};
  return S[sym_choice(TIER ? 9 : 6, n)];
}
template <class T> static std::vector<T> ints(size_t n) {
  if constexpr (sizeof(T) == 8) {
    std::vector<T> r;
    for (size_t i = 0; i < n; ++i) r.push_back(sym_range(-(1ll << 40), 1ll << 40, "x"));
    return r;
  } else
    return anyv<T>(n, "x");
}
extern "C" void sums_int() {
  Shape s = pick("shape");
  int var = pickVar(s, "layout");
  withType(sym_choice(4, "type"), [&](auto z) {
    using T = decltype(z);
    if constexpr (!isF<T>) {
      size_t n = prod(s);
      auto d = ints<T>(n);
      Tensor t = mkVar<T>(s, d, var);
      int64_t sum = 0;
      for (auto x : d) sum += x;
      expect<int64_t>(t.sum(), {}, {sum}, "sum of an integer tensor");
      if (n <= 4) expect<int64_t>(t.mean(), {}, {sum / (int64_t)n}, "mean of an integer tensor");
      sym_cover("sumi");
    }
  });
}
extern "C" void sums_flt() {
  Shape s = pick("shape");
  int var = pickVar(s, "layout");
  withType(4 + sym_choice(2, "type"), [&](auto z) {
    using T = decltype(z);
    if constexpr (isF<T>) {
      size_t n = prod(s);
      std::vector<T> d;
      int64_t sum = 0; // in quarters
      for (size_t i = 0; i < n; ++i) {
        int64_t q = sym_range(-64, 64, "q");
        sum += q;
        d.push_back((T)q * (T)0.25);
      }
      Tensor t = mkVar<T>(s, d, var);
      expect<double>(t.sum(), {}, {(double)sum * 0.25}, "sum of a float tensor");
      sym_cover("sumf");
      if ((n & (n - 1)) == 0) {
        expect<double>(t.mean(), {}, {(double)sum * (0.25 / (double)n)}, "mean of a float tensor");
        sym_cover("meanf");
      }
    }
  });
}
// a number of elements that is no power of two: multiples of it, one value at a time
extern "C" void mean3() {
  bool dbl = sym_choice(2, "type");
  Shape s = sym_choice(2, "shape") ? Shape{3} : Shape{1, 3};
  int64_t k[3], sum = 0;
  for (auto &x : k) sum += x = sym_concrete(sym_range(-2, 2, "k"));
  Tensor m;
  if (dbl) m = mkVar<double>(s, {3.0 * k[0], 3.0 * k[1], 3.0 * k[2]}, 3).mean();
  else m = mkVar<float>(s, {3.0f * k[0], 3.0f * k[1], 3.0f * k[2]}, 3).mean();
  sym_assert(m.type() == f64 && m.size().size() == 0, "dtype and shape of a mean");
  Tensor e = m - Tensor((double)sum);
  sym_assert((e < Tensor(1e-6)).all() && (e > Tensor(-1e-6)).all(), "mean of three numbers");
  sym_cover("mean3");
}
extern "C" void extrema() {
  Shape s = pick("shape");
  int var = pickVar(s, "layout");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    size_t n = prod(s);
    sym_assume(n <= (TIER || sizeof(T) < 4 ? 9 : 4)); // wide types: orderings of six elements are the thorough tier's
    std::vector<T> d = anyv<T>(n, "x");
    if constexpr (isF<T>) { for (auto x : d) sym_assume(x == x); sym_cover("extf"); }
    T junk = isF<T> ? (T)1e30 : std::numeric_limits<T>::max();
    bool mx = sym_choice(2, "max");
    Tensor t = mkVar<T>(s, d, var, mx ? junk : (T)-junk);
    Tensor r = mx ? t.max() : t.min();
    sym_assert(r.type() == DT<T>::v && r.size().size() == 0, "dtype and shape of max and min");
    bool one = false;
    for (auto x : d) {
      one |= is<T>(r, x);
      sym_assert((mx ? (r >= Tensor(x)) : (r <= Tensor(x))).all(), "no element exceeds max or falls below min");
    }
    sym_assert(one, "max and min are elements of the tensor");
    sym_cover("ext");
  });
}
extern "C" void empty() {
  static const Shape S[] = {{0}, {2, 0}, {0, 3}, {1, 0, 2}};
  Shape s = S[sym_choice(4, "shape")];
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    Tensor t = sym_choice(2, "slice") ? mk<T>({2}, {T(1), T(2)})["2:"] : mk<T>(s, {});
    if constexpr (isF<T>) expect<double>(t.sum(), {}, {0.0}, "sum of nothing");
    else expect<int64_t>(t.sum(), {}, {0}, "sum of nothing");
    Tensor m = t.mean(), a = t.max(), b = t.min();
    sym_assert(m.type() == (isF<T> ? f64 : i64) && m.numel() == 1, "mean of nothing has a dtype and one element");
    sym_assert(a.type() == DT<T>::v && b.type() == DT<T>::v && a.numel() == 1 && b.numel() == 1, "max and min of nothing have a dtype and one element");
    sym_assert(t.all(), "all of nothing");
    sym_cover("empty");
  });
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int var = pickVar(s, "layout"), k = sym_choice(6, "type"), op = sym_choice(4, "op");
  if (!TIER) sym_assume(var != 1 && var != 3);
  size_t n = prod(s);
  withType(k, [&](auto z) {
    using T = decltype(z);
    std::vector<T> d;
    if (op < 2) {
      int64_t sum = 0;
      for (size_t i = 0; i < n; ++i) {
        T x = isF<T> ? (T)sym_range(-16, 16, "x") : (T)sym_range(-128, 127, "x");
        d.push_back(x);
        sum += (int64_t)x;
      }
      Tensor t = mkVar<T>(s, d, var);
      if (op == 0) {
        if constexpr (isF<T>) expect<double>(t.sum(), {}, {(double)sum}, "sum of more elements");
        else expect<int64_t>(t.sum(), {}, {sum}, "sum of more elements");
      } else if constexpr (!isF<T>) {
        std::vector<T> c(n, T(0)); // one symbolic element is enough for the division
        size_t hot = sym_choice(2, "hot") ? n - 1 : n / 2;
        c[hot] = d[hot];
        for (size_t i = 0; i < n; ++i) if (i != hot) c[i] = T(i % 5);
        int64_t q = 0;
        for (auto x : c) q += (int64_t)x;
        expect<int64_t>(mkVar<T>(s, c, var).mean(), {}, {q / (int64_t)n}, "mean of more elements");
      }
    } else {
      for (size_t i = 0; i < n; ++i) d.push_back(T((i * 7) % 11));
      size_t h = sym_choice(3, "hot"), hs[3] = {h == 0 ? 0 : n / 2, n - 1 - h, n / 3 + h};
      for (auto i : hs) d[i] = (T)sym_range(-20, 20, "x");
      T junk = op == 2 ? T(100) : T(-100);
      Tensor t = mkVar<T>(s, d, var, junk), r = op == 2 ? t.max() : t.min();
      T m = d[0];
      for (auto x : d) m = op == 2 ? (x > m ? x : m) : (x < m ? x : m);
      expect<T>(r, {}, {m}, "max and min of more elements");
    }
    sym_cover("large");
  });
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int var = pickHugeVar(s, "layout"), k = sym_choice(6, "type"), op = sym_choice(4, "op");
  size_t n = prod(s);
  withType(k, [&](auto z) {
    using T = decltype(z);
    auto d = hugev<T>(n, op < 2 ? -50 : -9, op < 2 ? 77 : 9, "x");
    int64_t sum = 0, hi = INT64_MIN, lo = INT64_MAX;
    for (auto x : d) {
      int64_t y = (int64_t)x;
      sum += y;
      hi = y > hi ? y : hi;
      lo = y < lo ? y : lo;
    }
    Tensor t = mkVar<T>(s, d, var);
    if (op == 0) {
      if constexpr (isF<T>) expect<double>(t.sum(), {}, {(double)sum}, "sum of many elements");
      else expect<int64_t>(t.sum(), {}, {sum}, "sum of many elements");
    } else if (op == 1) {
      if constexpr (!isF<T>) expect<int64_t>(t.mean(), {}, {sum / (int64_t)n}, "mean of many elements");
      else {
        sym_assume((n & (n - 1)) == 0);
        expect<double>(t.mean(), {}, {(double)sum / (double)n}, "mean of many elements");
      }
    } else if (op == 2) expect<T>(t.max(), {}, {(T)hi}, "max of many elements");
    else expect<T>(t.min(), {}, {(T)lo}, "min of many elements");
  });
  sym_cover("huge");
}
