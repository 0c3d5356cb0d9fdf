//@ entry: ints quick=150 thorough=1200
//@ entry: structure quick=100 thorough=900
//@ entry: edges quick=60 thorough=300
//@ entry: floats quick=100 thorough=600
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ cover: ints structure edges floats null large huge
//@ bounds: one element: every i8 value, other integer dtypes within +-999 (thorough: +-9999); shapes of 0..3 dimensions with sizes 0..3 in 8 memory layouts with values -12..12 (thorough: -99..99) in one element and fixed values elsewhere; extreme i32/i64 values; floats: multiples of 1/4 in -3..3 and a list of special values; (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions
//@ outside: digits of other floats (formatted by the C library)
//@ oracle: nested brackets, elements separated by ", ", integers in decimal, floats with six decimals; an empty Tensor prints as []
#include "h.h"
static std::string dec(int64_t v) { // decimal text, written independently of the library
  if (v < 0) return "-" + dec(-v);
  std::string s;
  if (v >= 10) s = dec(v / 10);
  s += (char)('0' + v % 10);
  return s;
}
static std::string nest(const Shape &s, size_t d, size_t &k, const std::vector<std::string> &e) {
  if (d == s.size()) return e[k++];
  std::string r = "[";
  for (size_t i = 0; i < s[d]; ++i) r += (i ? ", " : "") + nest(s, d + 1, k, e);
  return r + "]";
}
extern "C" void ints() {
  int k = sym_choice(4, "type");
  withType(k, [&](auto z) {
    using T = decltype(z);
    if constexpr (!isF<T>) {
      T v = sizeof(T) == 1 ? any<T>("v") : (T)sym_range(TIER ? -9999 : -999, TIER ? 9999 : 999, "v");
      std::string w = dec(v);
      int form = sym_choice(3, "form");
      if (form == 0) sym_assert(Tensor(v).to_string() == w, "text of a scalar");
      if (form == 1) sym_assert(mk<T>({1}, {v}).to_string() == "[" + w + "]", "text of one element");
      if (form == 2) sym_assert(mk<T>({2, 1}, {T(7), v})["1"].to_string() == "[" + w + "]", "text of a view");
      sym_cover("ints");
    }
  });
}
extern "C" void structure() {
  Shape s = pickShape(0, 3, 0, 3, "shape");
  sym_assume(prod(s) <= (TIER ? 18 : 6));
  int var = pickVar(s, "layout");
  size_t n = prod(s), hot = n ? sym_choice(TIER ? n : std::min<size_t>(n, 2), "which") : 0;
  if (!TIER && hot) hot = n - 1;
  withType(2 * sym_choice(2, "type"), [&](auto z) {
    using T = decltype(z);
    if constexpr (!isF<T>) {
      std::vector<T> d;
      std::vector<std::string> e;
      for (size_t i = 0; i < n; ++i) {
        d.push_back(i == hot ? (T)sym_concrete(sym_range(TIER ? -99 : -12, TIER ? 99 : 12, "v")) : (T)(i * 11 - 20));
        e.push_back(dec(d[i]));
      }
      Tensor t = mkVar<T>(s, d, var);
      size_t k = 0;
      sym_assert(t.to_string() == nest(s, 0, k, e), "text of a tensor");
      sym_cover("structure");
    }
  });
}
extern "C" void edges() {
  static const int64_t V[] = {0, -1, INT64_MAX, INT64_MIN + 1, INT32_MAX, INT32_MIN, 1000000007, -4294967296};
  static const char *S[] = {"0", "-1", "9223372036854775807", "-9223372036854775807", "2147483647", "-2147483648", "1000000007", "-4294967296"};
  int i = sym_choice(8, "v");
  sym_assert(Tensor(V[i]).to_string() == S[i], "text of an i64");
  sym_assert(mk<int64_t>({1, 2}, {V[i], 5}).to_string() == std::string("[[") + S[i] + ", 5]]", "text of i64 elements");
  if (V[i] == (int32_t)V[i]) sym_assert(Tensor((int32_t)V[i]).to_string() == S[i], "text of an i32");
  sym_cover("edges");
  Tensor none;
  sym_assert(none.to_string() == "[]", "text of an empty Tensor");
  sym_cover("null");
}
extern "C" void floats() {
  static const double V[] = {0, 0.5, -2.25, 1e6, 123456.789, 1e-7, -3, 0.125};
  static const char *S[] = {"0.000000", "0.500000", "-2.250000", "1000000.000000", "123456.789000", "0.000000", "-3.000000", "0.125000"};
  bool dbl = sym_choice(2, "type");
  if (sym_choice(2, "list")) {
    int i = sym_choice(8, "v");
    if (dbl) sym_assert(Tensor(V[i]).to_string() == S[i], "text of an f64");
    else if (i != 4) sym_assert(Tensor((float)V[i]).to_string() == S[i], "text of an f32");
  } else {
    int64_t q = sym_concrete(sym_range(-12, 12, "q"));
    int64_t a = q < 0 ? -q : q;
    std::string w = (q < 0 ? "-" : "") + dec(a / 4) + (a % 4 == 0 ? ".000000" : a % 4 == 1 ? ".250000" : a % 4 == 2 ? ".500000" : ".750000");
    if (dbl) sym_assert(mkVar<double>({2, 1}, {q * 0.25, 1.0}, 5).to_string() == "[[" + w + "], [1.000000]]", "text of f64 elements");
    else sym_assert(mkVar<float>({2, 1}, {q * 0.25f, 1.0f}, 5).to_string() == "[[" + w + "], [1.000000]]", "text of f32 elements");
  }
  sym_cover("floats");
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int var = pickVar(s, "layout");
  size_t n = prod(s), hot = sym_choice(2, "which") ? n - 1 : n / 2;
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    std::vector<T> d;
    std::vector<std::string> e;
    for (size_t i = 0; i < n; ++i) {
      int64_t v = i == hot ? sym_concrete(sym_range(9, 10, "v")) : (int64_t)i * 5 - 20;
      d.push_back((T)v);
      e.push_back(dec(v) + (isF<T> ? ".000000" : ""));
    }
    Tensor t = mkVar<T>(s, d, var);
    size_t k = 0;
    sym_assert(t.to_string() == nest(s, 0, k, e), "text of a larger tensor");
    sym_cover("large");
  });
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int var = pickHugeVar(s, "layout");
  size_t n = prod(s);
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    std::vector<T> d;
    std::vector<std::string> e;
    int64_t h = sym_concrete(sym_range(-1, 0, "v"));
    for (size_t i = 0; i < n; ++i) {
      int64_t v = i + 1 == n ? h : (int64_t)(i * 5 % 128) - 20;
      d.push_back((T)v);
      e.push_back(dec(v) + (isF<T> ? ".000000" : ""));
    }
    Tensor t = mkVar<T>(s, d, var);
    size_t k = 0;
    sym_assert(t.to_string() == nest(s, 0, k, e), "text of a tensor of many elements");
    sym_cover("huge");
  });
}
