//@ entry: filled quick=150 thorough=1200
//@ entry: full_int quick=60 thorough=600
//@ entry: full_flt quick=60 thorough=600
//@ entry: blob quick=100 thorough=900
//@ entry: lists quick=60 thorough=300
//@ entry: scalars quick=60 thorough=300
//@ entry: toobig quick=60 thorough=300
//@ entry: large quick=120 thorough=900
//@ entry: mixlist quick=120 thorough=600
//@ entry: huge quick=150 thorough=900
//@ cover: zeros ones eye fulli fullf blob list1 list2 list3 badlist scalar like big large mixlist huge
//@ bounds: shapes of 0..3 dimensions with sizes 0..3 (thorough: 0..4), all dtypes; full: every 64-bit integer, every integer-valued double in -100..100 and every bit pattern into f64/f32; from_blob: every element value; nested lists up to three levels; sizes whose product overflows 64 bits; (entry large) ten shapes up to 42 elements and 5 dimensions (quick: five up to 20 elements); eye up to 7x5; (entry mixlist) nested lists of 1..3 rows with different dtypes or lengths at any row, and of 1..4 rows of equal ones; (entry huge) seven shapes (quick: four) of up to 300 elements or 7 dimensions, first, middle and last element symbolic, the others fixed; eye up to 20x17
//@ outside: larger tensors; full with a double out of the range of an integer dtype; empty nested lists
//@ oracle: the definition of each constructor; conversions as in C++; from_blob copies; lists of unequal shapes raise invalid_argument; sizes that overflow raise an exception instead of returning a tensor
#include "h.h"
extern "C" void filled() {
  Shape s = pickShape(0, 3, 0, TIER ? 4 : 3, "shape");
  sym_assume(prod(s) <= (TIER ? 24 : 9));
  int k = sym_choice(6, "type"), op = sym_choice(4, "op");
  withType(k, [&](auto z) {
    using T = decltype(z);
    size_t n = prod(s);
    std::vector<T> zeros(n, T(0)), ones(n, T(1));
    if (op == 0) { expect<T>(sym_choice(2, "free") ? INNC::zeros(sizevec(s), DT<T>::v) : Tensor::zeros(sizevec(s), DT<T>::v), s, zeros, "zeros"); sym_cover("zeros"); }
    if (op == 1) { expect<T>(sym_choice(2, "free") ? INNC::ones(sizevec(s), DT<T>::v) : Tensor::ones(sizevec(s), DT<T>::v), s, ones, "ones"); sym_cover("ones"); }
    if (op == 2) {
      int var = pickVar(s, "layout", TIER ? 8 : 3);
      Tensor t = mkVar<T>(s, anyv<T>(n, "x"), var);
      expect<T>(Tensor::zeros_like(t), s, zeros, "zeros_like");
      expect<T>(Tensor::ones_like(t), s, ones, "ones_like");
      sym_cover("like");
    }
    if (op == 3) {
      sym_assume(s.size() == 1 || s.size() == 2);
      size_t a = s[0], b = s.size() == 2 ? s[1] : s[0];
      std::vector<T> e(a * b, T(0));
      for (size_t i = 0; i < a && i < b; ++i) e[i * b + i] = T(1);
      expect<T>(s.size() == 2 ? Tensor::eye(a, b, DT<T>::v) : Tensor::eye(a, DT<T>::v), {a, b}, e, "eye");
      if (k == 0) {
        if constexpr (std::is_same_v<T, int8_t>) expect<T>(s.size() == 2 ? Tensor::eye(a, b) : Tensor::eye(a), {a, b}, e, "eye has dtype i8 by default");
      }
      sym_cover("eye");
    }
  });
}
extern "C" void full_int() {
  Shape s = pickShape(0, 2, 0, 2, "shape");
  int64_t v = any<int64_t>("v");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    std::vector<T> w(prod(s), (T)v);
    expect<T>(sym_choice(2, "free") ? INNC::full(sizevec(s), v, DT<T>::v) : Tensor::full(sizevec(s), v, DT<T>::v), s, w, "full with an integer");
    sym_cover("fulli");
  });
}
extern "C" void full_flt() {
  Shape s = pickShape(0, 2, 0, 2, "shape");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    double v;
    if constexpr (isF<T>) v = any<double>("v");
    else v = (double)sym_range(-100, 100, "v");
    std::vector<T> w(prod(s), (T)v);
    expect<T>(sym_choice(2, "free") ? INNC::full(sizevec(s), v, DT<T>::v) : Tensor::full(sizevec(s), v, DT<T>::v), s, w, "full with a double");
    if constexpr (!isF<T>) { // fractions are dropped
      std::vector<T> u(prod(s), (T)7);
      expect<T>(Tensor::full(sizevec(s), 7.75, DT<T>::v), s, u, "full with a fraction");
    }
    sym_cover("fullf");
  });
}
extern "C" void blob() {
  Shape s = pickShape(0, 3, 0, 2, "shape");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    size_t n = prod(s);
    std::vector<T> d = anyv<T>(n, "x"), e = d;
    e.push_back(T(1)); // so that there is a buffer even for no elements
    Tensor t = sym_choice(2, "free") ? INNC::from_blob(e.data(), sizevec(s), DT<T>::v) : Tensor::from_blob(e.data(), sizevec(s), DT<T>::v);
    for (auto &x : e) x = T(42);
    e.clear();
    e.shrink_to_fit(); // the tensor must not refer to the caller's buffer
    expect<T>(t, s, d, "from_blob copies the buffer");
    Tensor u(sizevec(s), DT<T>::v); // uninitialised
    sym_assert(shapeOf(u) == s && u.type() == DT<T>::v && u.numel() == n, "shape and dtype of an uninitialised tensor");
    sym_cover("blob");
  });
}
template <class T> static void listsOf() {
  T a = any<T>("a"), b = any<T>("b"), c = any<T>("c"), d = any<T>("d"), e = any<T>("e"), f = any<T>("f");
  switch (sym_choice(5, "form")) {
  case 0: { Tensor t({a, b, c}); expect<T>(t, {3}, {a, b, c}, "a list"); sym_cover("list1"); break; }
  case 1: { Tensor t({{a, b, c}, {d, e, f}}); expect<T>(t, {2, 3}, {a, b, c, d, e, f}, "a nested list"); sym_cover("list2"); break; }
  case 2: { Tensor t({{{a, b}, {c, d}}, {{e, f}, {b, a}}}); expect<T>(t, {2, 2, 2}, {a, b, c, d, e, f, b, a}, "a doubly nested list"); sym_cover("list3"); break; }
  case 3: { Tensor t; t = TensorInit{{a}, {b}, {c}}; expect<T>(t, {3, 1}, {a, b, c}, "assigning a list"); break; }
  default:
    sym_assert(throws([&] { Tensor t({{a, b}, {c}}); }), "a ragged list is rejected");
    sym_assert(throws([&] { Tensor t({{a, b, c}, {d, e}}); }), "a ragged list is rejected");
    sym_cover("badlist");
  }
}
extern "C" void lists() {
  withType(sym_choice(6, "type"), [&](auto z) { listsOf<decltype(z)>(); });
}
extern "C" void scalars() {
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    T v = any<T>("v");
    Tensor t(v);
    expect<T>(t, {}, {v}, "a scalar");
    Tensor u = std::move(t);
    expect<T>(u, {}, {v}, "a moved scalar");
    Tensor w;
    w = u;
    expect<T>(w, {}, {v}, "an assigned scalar");
    sym_cover("scalar");
  });
}
extern "C" void toobig() {
  static const Shape S[] = {{1ull << 32, 1ull << 32}, {1ull << 63, 2}, {1ull << 62, 4, 1}, {(1ull << 61) + 1}, {3, 0x5555555555555556ull}, {~0ull, ~0ull}, {2, 1ull << 60, 8}};
  Shape s = S[sym_choice(7, "shape")];
  types t = s.size() == 1 ? (sym_choice(2, "t") ? f64 : i64) : (types)sym_choice(6, "t");
  int op = sym_choice(6, "op");
  sym_assert(throws([&] {
    switch (op) {
    case 0: Tensor::zeros(sizevec(s), t); break;
    case 1: Tensor::ones(sizevec(s), t); break;
    case 2: Tensor::full(sizevec(s), (int64_t)1, t); break;
    case 3: Tensor::full(sizevec(s), 1.0, t); break;
    case 4: { Tensor x(sizevec(s), t); break; }
    default: if (s.size() == 2) Tensor::eye(s[0], s[1], t); else Tensor::zeros(sizevec(s), t);
    }
  }), "a tensor of more than 2^64 bytes is rejected");
  sym_cover("big");
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int op = sym_choice(7, "op");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    size_t n = prod(s);
    switch (op) {
    case 0: expect<T>(Tensor::zeros(sizevec(s), DT<T>::v), s, std::vector<T>(n, T(0)), "zeros"); break;
    case 1: expect<T>(Tensor::ones(sizevec(s), DT<T>::v), s, std::vector<T>(n, T(1)), "ones"); break;
    case 2: {
      int64_t v = sym_range(-100, 100, "v");
      expect<T>(Tensor::full(sizevec(s), v, DT<T>::v), s, std::vector<T>(n, (T)v), "full with an integer");
      break;
    }
    case 3: {
      auto d = anyv<T>(n, "x");
      auto e = d;
      Tensor t = Tensor::from_blob(e.data(), sizevec(s), DT<T>::v);
      for (auto &x : e) x = T(42);
      expect<T>(t, s, d, "from_blob copies the buffer");
      break;
    }
    case 4: {
      Tensor t = mkVar<T>(s, std::vector<T>(n, T(3)), varOk(5, s) ? 5 : 4);
      expect<T>(Tensor::zeros_like(t), s, std::vector<T>(n, T(0)), "zeros_like");
      expect<T>(Tensor::ones_like(t), s, std::vector<T>(n, T(1)), "ones_like");
      break;
    }
    case 5: {
      size_t a = 4 + sym_choice(4, "a"), b = 3 + sym_choice(5, "b");
      std::vector<T> e(a * b, T(0));
      for (size_t i = 0; i < a && i < b; ++i) e[i * b + i] = T(1);
      expect<T>(Tensor::eye(a, b, DT<T>::v), {a, b}, e, "eye");
      break;
    }
    default: {
      T a = any<T>("a"), b = any<T>("b"), c = any<T>("c");
      Tensor t({{{{a}, {b}, {c}}, {{c}, {a}, {b}}}, {{{b}, {b}, {a}}, {{c}, {c}, {c}}}});
      expect<T>(t, {2, 2, 3, 1}, {a, b, c, c, a, b, b, b, a, c, c, c}, "a triply nested list");
      Tensor u({a, b, c, a, b, c, a, b, c, a, b});
      expect<T>(u, {11}, {a, b, c, a, b, c, a, b, c, a, b}, "a long list");
    }
    }
    sym_cover("large");
  });
}
// rows of equal length and dtype give a tensor, any others an exception
template <class A, class B> static void rows() {
  A a = any<A>("a"), b = any<A>("b");
  B c = any<B>("c"), d = any<B>("d");
  constexpr bool same = std::is_same_v<A, B>;
  int form = sym_choice(8, "form");
  auto check = [&](auto f, const Shape &s, const std::vector<A> &e, bool good) {
    if (good) { Tensor t = f(); expect<A>(t, s, e, "rows of equal length and dtype"); }
    else sym_assert(throws([&] { f(); }), "rows of different length or dtype are rejected");
  };
  switch (form) {
  case 0: check([&] { return Tensor({{a, b}, {c, d}}); }, {2, 2}, {a, b, (A)c, (A)d}, same); break;
  case 1: check([&] { return Tensor({{a, b}, {b, a}, {c, d}}); }, {3, 2}, {a, b, b, a, (A)c, (A)d}, same); break;
  case 2: check([&] { return Tensor({{a}, {c}, {b}}); }, {3, 1}, {a, (A)c, b}, same); break;
  case 3: check([&] { return Tensor({{{a}, {b}}, {{b}, {c}}}); }, {2, 2, 1}, {a, b, b, (A)c}, same); break;
  case 4: check([&] { return Tensor({{a, b}, {b, a}, {c}}); }, {}, {}, false); break;
  case 5: check([&] { return Tensor({{a}, {b}, {c, d}}); }, {}, {}, false); break;
  case 6: check([&] { return Tensor({{{a, b}, {b, a}}, {{c, d}}}); }, {}, {}, false); break;
  default: check([&] { return Tensor({{a, b}, {b, a}, {a, a}, {b, b}}); }, {4, 2}, {a, b, b, a, a, a, b, b}, true);
  }
}
extern "C" void mixlist() {
  int p = sym_choice(6, "a"), q = sym_choice(6, "b");
  withType(p, [&](auto x) { withType(q, [&](auto y) {
    if constexpr (std::is_same_v<decltype(x), decltype(y)> || sizeof(x) == sizeof(y) || sizeof(x) == 4) rows<decltype(x), decltype(y)>();
    else sym_assume(false);
  }); });
  sym_cover("mixlist");
}
extern "C" void huge() {
  Shape s = pickHuge("shape");
  int op = sym_choice(5, "op");
  withType(sym_choice(6, "type"), [&](auto z) {
    using T = decltype(z);
    size_t n = prod(s);
    switch (op) {
    case 0: expect<T>(Tensor::zeros(sizevec(s), DT<T>::v), s, std::vector<T>(n, T(0)), "zeros"); break;
    case 1: expect<T>(Tensor::ones_like(mk<T>(s, std::vector<T>(n, T(5)))), s, std::vector<T>(n, T(1)), "ones_like"); break;
    case 2: {
      int64_t v = sym_range(-100, 100, "v");
      expect<T>(Tensor::full(sizevec(s), v, DT<T>::v), s, std::vector<T>(n, (T)v), "full with an integer");
      break;
    }
    case 3: {
      auto d = hugev<T>(n, -100, 100, "x");
      auto e = d;
      Tensor t = Tensor::from_blob(e.data(), sizevec(s), DT<T>::v);
      for (auto &x : e) x = T(42);
      expect<T>(t, s, d, "from_blob copies the buffer");
      break;
    }
    default: {
      size_t a = 16 + 4 * sym_choice(2, "a"), b = 16 + sym_choice(2, "b");
      std::vector<T> e(a * b, T(0));
      for (size_t i = 0; i < a && i < b; ++i) e[i * b + i] = T(1);
      expect<T>(Tensor::eye(a, b, DT<T>::v), {a, b}, e, "eye");
    }
    }
    sym_cover("huge");
  });
}
