// Helpers shared by the harnesses.  Only INNC's public API is used, so that the
// harnesses are independent of how the library is written inside.
#pragma once
#include "INNC/INNC.hpp"
#include "sym.h"
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#ifndef TIER
#define TIER 0
#endif
using namespace INNC;
typedef std::vector<size_t> Shape;

template <class T> struct DT;
template <> struct DT<int8_t> { static constexpr types v = i8; };
template <> struct DT<int16_t> { static constexpr types v = i16; };
template <> struct DT<int32_t> { static constexpr types v = i32; };
template <> struct DT<int64_t> { static constexpr types v = i64; };
template <> struct DT<float> { static constexpr types v = f32; };
template <> struct DT<double> { static constexpr types v = f64; };
template <class T> constexpr bool isF = std::is_floating_point_v<T>;

// ---- symbolic values
template <class T> T any(const char *n) { // every bit pattern
  if constexpr (std::is_same_v<T, float>) {
    int32_t b = (int32_t)sym_bits(32, n);
    float f;
    std::memcpy(&f, &b, 4);
    return f;
  } else if constexpr (std::is_same_v<T, double>) {
    int64_t b = sym_bits(64, n);
    double f;
    std::memcpy(&f, &b, 8);
    return f;
  } else
    return (T)sym_bits(8 * sizeof(T), n);
}
template <class T> T small(int64_t lo, int64_t hi, const char *n) { return (T)sym_range(lo, hi, n); }
template <class T> std::vector<T> anyv(size_t n, const char *nm) {
  std::vector<T> r;
  for (size_t i = 0; i < n; ++i) r.push_back(any<T>(nm));
  return r;
}
template <class T> std::vector<T> smallv(size_t n, int64_t lo, int64_t hi, const char *nm) {
  std::vector<T> r;
  for (size_t i = 0; i < n; ++i) r.push_back(small<T>(lo, hi, nm));
  return r;
}
// a fixed pattern in lo..hi with symbolic first, middle and last elements
template <class T> std::vector<T> hugev(size_t n, int lo, int hi, const char *nm) {
  std::vector<T> r;
  for (size_t i = 0; i < n; ++i) r.push_back(i == 0 || i == n / 2 || i + 1 == n ? (T)sym_range(lo, hi, nm) : (T)(lo + (int)((i * 7 + 3) % (size_t)(hi - lo + 1))));
  return r;
}

// ---- shapes
inline size_t prod(const Shape &s) {
  size_t n = 1;
  for (auto x : s) n *= x;
  return n;
}
inline SizeVec sizevec(const Shape &s) {
  SizeVec r;
  for (auto x : s) r.push_back(x);
  return r;
}
inline SignedVec signedvec(const std::vector<long long> &s) {
  SignedVec r;
  for (auto x : s) r.push_back(x);
  return r;
}
inline Shape shapeOf(const Tensor &t) {
  Shape r;
  for (auto x : t.size()) r.push_back(x);
  return r;
}
inline Shape pickShape(size_t mind, size_t maxd, size_t mins, size_t maxs, const char *n) {
  size_t d = mind + sym_choice(maxd - mind + 1, n);
  Shape s;
  for (size_t i = 0; i < d; ++i) s.push_back(mins + sym_choice(maxs - mins + 1, n));
  return s;
}
// shapes with more elements or more dimensions than the exhaustive entries use
inline Shape pickLarge(const char *n) {
  static const Shape S[] = {{19}, {5, 4}, {2, 1, 3, 2}, {1, 2, 1, 2, 3}, {3, 3, 2}, {35}, {6, 7}, {2, 2, 2, 2, 2}, {1, 17}, {9, 1, 4}};
  return S[sym_choice(TIER ? 10 : 5, n)];
}
// shapes beyond the range of 8-bit counters, and of 6 and 7 dimensions
inline Shape pickHuge(const char *n) {
  static const Shape S[] = {{300}, {4, 1, 1, 2, 1, 2}, {2, 130}, {130, 2}, {1, 2, 1, 1, 1, 1, 3}, {256}, {3, 5, 4, 5}};
  return S[sym_choice(TIER ? 7 : 4, n)];
}
// row-major: linear position -> index and back
inline Shape unravel(size_t k, const Shape &s) {
  Shape i(s.size());
  for (size_t d = s.size(); d-- > 0;) {
    i[d] = k % s[d];
    k /= s[d];
  }
  return i;
}
inline size_t ravel(const Shape &i, const Shape &s) {
  size_t k = 0;
  for (size_t d = 0; d < s.size(); ++d) k = k * s[d] + i[d];
  return k;
}

// ---- tensors
template <class T> Tensor mk(const Shape &s, std::vector<T> d) {
  T dummy{};
  return Tensor::from_blob(d.empty() ? &dummy : d.data(), sizevec(s), DT<T>::v);
}
// A tensor with logical shape s and row-major content d, laid out in memory in
// one of NVAR different ways (0: contiguous).
enum { NVAR = 8 };
inline bool varOk(int var, const Shape &s) { return var == 0 || var == 4 || (var == 1 || var == 5 ? s.size() >= 2 : s.size() >= 1); }
template <class T> Tensor mkVar(const Shape &s, const std::vector<T> &d, int var, T junk = T(99)) {
  size_t n = prod(s), nd = s.size();
  switch (var) {
  case 1: { // transposed storage
    Shape st = s;
    std::swap(st[0], st[nd - 1]);
    std::vector<T> e(n, junk);
    for (size_t k = 0; k < n; ++k) {
      Shape i = unravel(k, s);
      std::swap(i[0], i[nd - 1]);
      e[ravel(i, st)] = d[k];
    }
    return mk(st, e).transpose(0, nd - 1);
  }
  case 2: { // every second column of a wider tensor
    Shape st = s;
    st[nd - 1] = 2 * s[nd - 1] + 1;
    std::vector<T> e(prod(st), junk);
    for (size_t k = 0; k < n; ++k) {
      Shape i = unravel(k, s);
      i[nd - 1] = 2 * i[nd - 1] + 1;
      e[ravel(i, st)] = d[k];
    }
    std::string sl;
    for (size_t q = 0; q + 1 < nd; ++q) sl += ":,";
    return mk(st, e)[sl + "1::2"];
  }
  case 3: { // stored backwards along dimension 0
    std::vector<T> e(n, junk);
    for (size_t k = 0; k < n; ++k) {
      Shape i = unravel(k, s);
      i[0] = s[0] - 1 - i[0];
      e[ravel(i, s)] = d[k];
    }
    return mk(s, e)["::-1"];
  }
  case 4: { // one plane of a larger tensor
    Shape st = s;
    st.insert(st.begin(), 2);
    std::vector<T> e(2 * n, junk);
    for (size_t k = 0; k < n; ++k) e[n + k] = d[k];
    return mk(st, e)["1"];
  }
  case 5: { // transposed, then every second row, with an offset
    Shape st = s;
    std::swap(st[0], st[nd - 1]);
    st[nd - 1] = 2 * st[nd - 1] + 1;
    std::vector<T> e(prod(st), junk);
    for (size_t k = 0; k < n; ++k) {
      Shape i = unravel(k, s);
      std::swap(i[0], i[nd - 1]);
      i[nd - 1] = 2 * i[nd - 1] + 1;
      e[ravel(i, st)] = d[k];
    }
    Tensor t = mk(st, e).transpose(0, nd - 1);
    return t["1::2"];
  }
  case 6: { // stored backwards along every dimension
    std::vector<T> e(d.rbegin(), d.rend());
    std::string sl;
    for (size_t q = 0; q < nd; ++q) sl += q ? ",::-1" : "::-1";
    return mk(s, e)[sl];
  }
  case 7: { // a window of columns of a wider tensor: rows contiguous, but apart
    Shape st = s;
    st[nd - 1] = s[nd - 1] + 2;
    std::vector<T> e(prod(st), junk);
    for (size_t k = 0; k < n; ++k) {
      Shape i = unravel(k, s);
      i[nd - 1] += 1;
      e[ravel(i, st)] = d[k];
    }
    std::string sl;
    for (size_t q = 0; q + 1 < nd; ++q) sl += ":,";
    return mk(st, e)[sl + "1:-1"];
  }
  default: return mk(s, d);
  }
}
inline int pickVar(const Shape &s, const char *n, int nvar = NVAR) {
  int v = sym_choice(nvar, n);
  sym_assume(varOk(v, s));
  return v;
}
inline int pickHugeVar(const Shape &s, const char *n) {
  static const int V[] = {0, 7, 6, 2, 5};
  int v = V[sym_choice(TIER ? 5 : 3, n)];
  sym_assume(varOk(v, s));
  return v;
}
inline std::string idxStr(const Shape &i) {
  std::string r;
  for (size_t d = 0; d < i.size(); ++d) r += (d ? "," : "") + std::to_string(i[d]);
  return r;
}
// value of a 0-dimensional tensor (NaN equals NaN)
template <class T> bool is(const Tensor &x, T v) {
  bool e = (x == Tensor(v)).all();
  if constexpr (isF<T>) {
    bool xn = (x != x).all();
    bool vn = v != v;
    return e | (xn & vn);
  }
  return e;
}
inline Tensor at(Tensor &t, const Shape &i) { return i.empty() ? t[""] : t[idxStr(i)]; }
// dtype, shape and every element
template <class T> void expect(Tensor &t, const Shape &s, const std::vector<T> &v, const char *msg) {
  sym_assert(shapeOf(t) == s, msg);
  sym_assert(t.type() == DT<T>::v, msg);
  size_t n = prod(s);
  for (size_t k = 0; k < n; ++k) {
    Tensor x = at(t, unravel(k, s));
    sym_assert(is<T>(x, v[k]), msg);
  }
}
template <class T> void expect(Tensor &&t, const Shape &s, const std::vector<T> &v, const char *msg) { expect(t, s, v, msg); }
// throws any std::exception (and nothing else)
template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
template <class F> bool throwsRuntime(F f) {
  try {
    f();
  } catch (const std::runtime_error &) {
    return true;
  }
  return false;
}
// dispatch a generic lambda on a dtype number
template <class F> void withType(int k, F f) {
  switch (k) {
  case 0: f(int8_t{}); break;
  case 1: f(int16_t{}); break;
  case 2: f(int32_t{}); break;
  case 3: f(int64_t{}); break;
  case 4: f(float{}); break;
  default: f(double{}); break;
  }
}
// NumPy broadcasting of two shapes; false if incompatible
inline bool bcast(const Shape &a, const Shape &b, Shape &r) {
  size_t n = std::max(a.size(), b.size());
  r.assign(n, 0);
  for (size_t i = 1; i <= n; ++i) {
    size_t x = i <= a.size() ? a[a.size() - i] : 1, y = i <= b.size() ? b[b.size() - i] : 1;
    if (x != y && x != 1 && y != 1) return false;
    r[n - i] = x == 1 ? y : x;
  }
  return true;
}
inline Shape bidx(const Shape &i, const Shape &s) {
  Shape r(s.size());
  for (size_t d = 1; d <= s.size(); ++d) r[s.size() - d] = s[s.size() - d] == 1 ? 0 : i[i.size() - d];
  return r;
}

// ---- views, modelled: element k (row-major) of the view is element m[k] of the base
struct View {
  Shape s;
  std::vector<size_t> m;
};
inline View whole(const Shape &s) {
  View v{s, {}};
  for (size_t k = 0; k < prod(s); ++k) v.m.push_back(k);
  return v;
}
inline View vTranspose(const View &v, size_t a, size_t b) {
  View r{v.s, {}};
  std::swap(r.s[a], r.s[b]);
  for (size_t k = 0; k < prod(r.s); ++k) {
    Shape i = unravel(k, r.s);
    std::swap(i[a], i[b]);
    r.m.push_back(v.m[ravel(i, v.s)]);
  }
  return r;
}
// one field per dimension: keep (beg, len, step), or an index
struct Fld {
  bool index;
  long beg, len, step;
};
inline View vSlice(const View &v, const std::vector<Fld> &f) {
  View r;
  Shape full;
  for (size_t d = 0; d < v.s.size(); ++d) {
    full.push_back(f[d].index ? 1 : f[d].len);
    if (!f[d].index) r.s.push_back(f[d].len);
  }
  for (size_t k = 0; k < prod(full); ++k) {
    Shape i = unravel(k, full);
    for (size_t d = 0; d < i.size(); ++d) i[d] = f[d].beg + (long)i[d] * f[d].step;
    r.m.push_back(v.m[ravel(i, v.s)]);
  }
  return r;
}
// A few slicings of a tensor, chosen symbolically: text and effect.
enum { NSLICE = 7 };
inline bool slicing(int k, const Shape &s, std::string &txt, std::vector<Fld> &f) {
  f.clear();
  for (auto n : s) f.push_back({false, 0, (long)n, 1});
  size_t nd = s.size();
  if (nd == 0) return false;
  std::string lead;
  for (size_t q = 0; q + 1 < nd; ++q) lead += ":,";
  long n0 = s[0], nl = s[nd - 1];
  switch (k) {
  case 0: txt = "1:"; f[0] = {false, 1, n0 > 1 ? n0 - 1 : 0, 1}; if (n0 <= 1) f[0].beg = 0; return true;
  case 1: txt = "::-1"; f[0] = {false, n0 - 1, n0, -1}; return n0 > 0;
  case 2: txt = lead + "::2"; f[nd - 1] = {false, 0, (nl + 1) / 2, 2}; return nl > 0;
  case 3: txt = lead + "-1::-2"; f[nd - 1] = {false, nl - 1, (nl + 1) / 2, -2}; return nl > 0;
  case 4: txt = "0"; f[0] = {true, 0, 1, 1}; return n0 > 0;
  case 5: txt = lead + "-1"; f[nd - 1] = {true, nl - 1, 1, 1}; return nl > 0;
  default: txt = lead + "1:2"; f[nd - 1] = {false, 1, 1, 1}; return nl > 1;
  }
}
