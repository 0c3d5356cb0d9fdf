//@ entry: values quick=200 thorough=1800
//@ entry: infer quick=120 thorough=900
//@ entry: bits quick=100 thorough=900
//@ entry: as quick=60 thorough=600
//@ entry: large quick=120 thorough=900
//@ entry: huge quick=150 thorough=900
//@ cover: ok bad infer inferbad bitsok bitsbad as large huge
//@ bounds: sources of 0..3 dimensions with up to 6 (thorough: 12) elements in 8 memory layouts, targets of 0..3 dimensions with sizes -2..6 including one or more -1; and targets of 1 or 2 (thorough: 3) dimensions of which one has every 64-bit size and the others are one of 9 (thorough: 16) values incl. powers of two and the extremes; every int32 element value; sources that are slices, transposes or chains of both; (entry large) sources of 24 elements in 1..5 dimensions and 6 layouts, 14 targets; (entry huge) tensors of 260 and 300 elements and of 6 and 7 dimensions in 3 (thorough: 5) layouts to 14 shapes
//@ outside: larger tensors; inferring a dimension of an empty tensor
//@ oracle: the row-major sequence of elements is kept; -1 stands for the one size that keeps the number of elements; everything else raises runtime_error
//@ assume: the text of error messages is not modelled for symbolic sizes (entry bits)
#include "h.h"
static const char *M = "reshape keeps the elements in row-major order";
// expected shape; false if the request must be rejected
static bool target(size_t n, const std::vector<long long> &req, Shape &out) {
  uint64_t p = 1;
  bool big = false; // more than 2^64 elements
  int holes = 0;
  out.clear();
  for (auto x : req) {
    if (x < -1) return false;
    if (x == -1 && ++holes > 1) return false;
  }
  bool zero = false;
  for (auto x : req) zero |= x == 0;
  if (zero) p = 0;
  else
    for (auto x : req)
      if (x != -1) big |= __builtin_mul_overflow(p, (uint64_t)x, &p);
  if (!holes) {
    if (big || p != n) return false;
    for (auto x : req) out.push_back(x);
    return true;
  }
  if (n == 0 || p == 0 || big || p > n || n % p) return false;
  for (auto x : req) out.push_back(x == -1 ? n / p : x);
  return true;
}
static long long aSize() { // -3..-1, or 0..6 (symbolic)
  int k = sym_choice(4, "neg");
  return k ? -k : sym_range(0, TIER ? 12 : 6, "size");
}
static long long special(int k) {
  static const long long C[] = {1, 2, 0, -1, -2, 1ll << 32, 1ll << 62, INT64_MAX, INT64_MIN, (1ll << 32) + 1, 3, 1ll << 33, 6700417, 1ll << 61, 6, -(1ll << 62)};
  return C[k];
}
extern "C" void values() {
  static const Shape S[] = {{}, {1}, {6}, {2, 3}, {3, 2}, {2, 0}, {2, 1, 3}, {1, 4}, {2, 2, 3}, {0}, {3, 4}};
  Shape s = S[sym_choice(TIER ? 11 : 8, "src")];
  int var = pickVar(s, "layout");
  auto d = anyv<int32_t>(prod(s), "x");
  Tensor t = mkVar<int32_t>(s, d, var);
  size_t nd = sym_choice(4, "nd");
  std::vector<long long> req;
  for (size_t i = 0; i < nd; ++i) req.push_back(sym_range(0, TIER ? 12 : 6, "size"));
  Shape want;
  bool ok = target(prod(s), req, want);
  bool st = sym_choice(2, "static");
  if (!ok) {
    sym_assert(throwsRuntime([&] { st ? Tensor::reshape(t, signedvec(req)) : t.reshape(signedvec(req)); }), "an impossible reshape raises runtime_error");
    sym_cover("bad");
    return;
  }
  for (auto &x : req) x = sym_concrete(x);
  for (auto &x : want) x = sym_concrete(x);
  Tensor r = st ? Tensor::reshape(t, signedvec(req)) : t.reshape(signedvec(req));
  expect<int32_t>(r, want, d, M);
  expect<int32_t>(t, s, d, "reshape leaves its source alone");
  sym_cover("ok");
}
extern "C" void infer() {
  static const Shape S[] = {{2, 3}, {6}, {}, {4}, {3, 2}, {2, 2, 3}};
  Shape s = S[sym_choice(TIER ? 6 : 4, "src")];
  int var = pickVar(s, "layout");
  auto d = anyv<int16_t>(prod(s), "x");
  Tensor t = mkVar<int16_t>(s, d, var);
  size_t nd = 1 + sym_choice(3, "nd"), hole = sym_choice(nd, "hole");
  std::vector<long long> req;
  for (size_t i = 0; i < nd; ++i) req.push_back(i == hole ? -1 : aSize());
  Shape want;
  if (!target(prod(s), req, want)) {
    sym_assert(throwsRuntime([&] { t.reshape(signedvec(req)); }), "an impossible reshape raises runtime_error");
    sym_cover("inferbad");
    return;
  }
  for (auto &x : req) x = sym_concrete(x);
  for (auto &x : want) x = sym_concrete(x);
  expect<int16_t>(t.reshape(signedvec(req)), want, d, M);
  sym_cover("infer");
}
// every 64-bit size: accepted exactly if the product, computed without wrapping, fits
extern "C" void bits() {
  static const Shape S[] = {{2}, {}, {0}, {2, 3}};
  Shape s = S[sym_choice(TIER ? 4 : 3, "src")];
  auto d = anyv<int8_t>(prod(s), "x");
  Tensor t = mk<int8_t>(s, d);
  size_t nd = 1 + sym_choice(2 + TIER, "nd");
  std::vector<long long> req;
  sym_opaque_text(true);
  size_t free_ = sym_choice(nd, "free");
  for (size_t i = 0; i < nd; ++i) req.push_back(i == free_ ? any<int64_t>("size") : special(sym_choice(TIER ? 16 : 9, "other")));
  if (prod(s) == 0) for (auto x : req) sym_assume(x != -1);
  Shape want;
  if (!target(prod(s), req, want)) {
    sym_assert(throwsRuntime([&] { t.reshape(signedvec(req)); }), "an impossible reshape raises runtime_error");
    sym_cover("bitsbad");
    return;
  }
  Tensor r = t.reshape(signedvec(req));
  Shape got = shapeOf(r);
  sym_assert(got == want, "shape of a reshape");
  sym_assert(r.numel() == prod(s), "reshape keeps the number of elements");
  sym_cover("bitsok");
}
// reshape_as, and reshape of chains of views
extern "C" void as() {
  Shape s{2, 3};
  auto d = anyv<double>(6, "x");
  Tensor t = mk<double>(s, d), v;
  View w = whole(s);
  std::string txt;
  std::vector<Fld> f;
  sym_assume(slicing(sym_choice(NSLICE, "slice"), s, txt, f));
  v = t[txt];
  w = vSlice(w, f);
  if (sym_choice(2, "tr")) {
    sym_assume(w.s.size() == 2);
    v = v.transpose(0, 1);
    w = vTranspose(w, 0, 1);
  }
  size_t n = w.m.size();
  std::vector<double> x;
  for (auto m : w.m) x.push_back(d[m]);
  Shape q;
  switch (sym_choice(4, "to")) {
  case 0: q = {n}; break;
  case 1: q = {1, n}; break;
  case 2: q = {n, 1}; break;
  default: sym_assume(n % 2 == 0); q = {n / 2, 2};
  }
  Tensor like = Tensor::zeros(sizevec(q), i8);
  expect<double>(v.reshape_as(like), q, x, M);
  if (n) expect<double>(v.reshape(SignedVec{-1}).reshape_as(v), w.s, x, M);
  Tensor wrong = Tensor::zeros(SizeVec{n + 1}, i8);
  sym_assert(throwsRuntime([&] { v.reshape_as(wrong); }), "reshape_as rejects a different number of elements");
  sym_cover("as");
}
extern "C" void large() {
  static const Shape S[] = {{24}, {4, 6}, {2, 3, 4}, {2, 1, 3, 4}, {1, 2, 3, 2, 2}};
  static const std::vector<long long> R[] = {{24}, {6, 4}, {3, 8}, {2, 2, 6}, {1, 24, 1}, {2, 3, 2, 2}, {4, -1}, {2, 2, -1, 2}, {3, -1, 1, 4}, {-1}, {2, 2, 2, 3, 1}, {-1, 5}, {4, 4, -1}, {5, 5}};
  Shape s = S[sym_choice(5, "src")], want;
  auto req = R[sym_choice(14, "to")];
  int var = pickVar(s, "layout");
  auto d = anyv<int32_t>(24, "x");
  Tensor t = mkVar<int32_t>(s, d, var);
  if (!target(24, req, want)) sym_assert(throwsRuntime([&] { t.reshape(signedvec(req)); }), "an impossible reshape raises runtime_error");
  else expect<int32_t>(t.reshape(signedvec(req)), want, d, M);
  sym_cover("large");
}
extern "C" void huge() {
  static const Shape S[] = {{260}, {300}, {2, 130}, {130, 2}, {2, 1, 5, 1, 2, 13}, {3, 1, 2, 5, 1, 2, 5}};
  static const std::vector<long long> R[] = {{260}, {-1}, {2, -1}, {-1, 2}, {130, 2}, {2, 130}, {20, 13}, {1, 260, 1}, {2, 1, 5, 1, 2, 13}, {-1, 1, 1, 1, 1, 1, 2}, {300}, {15, 20}, {2, 2, 3, 5, 1, 5}, {7, -1}};
  Shape s = S[sym_choice(6, "src")], want;
  auto req = R[sym_choice(14, "to")];
  int var = pickHugeVar(s, "layout");
  auto d = hugev<int32_t>(prod(s), -99, 99, "x");
  Tensor t = mkVar<int32_t>(s, d, var);
  if (!target(prod(s), req, want)) sym_assert(throwsRuntime([&] { t.reshape(signedvec(req)); }), "an impossible reshape raises runtime_error");
  else expect<int32_t>(t.reshape(signedvec(req)), want, d, M);
  sym_cover("huge");
}
