//@ entry: slice1 quick=200 thorough=1800
//@ entry: index1 quick=60 thorough=300
//@ entry: slice2 quick=250 thorough=2400
//@ entry: chain quick=120 thorough=1200
//@ entry: big quick=60 thorough=300
//@ entry: many quick=200 thorough=1800
//@ entry: long12 quick=200 thorough=1800
//@ entry: huge quick=120 thorough=600
//@ cover: sl1 empty idx oob sl2 chain big many toomany long12 huge
//@ bounds: slice strings "start:stop:step" with every field absent, or a number of one or two digits (thorough: also in the second dimension) with an optional sign and optional blanks; index strings likewise; one dimension of size 0..4 and two dimensions up to 3x3, also in non-contiguous layouts; two slices applied in turn; fields up to 18 digits on one dimension; every value of the int32 elements; (entry many) tensors of 3 to 5 dimensions with one of ten forms per dimension (blanks included), and one field too many; (entry long12) a dimension of size 12 with two-digit fields; a dimension of 12 with two-digit fields; (entry huge) dimensions of size 300 and 2x130, 7 dimensions: 21 fields per dimension (positions and steps up to three digits), first, middle and last elements symbolic
//@ outside: malformed strings (non-numbers, blanks between sign and digits), fields beyond long long, more than 2 dimensions except in the trailing-dimension cases
//@ oracle: Python's slice.indices() per dimension, an index removes its dimension, missing trailing dimensions are kept whole; out-of-range index raises runtime_error; step 0 raises runtime_error
#include "h.h"
// a field of a slice: its text and value
struct Num { bool present = false; int64_t v = 0; std::string s; };
static Num num(int kinds, const char *nm) { // kinds: 1 absent only, 3 one digit, 5 two digits as well
  Num n;
  int k = sym_choice(kinds, nm);
  if (k == 0) return n;
  n.present = true;
  int dig = k <= 2 ? 1 : 2;
  for (int i = 0; i < dig; ++i) {
    int64_t d = sym_range(0, 9, nm);
    n.s += (char)('0' + d);
    n.v = n.v * 10 + d;
  }
  if (k % 2 == 0) { n.s = "-" + n.s; n.v = -n.v; }
  return n;
}
struct Sl { bool index = false; Num a, b, c; bool colon2 = false; std::string s; };
static Sl slice(int kinds, const char *nm) {
  Sl r;
  r.a = num(kinds, nm); r.b = num(kinds, nm); r.c = num(kinds, nm);
  r.s = r.a.s + ":" + r.b.s;
  if (r.c.present || sym_choice(2, "colon")) r.s += ":" + r.c.s;
  return r;
}
// Python's slice.indices(n): first index, number of elements and step
static void indices(const Sl &s, int64_t n, int64_t &beg, int64_t &len, int64_t &step) {
  step = s.c.present ? s.c.v : 1;
  int64_t lo = step < 0 ? -1 : 0, hi = step < 0 ? n - 1 : n;
  auto clip = [&](int64_t x) {
    if (x < 0) x += n;
    return x < lo ? lo : x > hi ? hi : x;
  };
  beg = s.a.present ? clip(s.a.v) : step < 0 ? hi : lo;
  int64_t end = s.b.present ? clip(s.b.v) : step < 0 ? lo : hi;
  if (step > 0) len = beg < end ? (end - beg - 1) / step + 1 : 0;
  else len = end < beg ? (beg - end - 1) / -step + 1 : 0;
}
static const char *M = "a slice selects the elements Python would select";
extern "C" void slice1() {
  size_t n = sym_choice(5, "n");
  int v = n && sym_choice(2, "strided") ? 2 : 0;
  auto d = anyv<int32_t>(n, "x");
  Tensor t = mkVar<int32_t>({n}, d, v);
  Sl s = slice(TIER ? 5 : 4, "f");
  if (s.c.present && s.c.v == 0) {
    if (n) sym_assert(throwsRuntime([&] { t[s.s]; }), "a zero step is rejected");
    return;
  }
  int64_t beg, len, step;
  indices(s, n, beg, len, step);
  Tensor r = t[s.s];
  Shape q = shapeOf(r);
  sym_assert(q.size() == 1 && (int64_t)q[0] == len, "size of a slice");
  sym_assert(r.type() == i32, "dtype of a slice");
  len = sym_concrete(len);
  for (int64_t k = 0; k < len; ++k) {
    Tensor e = at(r, {(size_t)k});
    sym_assert(is<int32_t>(e, d[beg + k * step]), M);
  }
  if (!len) sym_cover("empty");
  sym_cover("sl1");
}
extern "C" void index1() {
  size_t n = sym_choice(5, "n");
  auto d = anyv<int32_t>(n, "x");
  Tensor t = mkVar<int32_t>({n}, d, n ? sym_choice(2, "strided") * 3 : 0);
  Num i = num(5, "i");
  sym_assume(i.present);
  if (sym_choice(2, "blank")) i.s = " " + i.s + " ";
  int64_t j = i.v < 0 ? i.v + (int64_t)n : i.v;
  if (j < 0 || j >= (int64_t)n) {
    sym_assert(throwsRuntime([&] { t[i.s]; }), "an index out of range raises runtime_error");
    sym_cover("oob");
    return;
  }
  Tensor r = t[i.s];
  sym_assert(shapeOf(r) == Shape{} && r.type() == i32, "an index removes its dimension");
  sym_assert(is<int32_t>(r, d[j]), "an index selects the element");
  sym_cover("idx");
}
extern "C" void slice2() {
  static const Shape S[] = {{2, 3}, {3, 2}, {1, 3}, {2, 0}, {3, 3}};
  Shape s = S[sym_choice(TIER ? 5 : 2, "shape")];
  size_t n = prod(s);
  int v = sym_choice(2, "layout") ? 5 : 0;
  auto d = anyv<int16_t>(n, "x");
  Tensor t = mkVar<int16_t>(s, d, v);
  Sl f[2];
  std::string str;
  int nd = 1 + sym_choice(2, "dims"), rich = nd == 2 ? sym_choice(2, "rich") : 0;
  for (int q = 0; q < nd; ++q) {
    if (!TIER && q != rich) { // quick tier: every form in one dimension, four in the other
      int k = sym_choice(4, "form");
      if (k == 0) f[q].s = ":";
      if (k == 1) { f[q].c = Num{true, -1, "-1"}; f[q].s = "::-1"; }
      if (k == 2) { f[q].a = num(2, "f"); f[q].s = f[q].a.s + ":"; }
      if (k == 3) { f[q].index = true; f[q].a = num(2, "i"); sym_assume(f[q].a.present); f[q].s = f[q].a.s; }
    } else if (sym_choice(2, "isindex")) {
      f[q].index = true;
      f[q].a = num(3, "i");
      sym_assume(f[q].a.present);
      f[q].s = f[q].a.s;
    } else {
      f[q].a = num(3, "f");
      f[q].b = num(TIER ? 3 : 2, "f");
      int k = sym_choice(3, "step");
      if (k) { // a step of -1, -2 or 2
        f[q].c.present = true;
        f[q].c.v = k == 1 ? 2 : -1;
        f[q].c.s = k == 1 ? "2" : "-1";
      }
      f[q].s = f[q].a.s + ":" + f[q].b.s + (k ? ":" + f[q].c.s : "");
    }
    str += (q ? "," : "") + f[q].s;
  }
  bool oob = false;
  Shape want;
  int64_t beg[2] = {0, 0}, len[2] = {(int64_t)s[0], (int64_t)s[1]}, step[2] = {1, 1};
  for (int q = 0; q < nd; ++q) {
    if (f[q].index) {
      int64_t j = f[q].a.v < 0 ? f[q].a.v + (int64_t)s[q] : f[q].a.v;
      if (j < 0 || j >= (int64_t)s[q]) oob = true;
      beg[q] = j; len[q] = 1;
    } else
      indices(f[q], s[q], beg[q], len[q], step[q]);
  }
  if (oob) {
    sym_assert(throwsRuntime([&] { t[str]; }), "an index out of range raises runtime_error");
    return;
  }
  Tensor r = t[str];
  for (int q = 0; q < 2; ++q) {
    len[q] = sym_concrete(len[q]);
    if (q >= nd || !f[q].index) want.push_back(len[q]);
  }
  sym_assert(shapeOf(r) == want, "shape of a two-dimensional slice");
  for (int64_t a = 0; a < len[0]; ++a)
    for (int64_t b = 0; b < len[1]; ++b) {
      Shape i;
      if (!f[0].index) i.push_back(a);
      if (nd < 2 || !f[1].index) i.push_back(b);
      Tensor e = at(r, i);
      sym_assert(is<int16_t>(e, d[(beg[0] + a * step[0]) * s[1] + beg[1] + b * step[1]]), M);
    }
  sym_cover("sl2");
}
// slicing a slice composes
extern "C" void chain() {
  size_t n = 4 + TIER;
  auto d = anyv<int32_t>(n, "x");
  Tensor t = mk<int32_t>({n}, d);
  static const int st[] = {1, 2, -1, -2};
  Sl f, g;
  f.a = num(3, "f"); f.b = num(2, "f");
  int64_t fs = st[sym_choice(4, "step")], gs = st[sym_choice(4, "step")];
  f.c.present = g.c.present = true;
  f.c.v = fs; f.c.s = std::to_string(fs);
  g.a = num(2, "g"); g.b = num(TIER ? 3 : 1, "g");
  g.c.v = gs; g.c.s = std::to_string(gs);
  int64_t b1, l1, s1, b2, l2, s2;
  indices(f, n, b1, l1, s1);
  l1 = sym_concrete(l1);
  indices(g, l1, b2, l2, s2);
  l2 = sym_concrete(l2);
  Tensor u = t[f.a.s + ":" + f.b.s + ":" + f.c.s];
  Tensor r = u[g.a.s + ":" + g.b.s + ":" + g.c.s];
  sym_assert(shapeOf(r) == Shape{(size_t)l2}, "size of a slice of a slice");
  for (int64_t k = 0; k < l2; ++k) {
    Tensor e = at(r, {(size_t)k});
    sym_assert(is<int32_t>(e, d[b1 + s1 * (b2 + s2 * k)]), "a slice of a slice selects the composed elements");
  }
  sym_cover("chain");
}
// long numbers: huge bounds and steps behave like Python's
extern "C" void big() {
  auto d = anyv<int32_t>(3, "x");
  Tensor t = mk<int32_t>({3}, d);
  static const char *F[] = {"", "1", "-2", "999999999999999999", "-999999999999999999"};
  static const int64_t V[] = {0, 1, -2, 999999999999999999, -999999999999999999};
  int a = sym_choice(5, "a"), b = sym_choice(5, "b"), c = sym_choice(5, "c");
  Sl s;
  s.a = Num{a > 0, V[a], F[a]}; s.b = Num{b > 0, V[b], F[b]}; s.c = Num{c > 0, V[c], F[c]};
  int64_t beg, len, step;
  indices(s, 3, beg, len, step);
  Tensor r = t[s.a.s + ":" + s.b.s + ":" + s.c.s];
  sym_assert(shapeOf(r) == Shape{(size_t)len}, "size of a slice with huge bounds");
  for (int64_t k = 0; k < len; ++k) {
    Tensor e = at(r, {(size_t)k});
    sym_assert(is<int32_t>(e, d[beg + k * step]), M);
  }
  sym_cover("big");
}
// several dimensions at once
extern "C" void many() {
  static const Shape S[] = {{2, 3, 2}, {2, 1, 2, 3}, {3}, {}, {1, 2, 1, 2, 2}, {2, 0, 2}};
  static const char *T[] = {":", "0", "-1", "::-1", "1:", "::2", ":-1", " 1 ", " : 1 : ", "-9:9"};
  static const bool I[] = {false, true, true, false, false, false, false, true, false, false};
  Shape s = S[sym_choice(TIER ? 6 : 4, "shape")];
  size_t nd = s.size();
  auto d = anyv<int32_t>(prod(s), "x");
  int var = sym_choice(2, "layout") ? 5 : 0;
  sym_assume(varOk(var, s));
  Tensor t = mkVar<int32_t>(s, d, var);
  if (sym_choice(2, "toomany")) {
    std::string str;
    for (size_t q = 0; q <= nd; ++q) str += std::string(q ? "," : "") + (q == nd ? T[sym_choice(10, "extra")] : ":");
    sym_assert(throws([&] { t[str]; }), "more fields than dimensions raise an exception");
    sym_cover("toomany");
    return;
  }
  size_t nf = nd > 1 ? 1 + sym_choice(nd, "fields") : nd;
  if (!TIER && nf > 3) nf = 3;
  std::string str;
  std::vector<Fld> f;
  bool oob = false;
  for (size_t q = 0; q < nd; ++q) {
    long n = s[q];
    if (q >= nf) { f.push_back({false, 0, n, 1}); continue; }
    int k = sym_choice(TIER || q < 2 ? 10 : 5, "form");
    str += (q ? "," : "");
    str += T[k];
    if (I[k]) {
      long j = k == 1 ? 0 : k == 2 ? n - 1 : 1;
      if (j < 0 || j >= n) oob = true;
      f.push_back({true, j, 1, 1});
    } else if (k == 3) f.push_back({false, n ? n - 1 : 0, n, -1});
    else if (k == 4) f.push_back({false, 1, n > 1 ? n - 1 : 0, 1});
    else if (k == 5) f.push_back({false, 0, (n + 1) / 2, 2});
    else if (k == 6) f.push_back({false, 0, n ? n - 1 : 0, 1});
    else if (k == 8) f.push_back({false, 0, n ? 1 : 0, 1});
    else f.push_back({false, 0, n, 1});
  }
  if (oob) {
    sym_assert(throwsRuntime([&] { t[str]; }), "an index out of range raises runtime_error");
    return;
  }
  View v = vSlice(whole(s), f);
  std::vector<int32_t> e;
  for (auto m : v.m) e.push_back(d[m]);
  expect<int32_t>(t[str], v.s, e, M);
  sym_cover("many");
}
extern "C" void long12() {
  size_t n = 12;
  auto d = anyv<int16_t>(n, "x");
  Tensor t = mk<int16_t>({n}, d);
  static const int64_t ST[] = {1, 2, 3, 5, 11, 12, -1, -2, -3, -5, -11, -12};
  Sl s;
  auto two = [&](Num &x, const char *nm) {
    int k = sym_choice(3, nm);
    if (!k) return;
    int64_t a = sym_concrete(sym_range(0, 1, nm)), b = sym_range(0, 9, nm);
    x.present = true;
    x.v = 10 * a + b;
    x.s = std::string(1, (char)('0' + a)) + (char)('0' + b);
    if (k == 2) { x.v = -x.v; x.s = "-" + x.s; }
  };
  two(s.a, "a");
  two(s.b, "b");
  s.c.present = true;
  s.c.v = ST[sym_choice(TIER ? 12 : 4, "step") * (TIER ? 1 : 3)];
  s.c.s = std::to_string(s.c.v);
  int64_t beg, len, step;
  indices(s, n, beg, len, step);
  Tensor r = t[s.a.s + ":" + s.b.s + ":" + s.c.s];
  Shape q = shapeOf(r);
  sym_assert(q.size() == 1 && (int64_t)q[0] == len, "size of a slice");
  len = sym_concrete(len);
  for (int64_t k = 0; k < len; ++k) {
    Tensor e = at(r, {(size_t)k});
    sym_assert(is<int16_t>(e, d[beg + k * step]), M);
  }
  sym_cover("long12");
}
// dimensions beyond 8-bit positions
extern "C" void huge() {
  static const Shape S[] = {{300}, {2, 130}, {130, 2}, {1, 2, 1, 2, 1, 1, 3}};
  static const char *F[][3] = {{"", "", ""}, {"200", "", ""}, {"-200", "", ""}, {"", "257", "-1"}, {"129", "260", "7"}, {"255", "256", ""}, {"-1", "-256", "-3"}, {"", "", "128"}, {"", "", "-129"},
                               {"299", "", "-1"}, {"300", "", "-1"}, {"300", "", ""}, {"128", "-128", ""}, {"1000", "-1000", "-100"}};
  static const int64_t I[] = {0, 127, 128, 255, 299, -1, -129, -300, 300, -301, 129, -130};
  Shape s = S[sym_choice(4, "shape")];
  auto d = hugev<int32_t>(prod(s), -99, 99, "x");
  int var = sym_choice(2, "layout") ? 7 : 0;
  Tensor t = mkVar<int32_t>(s, d, var);
  std::vector<Fld> f;
  for (auto n : s) f.push_back({false, 0, (long)n, 1});
  size_t dim = s.size() == 1 ? 0 : s.size() == 2 ? (s[0] < s[1]) : sym_choice(7, "dim");
  std::string txt;
  for (size_t q = 0; q < dim; ++q) txt += ":,";
  int k = sym_choice(26, "field");
  int64_t n = s[dim];
  if (k < 14) {
    Sl x;
    auto num = [](const char *c) { return Num{*c != 0, *c ? std::atoll(c) : 0, c}; };
    x.a = num(F[k][0]); x.b = num(F[k][1]); x.c = num(F[k][2]);
    int64_t beg, len, step;
    indices(x, n, beg, len, step);
    f[dim] = {false, len ? (long)beg : 0, (long)len, (long)step};
    txt += x.a.s + ":" + x.b.s + ":" + x.c.s;
  } else {
    int64_t i = I[k - 14];
    txt += std::to_string(i);
    if (i >= n || i < -n) {
      sym_assert(throws([&] { t[txt]; }), "an index out of range is rejected");
      return;
    }
    f[dim] = {true, (long)(i < 0 ? i + n : i), 0, 0};
  }
  View v = vSlice(whole(s), f);
  std::vector<int32_t> e;
  for (auto m : v.m) e.push_back(d[m]);
  expect<int32_t>(t[txt], v.s, e, M);
  sym_cover("huge");
}
