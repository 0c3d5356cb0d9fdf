//@ entry: fresh quick=60 thorough=600
//@ entry: views quick=200 thorough=1800
//@ entry: anyslice quick=150 thorough=900
//@ entry: large quick=60 thorough=300
//@ entry: huge quick=120 thorough=600
//@ cover: fresh anyslice views contig noncontig large huge
//@ bounds: fresh tensors of 0..4 dimensions with sizes 0..3; one slice with every start and stop in -9..9 and step in -3..3 of tensors of size 1..4 and 3x4 (along either dimension); chains of one to three (thorough: four) views (seven slicings, transpose, detach, reshape) of 2x3, 3x2x2 and 4-element tensors, all dtypes; (entry large) fresh tensors and transposes of up to 5 dimensions and 42 elements; (entry huge) up to 100000 elements and 9 dimensions, with one view
//@ outside: larger tensors, longer chains; strides of size-0 and size-1 dimensions of views
//@ oracle: size() is the shape, numel() its product, dim() its length; strides locate every element: moving by one along a dimension moves by the stride in a row-major base; is_contiguous() exactly if the strides are those of a row-major tensor (sizes above 1)
#include "h.h"
static Tensor make(int k, const Shape &s) {
  Tensor r;
  withType(k, [&](auto z) { using T = decltype(z); r = mk<T>(s, std::vector<T>(prod(s), T(1))); });
  return r;
}
extern "C" void fresh() {
  Shape s = pickShape(0, 4, 0, TIER ? 4 : 3, "shape");
  int k = sym_choice(6, "type");
  Tensor t = sym_choice(2, "how") ? Tensor::zeros(sizevec(s), (types)k) : make(k, s);
  sym_assert(shapeOf(t) == s && t.numel() == prod(s) && t.dim() == s.size() && t.type() == (types)k, "size, numel, dim and type of a fresh tensor");
  sym_assert(t.is_contiguous(), "a fresh tensor is contiguous");
  auto st = t.stride();
  sym_assert(st.size() == s.size(), "one stride per dimension");
  long long w = 1;
  for (size_t d = s.size(); d-- > 0;) {
    if (prod(s)) sym_assert(st[d] == w || s[d] == 1, "strides of a fresh tensor");
    w *= s[d];
  }
  sym_assert(!t.requires_grad() && !t.retain_grad(), "a fresh tensor requires no grad");
  sym_cover("fresh");
}
extern "C" void views() {
  static const Shape S[] = {{2, 3}, {3, 2, 2}, {4}, {3, 3}};
  Shape s = S[sym_choice(3 + TIER, "shape")];
  int k = sym_choice(6, "type");
  Tensor t = make(k, s);
  View v = whole(s);
  int n = 1 + sym_choice(3 + TIER, "len");
  for (int i = 0; i < n; ++i) {
    int op = sym_choice(NSLICE + 3, "view");
    if (op < NSLICE) {
      std::string txt;
      std::vector<Fld> f;
      sym_assume(slicing(op, v.s, txt, f));
      t = t[txt];
      v = vSlice(v, f);
    } else if (op == NSLICE) {
      sym_assume(v.s.size() >= 2);
      size_t b = v.s.size() - 1;
      t = t.transpose(0, b);
      v = vTranspose(v, 0, b);
    } else if (op == NSLICE + 1) {
      t = t.detach();
    } else {
      sym_assume(i == 0);
      t = t.reshape(SignedVec{-1, 2});
      sym_assume(prod(s) % 2 == 0);
      v.s = {prod(s) / 2, 2};
    }
  }
  sym_assert(shapeOf(t) == v.s && t.numel() == v.m.size() && t.dim() == v.s.size() && t.type() == (types)k, "size, numel, dim and type of a view");
  auto st = t.stride();
  sym_assert(st.size() == v.s.size(), "one stride per dimension");
  if (v.m.empty()) return;
  bool rm = true;
  long long w = 1;
  for (size_t d = v.s.size(); d-- > 0;) {
    if (v.s[d] > 1) {
      Shape i(v.s.size(), 0);
      i[d] = 1;
      long long want = (long long)v.m[ravel(i, v.s)] - (long long)v.m[0];
      sym_assert(st[d] == want, "the stride is the distance between neighbours");
      if (want != w) rm = false;
    }
    w *= v.s[d];
  }
  bool unit = false;
  for (auto x : v.s) unit |= x == 1;
  if (!rm) { sym_assert(!t.is_contiguous(), "a view that is not laid out row by row is not contiguous"); sym_cover("noncontig"); }
  else if (!unit) { sym_assert(t.is_contiguous(), "a view laid out row by row is contiguous"); sym_cover("contig"); }
  Tensor c = t.contiguous(), e = t.clone();
  sym_assert(c.is_contiguous() && shapeOf(c) == v.s && c.type() == (types)k, "contiguous() is contiguous");
  sym_assert(e.is_contiguous() && shapeOf(e) == v.s && e.type() == (types)k, "clone() is contiguous");
  sym_cover("views");
}
// metadata of a slice with symbolic fields
extern "C" void anyslice() {
  int form = sym_choice(6, "form");
  Shape s = form < 4 ? Shape{(size_t)form + 1} : Shape{3, 4};
  size_t dim = form == 5 ? 1 : 0;
  Tensor t = make(sym_choice(2, "type") ? 5 : 0, s);
  int64_t n = s[dim];
  bool na = sym_choice(2, "na"), nb = sym_choice(2, "nb"), nc = sym_choice(2, "nc");
  int64_t a = sym_range(na, 9, "a"), b = sym_range(nb, 9, "b"), c = sym_range(1, 3, "c");
  std::string txt = dim ? ":," : "";
  if (na) txt += "-";
  txt += (char)('0' + a); txt += ":";
  if (nb) txt += "-";
  txt += (char)('0' + b); txt += ":";
  if (nc) txt += "-";
  txt += (char)('0' + c);
  if (na) a = -a;
  if (nb) b = -b;
  int64_t lo = nc ? -1 : 0, hi = nc ? n - 1 : n;
  if (a < 0) a += n;
  if (b < 0) b += n;
  a = a < lo ? lo : a > hi ? hi : a;
  b = b < lo ? lo : b > hi ? hi : b;
  int64_t len = nc ? (b < a ? (a - b - 1) / c + 1 : 0) : (a < b ? (b - a - 1) / c + 1 : 0);
  Tensor v = t[txt];
  auto sz = v.size();
  auto st = v.stride();
  sym_assert(sz.size() == s.size() && st.size() == s.size() && v.dim() == s.size(), "a slice keeps the dimensions");
  int64_t base = s.size() == 2 && dim == 0 ? 4 : 1;
  sym_assert((int64_t)sz[dim] == len, "size of a slice");
  sym_assert((int64_t)v.numel() == len * (s.size() == 2 ? (int64_t)s[1 - dim] : 1), "number of elements of a slice");
  if (len > 1) sym_assert(st[dim] == (nc ? -c : c) * base, "stride of a slice");
  if (s.size() == 2) sym_assert(sz[1 - dim] == s[1 - dim] && (len == 0 || st[1 - dim] == (dim ? 4 : 1)), "the other dimension is kept");
  if (len > 1 && (nc || c > 1) && (dim || s.size() == 1 || len > 1)) sym_assert(!v.is_contiguous(), "a slice with a step is not contiguous");
  sym_cover("anyslice");
}
extern "C" void large() {
  Shape s = pickLarge("shape");
  int k = sym_choice(6, "type");
  Tensor t = make(k, s);
  sym_assert(shapeOf(t) == s && t.numel() == prod(s) && t.dim() == s.size() && t.type() == (types)k && t.is_contiguous(), "size, numel, dim, type and contiguity of a larger tensor");
  size_t a = sym_choice(s.size(), "a"), b = sym_choice(s.size(), "b");
  sym_assume(a != b);
  Tensor u = t.transpose(a, b);
  View v = vTranspose(whole(s), a, b);
  sym_assert(shapeOf(u) == v.s && u.numel() == prod(s) && u.dim() == s.size(), "size, numel and dim of a transpose");
  auto st = u.stride();
  bool moved = false;
  for (size_t d = 0; d < v.s.size(); ++d)
    if (v.s[d] > 1) {
      Shape i(v.s.size(), 0);
      i[d] = 1;
      sym_assert(st[d] == (long long)v.m[ravel(i, v.s)], "strides of a transpose");
    }
  for (size_t q = 1; q < v.m.size(); ++q) moved |= v.m[q] != v.m[q - 1] + 1;
  if (moved) sym_assert(!u.is_contiguous(), "a transpose is not contiguous");
  sym_cover("large");
}
extern "C" void huge() {
  static const Shape S[] = {{70000}, {300, 300}, {2, 1, 2, 1, 3, 1, 2, 1, 2}, {1, 40000, 2}, {65536}, {256, 256}, {3, 0, 70000}};
  Shape s = S[sym_choice(7, "shape")];
  int k = sym_choice(TIER ? 6 : 2, "type") * (TIER ? 1 : 5), how = sym_choice(6, "view");
  Tensor t = Tensor::zeros(sizevec(s), (types)k);
  size_t nd = s.size();
  std::vector<long long> st(nd, 1);
  for (size_t d = nd - 1; d-- > 0;) st[d] = st[d + 1] * (long long)s[d + 1];
  bool cont = true;
  switch (how) {
  case 1: sym_assume(nd >= 2); t = t.transpose(0, nd - 1); std::swap(s[0], s[nd - 1]); std::swap(st[0], st[nd - 1]); break;
  case 2: t = t["::-1"]; st[0] = -st[0]; break;
  case 3: t = t["1:"]; s[0] -= s[0] ? 1 : 0; break;
  case 4: t = t["::2"]; s[0] = (s[0] + 1) / 2; st[0] *= 2; break;
  case 5: t = t.reshape(signedvec({(long long)prod(s), 1})); st = {1, 1}; s = {prod(s), 1}; nd = 2; break;
  default:;
  }
  sym_assert(shapeOf(t) == s && t.numel() == prod(s) && t.dim() == nd && t.type() == (types)k, "size, numel, dim and type of many elements");
  long long w = 1;
  auto sv = t.stride();
  sym_assert(sv.size() == nd, "one stride per dimension");
  for (size_t d = nd; d-- > 0;) {
    if (s[d] > 1 && prod(s)) sym_assert(sv[d] == st[d], "strides of many elements");
    if (s[d] > 1 && st[d] != w) cont = false;
    w *= s[d];
  }
  if (prod(s) && !cont) sym_assert(!t.is_contiguous(), "a view that is not laid out row by row is not contiguous");
  if (how == 0) sym_assert(t.is_contiguous(), "a fresh tensor is contiguous");
  sym_cover("huge");
}
