//@ entry: bytes quick=300 thorough=2400
//@ entry: longer quick=200 thorough=1800
//@ entry: numbers quick=200 thorough=900
//@ cover: taken refused index extra numbers
//@ bounds: every string of up to 4 (thorough: 5) bytes (any byte), and strings of up to 5 (thorough: 6) characters out of digits 0 3 5, '-', ':', ',', ' ' and 'x', as the slice of a 3-element, a 2x2 (strided) and a scalar tensor; (entry numbers) each field of start:stop:step (or an index) absent, small, or one of 18 long numbers around the limits of 16, 31, 32, 63 and 64 bits, of either sign, with up to 40 digits
//@ outside: longer strings; other shapes
//@ oracle: the call either raises a std::exception and changes nothing, or gives a view of at most as many elements as the source in each dimension whose every element is (by value) one of the source's; no memory error, no crash
#include "h.h"
static void probe(const std::string &txt) {
  int form = sym_choice(3, "tensor");
  Shape s = form == 0 ? Shape{3} : form == 1 ? Shape{2, 2} : Shape{};
  std::vector<int32_t> d;
  for (size_t i = 0; i < prod(s); ++i) d.push_back(100 + (int)i);
  int32_t junk = sym_range(0, 50, "junk");
  Tensor t = mkVar<int32_t>(s, d, form == 1 ? 5 : 4, junk);
  int64_t before = sym_heap_live();
  try {
    Tensor v = t[txt];
    Shape vs = shapeOf(v);
    sym_assert(vs.size() <= s.size(), "a slice has no more dimensions than its source");
    sym_assert(v.numel() <= t.numel(), "a slice has no more elements than its source");
    Tensor c = v.clone();
    sym_assert((c >= Tensor((int32_t)100)).all() && (c < Tensor((int32_t)(100 + prod(s)))).all(), "a slice stays inside its source");
    sym_cover("taken");
    if (vs.size() < s.size()) sym_cover("index");
  } catch (const std::exception &) {
    sym_cover("refused");
  }
  sym_assert(sym_heap_live() == before, "slicing leaks no memory");
  expect<int32_t>(t, s, d, "slicing leaves the source alone");
}
extern "C" void bytes() {
  int n = sym_choice(TIER ? 6 : 5, "length");
  std::string s;
  for (int i = 0; i < n; ++i) s += (char)sym_bits(8, "c");
  probe(s);
}
extern "C" void longer() {
  static const char A[] = "035-:, x";
  int n = 4 + sym_choice(2, "length") + TIER;
  std::string s;
  int commas = 0, colons = 0;
  for (int i = 0; i < n; ++i) {
    char c = A[sym_range(0, 7, "c")];
    s += c;
    commas += c == ',';
    colons += c == ':';
  }
  sym_assume(colons >= 1);
  if (colons > 2) sym_cover("extra");
  probe(s);
}
// numbers at and beyond the limits of the integer types
extern "C" void numbers() {
  static const char *N[] = {"", "1", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "8589934592", "32768", "65536", "9223372036854775807", "9223372036854775808", "9223372036854775809",
                            "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "00000000000000000000000000000000000000000000000001", "1000000000000000000000000000000000000000"};
  int form = sym_choice(2, "form");
  std::string s;
  int a = sym_choice(19, "a");
  s = a && sym_choice(2, "minus") ? std::string("-") + N[a] : N[a];
  if (form) {
    for (int i = 0; i < 2; ++i) {
      int b = sym_choice(19, "b");
      if (!TIER && (a > 1 || i)) sym_assume(b <= 1 || a <= 1 || i == 0);
      s += ':';
      if (b && sym_choice(2, "minus")) s += '-';
      s += N[b];
    }
  }
  sym_cover("numbers");
  probe(s);
}
