// Bitcode stand-ins for the few libc/libstdc++ routines INNC calls whose
// implementation is not in a header: compiled to LLVM IR next to the
// repository's sources so that they, too, are executed symbolically.
#include <cerrno>
#include <climits>
#include <cstdint>
#include <list>
#include <map>
#include <ostream>
#include <string>
#include <unordered_map>
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static long long parse_ll(const char *s, char **end, int base) {
  const char *p = s;
  while (sp(*p)) ++p;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if (base == 0) base = 10;
  unsigned long long v = 0, lim = neg ? (unsigned long long)LLONG_MAX + 1 : LLONG_MAX;
  bool any = false, over = false;
  for (;; ++p) {
    int d;
    if (*p >= '0' && *p <= '9') d = *p - '0';
    else if (base > 10 && *p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
    else if (base > 10 && *p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
    else break;
    if (d >= base) break;
    any = true;
    if (over || v > (lim - d) / base) over = true;
    else v = v * base + d;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  if (over) { errno = ERANGE; return neg ? LLONG_MIN : LLONG_MAX; }
  return neg ? (long long)(0 - v) : (long long)v;
}
static unsigned long long parse_ull(const char *s, char **end, int base) {
  const char *p = s;
  while (sp(*p)) ++p;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if (base == 0) base = 10;
  unsigned long long v = 0;
  bool any = false, over = false;
  for (; *p >= '0' && *p <= '9'; ++p) {
    int d = *p - '0';
    any = true;
    if (over || v > (ULLONG_MAX - d) / base) over = true;
    else v = v * base + d;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  if (over) { errno = ERANGE; return ULLONG_MAX; }
  return neg ? 0 - v : v;
}
extern "C" {
#define DEF(T, N, L, F) T N(const char *, char **, int) __asm__(L); T N(const char *s, char **e, int b) { return (T)F(s, e, b); }
DEF(long long, vp_strtoll1, "strtoll", parse_ll)
DEF(long long, vp_strtoll2, "__isoc23_strtoll", parse_ll)
DEF(long, vp_strtol1, "strtol", parse_ll)
DEF(long, vp_strtol2, "__isoc23_strtol", parse_ll)
DEF(unsigned long long, vp_strtoull1, "strtoull", parse_ull)
DEF(unsigned long long, vp_strtoull2, "__isoc23_strtoull", parse_ull)
DEF(unsigned long, vp_strtoul1, "strtoul", parse_ull)
DEF(unsigned long, vp_strtoul2, "__isoc23_strtoul", parse_ull)
int vp_isspace(int c) __asm__("isspace");
int vp_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vp_isdigit(int c) __asm__("isdigit");
int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
int vp_isalpha(int c) __asm__("isalpha");
int vp_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int vp_isalnum(int c) __asm__("isalnum");
int vp_isalnum(int c) { return vp_isalpha(c) || vp_isdigit(c); }
int vp_toupper(int c) __asm__("toupper");
int vp_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int vp_tolower(int c) __asm__("tolower");
int vp_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char *vp_strchr(const char *s, int c) __asm__("strchr");
const char *vp_strchr(const char *s, int c) {
  for (;; ++s) {
    if (*s == (char)c) return s;
    if (!*s) return nullptr;
  }
}
int vp_strncmp(const char *a, const char *b, size_t n) __asm__("strncmp");
int vp_strncmp(const char *a, const char *b, size_t n) {
  for (; n; ++a, ++b, --n) {
    if (*a != *b) return (unsigned char)*a - (unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
long vp_atol(const char *s) __asm__("atol");
long vp_atol(const char *s) { return (long)parse_ll(s, nullptr, 10); }
long long vp_atoll(const char *s) __asm__("atoll");
long long vp_atoll(const char *s) { return parse_ll(s, nullptr, 10); }
int vp_atoi(const char *s) __asm__("atoi");
int vp_atoi(const char *s) { return (int)parse_ll(s, nullptr, 10); }
}
// libstdc++.so provides these out of line; instantiate them from the headers.
template class std::basic_string<char>;

// std::map / std::set: same contract as libstdc++'s, without the balancing
namespace std {
typedef _Rb_tree_node_base RB;
static RB *inc(RB *x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    RB *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static RB *dec(RB *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    RB *y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  RB *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
RB *_Rb_tree_increment(RB *x) throw() { return inc(x); }
const RB *_Rb_tree_increment(const RB *x) throw() { return inc(const_cast<RB *>(x)); }
RB *_Rb_tree_decrement(RB *x) throw() { return dec(x); }
const RB *_Rb_tree_decrement(const RB *x) throw() { return dec(const_cast<RB *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RB *x, RB *p, RB &h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
RB *_Rb_tree_rebalance_for_erase(RB *const z, RB &h) throw() {
  if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? inc(z) : &h;
  if (h._M_right == z) h._M_right = z->_M_left || z->_M_parent != &h ? dec(z) : &h;
  RB *r;
  auto replace = [&](RB *o, RB *n) {
    RB *p = o->_M_parent;
    if (h._M_parent == o) h._M_parent = n;
    else if (p->_M_left == o) p->_M_left = n;
    else p->_M_right = n;
    if (n) n->_M_parent = p;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    r = z->_M_right;
    while (r->_M_left) r = r->_M_left;
    if (r->_M_parent != z) {
      replace(r, r->_M_right);
      r->_M_right = z->_M_right;
      r->_M_right->_M_parent = r;
    }
    replace(z, r);
    r->_M_left = z->_M_left;
    r->_M_left->_M_parent = r;
  }
  return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t b = n < 13 ? 13 : (n | 1);
  _M_next_resize = b;
  return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) return {true, _M_next_bkt((elt + ins) * 2 > bkt * 2 ? (elt + ins) * 2 : bkt * 2)};
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char *)p)[i];
  return h;
}
}

// stream manipulators given as functions
extern "C" {
std::ostream *vp_manip1(std::ostream *o, std::ios_base &(*f)(std::ios_base &)) __asm__("_ZNSolsEPFRSt8ios_baseS0_E");
std::ostream *vp_manip1(std::ostream *o, std::ios_base &(*f)(std::ios_base &)) { f(*o); return o; }
std::ostream *vp_manip2(std::ostream *o, std::ostream &(*f)(std::ostream &)) __asm__("_ZNSolsEPFRSoS_E");
std::ostream *vp_manip2(std::ostream *o, std::ostream &(*f)(std::ostream &)) { f(*o); return o; }
}
