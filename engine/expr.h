// Hash-consed bit-vector / floating-point expression DAG used by the symbolic
// executor.  Every expression has a width of 1..64 bits; floating-point values
// are carried as their IEEE bit pattern (width 32 or 64).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

enum class Op : uint8_t {
  Const, Sym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, UMulO, // UMulO: unsigned product overflows
  Concat, Extract, ZExt, SExt, Ite,
  FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt,
  FOeq, FOlt, FOle, FUno,
  SIToFP, UIToFP, FPToSI, FPToUI, FPExt, FPTrunc
};

// Exact fixed-point view of a floating-point expression: value = n * 2^-g with
// lo <= n <= hi, and the IEEE result is exactly that number (no rounding).
struct Fix {
  bool ok = false;
  int g = 0;
  int64_t lo = 0, hi = 0;
};

struct Expr {
  Op op;
  uint8_t w;
  uint16_t aux;       // Extract: low bit
  uint32_t id;
  uint64_t c;         // Const: value; Sym: symbol index
  Expr *k[3];
  int64_t lo, hi;     // signed range of the value (always sound)
  Fix fx;             // exact fixed-point view, for FP-producing nodes
  uint32_t nsyms_cache = 0;
  const std::vector<uint32_t> *syms = nullptr; // sorted symbol ids
  // evaluation memo
  uint32_t ev_epoch = 0;
  uint64_t ev_val = 0;
};

struct Symbol {
  std::string name;
  int w;
  int64_t lo, hi;
  bool uninit = false; // arbitrary content of uninitialised memory
  Expr *e;
};

extern std::vector<Symbol> g_syms;

inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, int w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

Expr *mkConst(uint64_t v, int w);
Expr *mkSym(const std::string &name, int w, int64_t lo, int64_t hi, bool uninit = false);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkCmp(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a); // 1-bit
Expr *mkAnd1(Expr *a, Expr *b);
Expr *mkOr1(Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, int low, int w);
Expr *mkZExt(Expr *a, int w);
Expr *mkSExt(Expr *a, int w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkF2(Op op, Expr *a, Expr *b);          // FAdd..FDiv
Expr *mkF1(Op op, Expr *a);                   // FNeg FAbs FSqrt
Expr *mkFCmp(Op op, Expr *a, Expr *b);        // FOeq FOlt FOle FUno
Expr *mkFConv(Op op, Expr *a, int w);         // conversions
Fix fixOf(Expr *e, int w);                    // fixed view incl. constants

inline bool isConst(const Expr *e) { return e->op == Op::Const; }
inline bool isTrue(const Expr *e) { return e->op == Op::Const && e->c == 1; }
inline bool isFalse(const Expr *e) { return e->op == Op::Const && e->c == 0; }
inline bool isFPNode(Op o) {
  return (o >= Op::FAdd && o <= Op::FSqrt) || o == Op::SIToFP ||
         o == Op::UIToFP || o == Op::FPExt || o == Op::FPTrunc;
}

// concrete semantics (also used by the interpreter for concrete values)
uint64_t evalBin(Op op, uint64_t a, uint64_t b, int w);
bool evalCmp(Op op, uint64_t a, uint64_t b, int w);
uint64_t evalF2(Op op, uint64_t a, uint64_t b, int w);
uint64_t evalF1(Op op, uint64_t a, int w);
bool evalFCmp(Op op, uint64_t a, uint64_t b, int w);
uint64_t evalFConv(Op op, uint64_t a, int wfrom, int wto);

struct Model {
  std::vector<uint64_t> v; // per symbol
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};
uint64_t evalExpr(Expr *e, const Model &m);
void newEvalEpoch();
const std::vector<uint32_t> &symsOf(Expr *e);
std::string show(Expr *e, int depth = 6);
