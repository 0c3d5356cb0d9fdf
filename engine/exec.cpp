// Symbolic executor for LLVM 18 IR.  One OS process per path: at a branch whose
// both sides are satisfiable the process forks.  All data is either concrete or
// an Expr; pointers may be symbolic and are resolved with the solver.
#include "expr.h"
#include "solver.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;

// ---------------------------------------------------------------- shared state
struct NameCnt { char name[96]; std::atomic<uint64_t> n; };
struct Shared {
  std::atomic<int> tokens, stop, viol, nkinds, nwit;
  std::atomic<uint64_t> paths_ok, paths_assume, paths_unsup, paths_viol, paths_stopped, paths_dup, crashed;
  std::atomic<uint64_t> as_total, as_const, as_proved, as_unknown;
  std::atomic<uint64_t> queries, sat, unsat, unknown, usec, fpq, instrs, forks, symbr, uninit_syms, modelbad, safety;
  std::atomic<int> lock;
  NameCnt cover[128];
  NameCnt errs[64];
  std::atomic<uint8_t> fn[1 << 16];
};
static Shared *SH;
static void spin() { int e = 0; while (!SH->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(10); } }
static void unspin() { SH->lock = 0; }
static void bump(NameCnt *t, int n, const char *name) {
  spin();
  for (int i = 0; i < n; i++) {
    if (t[i].name[0] == 0) { strncpy(t[i].name, name, 95); t[i].n = 1; break; }
    if (!strncmp(t[i].name, name, 95)) { t[i].n++; break; }
  }
  unspin();
}

static std::string g_out;
static int g_maxviol = 3;
static double g_deadline = 0;
static uint64_t g_instr_limit = 150000000ull;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Module *M;
static const DataLayout *DL;
static int g_maxwit = 0;
static uint64_t g_pathAsserts = 0;
static uint64_t g_instrs = 0, g_forks = 0, g_symbr = 0, g_as_total = 0, g_as_const = 0, g_as_proved = 0, g_as_unknown = 0, g_uninit = 0, g_modelbad = 0, g_safety = 0;

static void flushStats() {
  SH->instrs += g_instrs; SH->forks += g_forks; SH->symbr += g_symbr;
  SH->as_total += g_as_total; SH->as_const += g_as_const; SH->as_proved += g_as_proved; SH->as_unknown += g_as_unknown;
  SH->queries += g_sstats.queries; SH->sat += g_sstats.sat; SH->unsat += g_sstats.unsat; SH->unknown += g_sstats.unknown;
  SH->usec += g_sstats.usec; SH->fpq += g_sstats.fpq; SH->uninit_syms += g_uninit; SH->modelbad += g_modelbad; SH->safety += g_safety;
  g_instrs = g_forks = g_symbr = g_as_total = g_as_const = g_as_proved = g_as_unknown = g_uninit = g_modelbad = g_safety = 0;
  g_sstats = SolverStats{};
}
static void resetLocalStats() {
  g_instrs = g_forks = g_symbr = g_as_total = g_as_const = g_as_proved = g_as_unknown = g_uninit = g_modelbad = g_safety = 0;
  g_sstats = SolverStats{};
}
static bool g_ownToken = false;
[[noreturn]] static void endPath(std::atomic<uint64_t> &cnt) {
  flushStats();
  cnt++;
  if (g_ownToken) SH->tokens++;
  _exit(0);
}

// ---------------------------------------------------------------- values
struct RVal;
typedef std::shared_ptr<std::vector<RVal>> Agg;
struct RVal {
  uint64_t c = 0;
  Expr *e = nullptr;
  Agg agg;
  RVal() {}
  RVal(uint64_t c) : c(c) {}
  RVal(Expr *x) { if (isConst(x)) c = x->c; else e = x; }
};
static inline Expr *E(const RVal &v, int w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- path state
static std::vector<Expr *> PC;
static std::unordered_set<Expr *> PCset;
static Model g_model;
static bool g_modelOk = true;

struct Input { std::string name; Expr *e; uint64_t c; int w; };
static std::vector<Input> g_inputs;

static void addPC(Expr *c) {
  if (isTrue(c)) return;
  if (c->op == Op::And && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
  if (PCset.insert(c).second) PC.push_back(c);
}

// constraints of PC that share symbols (transitively) with cond
static std::vector<Expr *> slice(Expr *cond) {
  std::vector<Expr *> r;
  std::vector<char> used(PC.size(), 0);
  std::unordered_set<uint32_t> ss;
  std::vector<uint32_t> work;
  for (auto s : symsOf(cond)) if (ss.insert(s).second) work.push_back(s);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); i++) {
      if (used[i]) continue;
      auto &sy = symsOf(PC[i]);
      bool hit = false;
      for (auto s : sy) if (ss.count(s)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; for (auto s : sy) ss.insert(s); }
    }
  }
  for (size_t i = 0; i < PC.size(); i++) if (used[i]) r.push_back(PC[i]);
  r.push_back(cond);
  return r;
}

static Res query(Expr *cond, Model &m) {
  if (isTrue(cond)) return Res::Sat;
  if (isFalse(cond)) return Res::Unsat;
  auto cs = slice(cond);
  Res r = solve(cs, m);
  if (r == Res::Sat) {
    newEvalEpoch();
    for (auto *c : cs) if (!evalExpr(c, m)) { g_modelbad++; if (getenv("SYM_DEBUG")) fprintf(stderr, "modelbad: %s\n", show(c, 12).c_str()); break; }
  }
  return r;
}
static uint64_t modelEval(Expr *e) {
  newEvalEpoch();
  return evalExpr(e, g_model);
}
static void ensureModel() {
  if (g_modelOk) return;
  if (PC.empty()) { g_modelOk = true; return; }
  Model m = g_model;
  Res r = solve(PC, m);
  if (r == Res::Sat) { g_model = m; g_modelOk = true; }
}

struct Fn;
static std::string where();
static std::string backtrace();

static void checkDeadline() {
  if (SH->stop) endPath(SH->paths_stopped);
  if (g_deadline && now() > g_deadline) { SH->stop = 2; endPath(SH->paths_stopped); }
}

// returns true in the child
static bool forkPath() {
  checkDeadline();
  g_forks++;
  int t = SH->tokens.load();
  bool par = false;
  while (t > 0) if (SH->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); bump(SH->errs, 64, "fork failed"); SH->stop = 2; endPath(SH->paths_unsup); }
  if (p == 0) {
    resetLocalStats();
    if (par) g_ownToken = true; else g_ownToken = false;
    return true;
  }
  if (!par) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; }
    checkDeadline();
  }
  return false;
}

static std::string jsonEsc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

static void writeViolation(const char *kind, const std::string &msg, const Model &m) {
  int n = SH->viol++;
  std::string fn = g_out + "/viol_" + std::to_string(n) + ".json";
  FILE *f = fopen((fn + ".tmp").c_str(), "w");
  if (!f) return;
  newEvalEpoch();
  fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"backtrace\":\"%s\",\"inputs\":[", kind, jsonEsc(msg).c_str(), jsonEsc(where()).c_str(), jsonEsc(backtrace()).c_str());
  bool first = true;
  for (auto &i : g_inputs) {
    uint64_t v = i.e ? evalExpr(i.e, m) : i.c;
    fprintf(f, "%s[\"%s\",%lld]", first ? "" : ",", jsonEsc(i.name).c_str(), (long long)sextw(v, i.w));
    first = false;
  }
  fprintf(f, "]");
  bool un = false;
  for (size_t i = 0; i < g_syms.size(); i++) if (g_syms[i].uninit) un = true;
  fprintf(f, ",\"uninit\":%s}\n", un ? "true" : "false");
  fclose(f);
  rename((fn + ".tmp").c_str(), fn.c_str());
  if (SH->viol >= g_maxviol) SH->stop = 1;
}

static void writeWitness() {
  uint64_t k = SH->paths_ok;
  if (!g_maxwit || SH->nwit >= g_maxwit) return;
  if (k >= (uint64_t)g_maxwit / 2 && (k * 2654435761u >> 7) % 16) return;
  ensureModel();
  if (!g_modelOk) return;
  int n = SH->nwit++;
  if (n >= g_maxwit) return;
  FILE *f = fopen((g_out + "/wit_" + std::to_string(n) + ".json").c_str(), "w");
  if (!f) return;
  // Move free inputs away from the solver's default values (mostly zero).
  if (g_model.v.size() < g_syms.size()) g_model.v.resize(g_syms.size(), 0);
  uint64_t rs = k * 0x9e3779b97f4a7c15ull + 12345;
  for (auto &i : g_inputs) {
    if (!i.e || i.e->op != Op::Sym) continue;
    auto &sy = g_syms[i.e->c];
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    uint64_t span = (uint64_t)sy.hi - (uint64_t)sy.lo, old = g_model.v[i.e->c];
    g_model.v[i.e->c] = (span == ~0ull ? rs : (uint64_t)sy.lo + rs % (span + 1)) & maskw(sy.w);
    newEvalEpoch();
    bool ok = true;
    for (auto *c : PC) if (!evalExpr(c, g_model)) { ok = false; break; }
    if (!ok) g_model.v[i.e->c] = old;
  }
  newEvalEpoch();
  fprintf(f, "{\"asserts\":%lu,\"inputs\":[", (unsigned long)g_pathAsserts);
  bool first = true;
  for (auto &i : g_inputs) {
    uint64_t v = i.e ? evalExpr(i.e, g_model) : i.c;
    fprintf(f, "%s[\"%s\",%lld]", first ? "" : ",", jsonEsc(i.name).c_str(), (long long)sextw(v, i.w));
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
}

[[noreturn]] static void violation(const char *kind, const std::string &msg) {
  ensureModel();
  if (!g_modelOk) { bump(SH->errs, 64, ("unconfirmed violation (solver unknown): " + msg).c_str()); endPath(SH->paths_unsup); }
  writeViolation(kind, msg, g_model);
  endPath(SH->paths_viol);
}
[[noreturn]] static void unsupported(const std::string &msg) {
  bump(SH->errs, 64, ("unsupported: " + msg).c_str());
  if (getenv("SYM_DEBUG")) fprintf(stderr, "unsupported: %s at %s\n%s\n", msg.c_str(), where().c_str(), backtrace().c_str());
  endPath(SH->paths_unsup);
}

// Decide a branch; forks when both sides are possible.
static bool branch(Expr *c) {
  if (isConst(c)) return c->c;
  if (PCset.count(c)) return true;
  Expr *nc = mkNot(c);
  if (isConst(nc)) return !nc->c;
  if (PCset.count(nc)) return false;
  g_symbr++;
  ensureModel();
  bool v = g_modelOk ? modelEval(c) != 0 : true;
  Expr *other = v ? nc : c, *same = v ? c : nc;
  Model m2 = g_model;
  Res r = query(other, m2);
  if (!g_modelOk) {
    // no model known: also check the 'same' side
    Model m1 = g_model;
    Res r1 = query(same, m1);
    if (r1 == Res::Unsat) { addPC(other); return !v; }
  }
  if (r == Res::Unsat) { PCset.insert(same); return v; }
  if (forkPath()) {
    addPC(other);
    if (r == Res::Sat) { g_model = m2; g_modelOk = true; } else g_modelOk = false;
    return !v;
  }
  addPC(same);
  return v;
}

// Enumerate every feasible value of e (forking); returns the value of this path.
static uint64_t concretize(Expr *e) {
  if (isConst(e)) return e->c;
  for (int n = 0;; n++) {
    if (n > 4096) unsupported("concretisation of a value with more than 4096 possibilities");
    ensureModel();
    if (!g_modelOk) unsupported("concretize without model");
    uint64_t v = modelEval(e);
    Expr *eq = mkCmp(Op::Eq, e, mkConst(v, e->w));
    if (isTrue(eq)) return v;
    Model m2 = g_model;
    Res r = query(mkNot(eq), m2);
    if (r == Res::Unsat) { addPC(eq); return v; }
    if (forkPath()) {
      addPC(mkNot(eq));
      if (r == Res::Sat) { g_model = m2; } else g_modelOk = false;
      continue;
    }
    addPC(eq);
    return v;
  }
}
static uint64_t conc(const RVal &v) { return v.e ? concretize(v.e) : v.c; }

// Check a safety condition that must hold for every value on this path.
static void mustHold(Expr *ok, const char *kind, const std::string &msg) {
  g_safety++;
  if (isTrue(ok)) return;
  if (isFalse(ok)) violation(kind, msg);
  Model m2 = g_model;
  Res r = query(mkNot(ok), m2);
  if (r == Res::Unsat) { PCset.insert(ok); return; }
  if (r == Res::Unknown) { g_as_unknown++; addPC(ok); g_modelOk = false; return; }
  Model save = g_model;
  // report, then go on with the values for which it holds
  {
    std::vector<Expr *> keep = PC;
    writeViolation(kind, msg, m2);
  }
  Model m3 = save;
  Res r2 = query(ok, m3);
  if (r2 != Res::Sat) endPath(SH->paths_viol);
  addPC(ok);
  g_model = m3;
}

// ---------------------------------------------------------------- memory
struct SB { Expr *e; uint8_t lo; };
enum Kind : uint8_t { KGlobal, KStack, KMalloc, KNew, KNewArr, KExc, KFunc };
struct Obj {
  uint64_t base, size;
  Kind kind;
  bool freed = false, ro = false, ext = false;
  uint32_t nspecial = 0; // bytes that are symbolic or uninitialised
  std::vector<uint8_t> d, st; // st: 0 concrete 1 symbolic 2 uninit
  std::vector<SB> sb;
  std::string name;
};
static std::vector<Obj *> Rglob, Rheap, Rstack;
static const uint64_t GB = 0x100000000ull, FB = 0x150000000ull, HB = 0x200000000000ull, SBASE = 0x700000000000ull;
static uint64_t g_nextG = GB, g_nextF = FB, g_nextH = HB, g_nextS = SBASE;
static uint64_t g_liveHeap = 0;
static bool g_opaque = false;
static std::vector<Expr *> g_draws[2];

static Obj *mkObj(std::vector<Obj *> &R, uint64_t &next, uint64_t size, Kind k, uint64_t align, uint64_t gap, bool uninit) {
  Obj *o = new Obj;
  if (align < 16) align = 16;
  next = (next + align - 1) / align * align;
  o->base = next;
  o->size = size;
  o->kind = k;
  o->d.assign(size, 0);
  if (uninit) { o->st.assign(size, 2); o->nspecial = size; } else o->st.assign(size, 0);
  next += size + gap;
  R.push_back(o);
  return o;
}
static Obj *findIn(std::vector<Obj *> &R, uint64_t a) {
  size_t lo = 0, hi = R.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (R[m]->base <= a) lo = m + 1; else hi = m; }
  if (lo == 0) return nullptr;
  Obj *o = R[lo - 1];
  if (a <= o->base + o->size) return o;
  return nullptr;
}
static Obj *g_c1 = nullptr, *g_c2 = nullptr;
static Obj *findObj(uint64_t a) {
  if (g_c1 && a >= g_c1->base && a < g_c1->base + g_c1->size) return g_c1;
  if (g_c2 && a >= g_c2->base && a < g_c2->base + g_c2->size) { std::swap(g_c1, g_c2); return g_c1; }
  Obj *o = a >= SBASE ? findIn(Rstack, a) : a >= HB ? findIn(Rheap, a) : findIn(Rglob, a);
  if (o) { g_c2 = g_c1; g_c1 = o; }
  return o;
}
static std::string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static const char *kindName(Kind k) {
  switch (k) { case KGlobal: return "global"; case KStack: return "stack"; case KMalloc: return "heap(malloc)"; case KNew: return "heap(new)"; case KNewArr: return "heap(new[])"; default: return "exc"; }
}
static Obj *checkedObj(uint64_t a, uint64_t n, bool write) {
  g_safety++;
  Obj *o = findObj(a);
  if (!o || a + n > o->base + o->size) {
    if (a < 4096) violation("memory", std::string("null-pointer ") + (write ? "write" : "read") + " at " + hex(a));
    if (o) violation("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)(a - o->base)) + " of a " + kindName(o->kind) + " block of " + std::to_string(o->size) + " bytes");
    violation("memory", std::string("wild ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + hex(a));
  }
  if (o->freed) violation("memory", std::string("use-after-free ") + (write ? "write" : "read") + " in a " + kindName(o->kind) + " block of " + std::to_string(o->size) + " bytes");
  if (write && o->ro) violation("memory", "write to constant memory " + o->name);
  return o;
}
static Expr *byteExpr(Obj *o, uint64_t off) {
  if (o->st[off] == 0) return mkConst(o->d[off], 8);
  if (o->st[off] == 2) {
    Expr *s = mkSym("uninit_" + hex(o->base) + "+" + std::to_string(off), 8, -128, 127, true);
    g_uninit++;
    if (o->sb.empty()) o->sb.resize(o->size);
    o->sb[off] = SB{s, 0};
    o->st[off] = 1;
    return s;
  }
  SB &s = o->sb[off];
  return mkExtract(s.e, s.lo * 8, 8);
}
static RVal loadObj(Obj *o, uint64_t off, int n) {
  if (o->nspecial == 0) {
    uint64_t v = 0;
    memcpy(&v, &o->d[off], n);
    return RVal(v);
  }
  bool allc = true;
  for (int i = 0; i < n; i++) if (o->st[off + i]) { allc = false; break; }
  if (allc) { uint64_t v = 0; memcpy(&v, &o->d[off], n); return RVal(v); }
  // whole symbolic value?
  if (o->st[off] == 1) {
    SB s = o->sb[off];
    bool whole = true;
    for (int i = 1; i < n && whole; i++)
      if (o->st[off + i] != 1 || o->sb[off + i].e != s.e || o->sb[off + i].lo != s.lo + i) whole = false;
    if (whole) return RVal(mkExtract(s.e, s.lo * 8, n * 8));
  }
  Expr *r = byteExpr(o, off);
  for (int i = 1; i < n; i++) r = mkConcat(byteExpr(o, off + i), r);
  return RVal(r);
}
static void storeObj(Obj *o, uint64_t off, const RVal &v, int n) {
  if (!v.e) {
    memcpy(&o->d[off], &v.c, n);
    if (o->nspecial)
      for (int i = 0; i < n; i++) if (o->st[off + i]) { o->st[off + i] = 0; o->nspecial--; }
    return;
  }
  if (o->sb.empty()) o->sb.resize(o->size);
  for (int i = 0; i < n; i++) {
    if (!o->st[off + i]) o->nspecial++;
    o->st[off + i] = 1;
    o->sb[off + i] = SB{v.e, (uint8_t)i};
  }
}

// Resolve a symbolic address: returns the object; leaves the (symbolic) offset
// constrained to lie inside it.  offs receives all feasible offsets.
static Obj *resolveSym(Expr *a, uint64_t n, bool write, std::vector<uint64_t> &offs) {
  for (;;) {
    ensureModel();
    if (!g_modelOk) unsupported("symbolic address without model");
    uint64_t v = modelEval(a);
    Obj *o = checkedObj(v, n, write); // a model address outside any object is a witness
    Expr *in = mkAnd1(mkCmp(Op::Ule, mkConst(o->base, 64), a), mkCmp(Op::Ule, a, mkConst(o->base + o->size - n, 64)));
    if (!branch(in)) continue; // the other objects (or none)
    // a small constant table: every offset, without asking the solver
    offs.clear();
    if (!write && o->ro && o->size <= 512 && o->nspecial == 0) {
      for (uint64_t k = 0; k + n <= o->size; k++) offs.push_back(k);
      return o;
    }
    // enumerate feasible offsets
    size_t npc = PC.size();
    std::vector<Expr *> savePC = PC;
    auto saveSet = PCset;
    Model m = g_model;
    bool over = false, unk = false;
    uint64_t cur = v;
    while (true) {
      offs.push_back(cur - o->base);
      Expr *ne = mkNot(mkCmp(Op::Eq, a, mkConst(cur, 64)));
      Res r = query(ne, m);
      if (r == Res::Unknown) { unk = true; break; }
      if (r == Res::Unsat) break;
      if (offs.size() >= 48) { over = true; break; }
      addPC(ne);
      newEvalEpoch();
      cur = evalExpr(a, m);
    }
    PC = savePC; PCset = saveSet; (void)npc;
    if (over || unk) { offs.clear(); uint64_t cv = concretize(a); offs.push_back(cv - o->base); }
    return o;
  }
}

static RVal loadMem(const RVal &addr, int n) {
  if (!addr.e) { Obj *o = checkedObj(addr.c, n, false); return loadObj(o, addr.c - o->base, n); }
  std::vector<uint64_t> offs;
  Obj *o = resolveSym(addr.e, n, false, offs);
  Expr *r = E(loadObj(o, offs[0], n), n * 8);
  for (size_t i = 1; i < offs.size(); i++)
    r = mkIte(mkCmp(Op::Eq, addr.e, mkConst(o->base + offs[i], 64)), E(loadObj(o, offs[i], n), n * 8), r);
  return RVal(r);
}
static void storeMem(const RVal &addr, const RVal &v, int n) {
  if (!addr.e) { Obj *o = checkedObj(addr.c, n, true); storeObj(o, addr.c - o->base, v, n); return; }
  std::vector<uint64_t> offs;
  Obj *o = resolveSym(addr.e, n, true, offs);
  if (offs.size() == 1) { storeObj(o, offs[0], v, n); return; }
  std::vector<Expr *> nv;
  for (auto off : offs) {
    Expr *old = E(loadObj(o, off, n), n * 8);
    nv.push_back(mkIte(mkCmp(Op::Eq, addr.e, mkConst(o->base + off, 64)), E(v, n * 8), old));
  }
  // offsets may overlap for unaligned accesses; alignment makes them disjoint
  for (size_t i = 0; i < offs.size(); i++) for (size_t j = i + 1; j < offs.size(); j++)
    if (offs[i] < offs[j] + n && offs[j] < offs[i] + n) unsupported("overlapping symbolic store");
  for (size_t i = 0; i < offs.size(); i++) storeObj(o, offs[i], RVal(nv[i]), n);
}
static void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
  if (n == 0) return;
  Obj *s = checkedObj(src, n, false);
  Obj *d = checkedObj(dst, n, true);
  uint64_t so = src - s->base, dO = dst - d->base;
  if (s->nspecial == 0 && d->nspecial == 0) { memmove(&d->d[dO], &s->d[so], n); return; }
  std::vector<uint8_t> td(s->d.begin() + so, s->d.begin() + so + n), ts(s->st.begin() + so, s->st.begin() + so + n);
  std::vector<SB> tb;
  bool anysym = std::find(ts.begin(), ts.end(), 1) != ts.end();
  if (anysym) tb.assign(s->sb.begin() + so, s->sb.begin() + so + n);
  if (anysym && d->sb.empty()) d->sb.resize(d->size);
  for (uint64_t i = 0; i < n; i++) {
    d->d[dO + i] = td[i];
    if (d->st[dO + i]) d->nspecial--;
    d->st[dO + i] = ts[i];
    if (ts[i]) d->nspecial++;
    if (ts[i] == 1) d->sb[dO + i] = tb[i];
  }
}
static void setMem(uint64_t dst, const RVal &v, uint64_t n) {
  if (n == 0) return;
  Obj *d = checkedObj(dst, n, true);
  for (uint64_t i = 0; i < n; i++) storeObj(d, dst - d->base + i, v.e ? RVal(mkExtract(v.e, 0, 8)) : RVal(v.c & 255), 1);
}
static uint64_t heapAlloc(uint64_t n, Kind k) {
  if (n > (1ull << 31)) return 0;
  Obj *o = mkObj(Rheap, g_nextH, n, k, 16, 65536 + (n & ~15ull), true);
  g_liveHeap++;
  return o->base;
}
static void heapFree(uint64_t a, Kind k) {
  if (a == 0) return;
  Obj *o = findObj(a);
  g_safety++;
  if (!o || o->base != a || (o->kind != KMalloc && o->kind != KNew && o->kind != KNewArr)) violation("memory", "invalid free of " + hex(a));
  if (o->freed) violation("memory", std::string("double free of a ") + kindName(o->kind) + " block of " + std::to_string(o->size) + " bytes");
  if (o->kind != k) violation("memory", std::string("mismatched deallocation of ") + kindName(o->kind) + " with " + kindName(k));
  o->freed = true;
  g_liveHeap--;
  std::vector<uint8_t>().swap(o->d);
  std::vector<uint8_t>().swap(o->st);
  std::vector<SB>().swap(o->sb);
  if (g_c1 == o) g_c1 = nullptr;
  if (g_c2 == o) g_c2 = nullptr;
}

// ---------------------------------------------------------------- decoded code
struct Opnd { int slot = -1; RVal c; };
struct Edge { int target = -1; std::vector<std::pair<int, Opnd>> phis; };
struct DI {
  const Instruction *I;
  unsigned opc;
  int dest = -1;
  int w = 0, w2 = 0; // result / operand widths
  int bytes = 0;
  std::vector<Opnd> ops;
  std::vector<Edge> edges;
  int intr = 0;                 // intrinsic id
  Fn *callee = nullptr;         // direct callee with body
  int ext = -1;                 // external handler
  // gep
  int64_t gconst = 0;
  std::vector<std::pair<int, int64_t>> gidx; // operand index, scale
  Type *ty = nullptr;
};
struct Fn {
  Function *F;
  std::string name;
  bool decoded = false;
  bool toString = false; // std::to_string of an integer
  int nslots = 0;
  int id = 0;
  std::vector<DI> code;
  int nargs = 0;
};
struct Frame {
  Fn *fn;
  int pc = 0;
  std::vector<RVal> regs;
  std::vector<RVal> va;
  size_t stackMark;
  int retDest; // slot in the caller
};
static std::vector<Frame> FR;
static std::unordered_map<const Function *, Fn *> fnOf;
static std::unordered_map<uint64_t, Function *> fnAddr;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;

static std::string locOf(const Instruction *I) {
  if (auto &dl = I->getDebugLoc()) {
    const DILocation *L = dl.get();
    std::string f = L->getFilename().str();
    auto p = f.rfind('/');
    if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(L->getLine());
  }
  return "?";
}
static std::string dem(const std::string &n) { std::string s = demangle(n); if (s.size() > 160) s = s.substr(0, 160) + "..."; return s; }
static std::string where() {
  for (int i = (int)FR.size() - 1; i >= 0; i--) {
    auto &f = FR[i];
    if (f.pc >= (int)f.fn->code.size()) continue;
    // prefer a location outside system headers
    const Instruction *I = f.fn->code[f.pc].I;
    if (auto &dl = I->getDebugLoc()) {
      for (const DILocation *L = dl.get(); L; L = L->getInlinedAt()) {
        std::string fn = L->getFilename().str(), dir = L->getDirectory().str();
        if (fn.find("INNC") != std::string::npos || dir.find("INNC") != std::string::npos) {
          auto p = fn.rfind("INNC/");
          return (p == std::string::npos ? fn : fn.substr(p)) + ":" + std::to_string(L->getLine());
        }
      }
    }
  }
  return FR.empty() ? "?" : dem(FR.back().fn->name);
}
static std::string backtrace() {
  std::string s;
  for (int i = (int)FR.size() - 1, n = 0; i >= 0 && n < 24; i--, n++) {
    auto &f = FR[i];
    s += dem(f.fn->name);
    if (f.pc < (int)f.fn->code.size()) s += " @" + locOf(f.fn->code[f.pc].I);
    s += "\n";
  }
  return s;
}

static int tw(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy() || t->isX86_FP80Ty()) return 64;
  return 0;
}

static RVal constVal(const Constant *c);
static void writeConst(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) return;
  if (isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    unsigned n = cd->getNumElements();
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < n; i++) writeConst(o, off + i * es, cd->getElementAsConstant(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  RVal v = constVal(c);
  uint64_t n = DL->getTypeStoreSize(t);
  if (t->isX86_FP80Ty()) n = 8;
  if (n > 8) { fprintf(stderr, "wide constant\n"); return; }
  storeObj(o, off, v, n);
}

static uint64_t addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto *a = dyn_cast<GlobalAlias>(g)) {
    uint64_t v = constVal(a->getAliasee()).c;
    gaddr[g] = v;
    return v;
  }
  if (auto *f = dyn_cast<Function>(g)) {
    uint64_t a = g_nextF;
    g_nextF += 64;
    gaddr[g] = a;
    fnAddr[a] = const_cast<Function *>(f);
    return a;
  }
  fprintf(stderr, "no address for %s\n", g->getName().str().c_str());
  abort();
}

static int64_t gepConst(const GEPOperator *g, bool &ok, std::vector<std::pair<const Value *, int64_t>> &var) {
  int64_t off = 0;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *idx = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      unsigned i = cast<ConstantInt>(idx)->getZExtValue();
      off += DL->getStructLayout(st)->getElementOffset(i);
    } else {
      int64_t sc = it.getSequentialElementStride(*DL);
      if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sc;
      else { ok = false; var.push_back({idx, sc}); }
    }
  }
  return off;
}

static RVal constVal(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) return RVal(ci->getValue().getRawData()[0]);
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (t->isX86_FP80Ty()) {
      APFloat f = cf->getValueAPF();
      bool li;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      return RVal(f.bitcastToAPInt().getZExtValue());
    }
    return RVal(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return RVal((uint64_t)0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (t->isStructTy() || t->isArrayTy()) {
      RVal r;
      r.agg = std::make_shared<std::vector<RVal>>();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        r.agg->push_back(constVal(Constant::getNullValue(et)));
      }
      return r;
    }
    return RVal((uint64_t)0);
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) return RVal(addrOf(g));
  if (auto *cs = dyn_cast<ConstantAggregate>(c)) {
    RVal r;
    r.agg = std::make_shared<std::vector<RVal>>();
    for (unsigned i = 0; i < cs->getNumOperands(); i++) r.agg->push_back(constVal(cs->getOperand(i)));
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      bool ok = true;
      std::vector<std::pair<const Value *, int64_t>> var;
      int64_t off = gepConst(cast<GEPOperator>(ce), ok, var);
      return RVal(constVal(ce->getOperand(0)).c + off);
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      return constVal(ce->getOperand(0));
    case Instruction::Trunc: return RVal(constVal(ce->getOperand(0)).c & maskw(tw(t)));
    case Instruction::Add: return RVal((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(tw(t)));
    case Instruction::Sub: return RVal((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(tw(t)));
    default: break;
    }
    std::string s; raw_string_ostream os(s); ce->print(os);
    fprintf(stderr, "constexpr: %s\n", s.c_str());
    abort();
  }
  if (isa<ConstantTokenNone>(c)) return RVal((uint64_t)0);
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "constant: %s\n", s.c_str());
  abort();
}

// ---------------------------------------------------------------- exceptions
struct Exc { uint64_t ti; int refs = 0; };
static std::map<uint64_t, Exc> g_exc;
static std::vector<uint64_t> g_caught;
static std::map<uint64_t, int> tiIds;
static int tiId(uint64_t ti) {
  if (ti == 0) return 1; // catch-all
  auto it = tiIds.find(ti);
  if (it != tiIds.end()) return it->second;
  int id = 2 + (int)tiIds.size();
  tiIds[ti] = id;
  return id;
}
static std::map<uint64_t, const GlobalVariable *> tiGlobal;
static const std::map<std::string, std::string> extBase = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
static std::map<std::string, uint64_t> synthTI;
static uint64_t tiByName(const std::string &n) {
  if (auto *g = M->getGlobalVariable(n, true)) return addrOf(g);
  auto it = synthTI.find(n);
  if (it != synthTI.end()) return it->second;
  Obj *o = mkObj(Rglob, g_nextG, 64, KGlobal, 16, 64, false);
  o->name = n; o->ext = true;
  synthTI[n] = o->base;
  return o->base;
}
static std::string tiName(uint64_t ti) {
  auto it = tiGlobal.find(ti);
  if (it != tiGlobal.end()) return it->second->getName().str();
  for (auto &p : synthTI) if (p.second == ti) return p.first;
  return "?";
}
// base classes with offsets
static void tiBases(uint64_t ti, std::vector<std::pair<uint64_t, int64_t>> &out) {
  std::string n = tiName(ti);
  auto it = tiGlobal.find(ti);
  if (it != tiGlobal.end() && it->second->hasInitializer()) {
    auto *cs = dyn_cast<ConstantStruct>(it->second->getInitializer());
    if (!cs) return;
    if (cs->getNumOperands() == 3) { out.push_back({constVal(cs->getOperand(2)).c, 0}); return; }
    if (cs->getNumOperands() >= 6) {
      for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
        int64_t fl = (int64_t)constVal(cs->getOperand(i + 1)).c;
        out.push_back({constVal(cs->getOperand(i)).c, fl >> 8});
      }
    }
    return;
  }
  auto b = extBase.find(n);
  if (b != extBase.end()) out.push_back({tiByName(b->second), 0});
}
static bool tiDerives(uint64_t t, uint64_t base, int64_t &off) {
  if (t == base || tiName(t) == tiName(base)) { off = 0; return true; }
  std::vector<std::pair<uint64_t, int64_t>> bs;
  tiBases(t, bs);
  for (auto &b : bs) { int64_t o; if (tiDerives(b.first, base, o)) { off = b.second + o; return true; } }
  return false;
}

static void takeEdge(Frame &f, const Edge &e);
static void popFrame() {
  Frame &f = FR.back();
  while (Rstack.size() > f.stackMark) {
    Obj *o = Rstack.back();
    if (g_c1 == o) g_c1 = nullptr;
    if (g_c2 == o) g_c2 = nullptr;
    delete o;
    Rstack.pop_back();
  }
  FR.pop_back();
}
static uint64_t g_unwExc;
static int g_unwSel;
static void unwind(uint64_t exc) {
  uint64_t ti = g_exc[exc].ti;
  while (!FR.empty()) {
    Frame &f = FR.back();
    DI &d = f.fn->code[f.pc];
    if (d.opc == Instruction::Invoke) {
      auto *inv = cast<InvokeInst>(d.I);
      auto *lp = inv->getLandingPadInst();
      int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        if (lp->isCatch(i)) {
          uint64_t ct = constVal(lp->getClause(i)).c;
          int64_t off;
          if (ct == 0) sel = tiId(0);
          else if (tiDerives(ti, ct, off)) sel = tiId(ct);
        } else {
          violation("terminate", "exception specification violated (" + dem(tiName(ti)) + ")");
        }
      }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        g_unwExc = exc;
        g_unwSel = sel;
        takeEdge(f, d.edges[1]);
        return;
      }
    }
    popFrame();
  }
  violation("uncaught", "uncaught exception of type " + demangle(tiName(ti).replace(0, 4, "_Z")));
}
static void throwStd(const char *tiname) {
  Obj *o = mkObj(Rheap, g_nextH, 64, KExc, 16, 4096, false);
  g_exc[o->base] = Exc{tiByName(tiname), 0};
  unwind(o->base);
}

// ---------------------------------------------------------------- externals
struct Call {
  const CallBase *I;
  std::vector<RVal> args;
  RVal ret;
  bool thrown = false;
  bool pushed = false;
};
typedef std::function<void(Call &)> Handler;
static std::vector<Handler> handlers;
static std::unordered_map<std::string, int> handlerIdx;
static void reg(const std::string &n, Handler h) { handlerIdx[n] = (int)handlers.size(); handlers.push_back(h); }

static std::string readCStr(uint64_t a, bool &sym) {
  std::string s;
  sym = false;
  for (int i = 0; i < 100000; i++) {
    RVal v = loadMem(RVal(a + i), 1);
    if (v.e) { sym = true; s += '?'; continue; }
    if (v.c == 0) break;
    s += (char)v.c;
  }
  return s;
}
static std::string cstr(const RVal &p) { bool s; return readCStr(conc(p), s); }

// std::string ABI: {ptr,len,union{cap,buf[16]}}
typedef std::vector<RVal> Bytes;
static Bytes lit(const std::string &s) { Bytes r; for (char c : s) r.push_back(RVal((uint64_t)(uint8_t)c)); return r; }
static void writeStdString(uint64_t a, const Bytes &s) {
  uint64_t p = a + 16;
  if (s.size() >= 16) {
    p = heapAlloc(s.size() + 1, KNew);
    storeMem(RVal(a + 16), RVal((uint64_t)s.size()), 8);
  }
  storeMem(RVal(a), RVal(p), 8);
  storeMem(RVal(a + 8), RVal((uint64_t)s.size()), 8);
  for (size_t i = 0; i <= s.size(); i++) storeMem(RVal(p + i), i < s.size() ? s[i] : RVal((uint64_t)0), 1);
}
static void writeStdString(uint64_t a, const std::string &s) { writeStdString(a, lit(s)); }
static Bytes readBytes(uint64_t p, uint64_t n) {
  Bytes s;
  for (uint64_t i = 0; i < n && i < 100000; i++) s.push_back(loadMem(RVal(p + i), 1));
  return s;
}
static Bytes readStdString(uint64_t a) { uint64_t n = conc(loadMem(RVal(a + 8), 8)); return readBytes(conc(loadMem(RVal(a), 8)), n); }

// String streams: the text is kept here, byte by byte (concrete or symbolic).  The
// object itself gets just what inlined code looks at: vbase offsets, the ios_base
// fields (precision, width, flags, state), and a "C" ctype for widen().
struct Stream {
  uint64_t ios;
  Bytes s;
  size_t pos = 0, wpos = 0;
  void put(RVal b) { if (wpos < s.size()) s[wpos] = b; else s.push_back(b); ++wpos; }
  void put(const Bytes &b) { for (auto &x : b) put(x); }
};
static std::map<uint64_t, Stream> g_streams;
static Stream *streamAt(uint64_t a) {
  auto it = g_streams.upper_bound(a);
  if (it == g_streams.begin()) return nullptr;
  --it;
  if (a < it->first + 400) return &it->second;
  return nullptr;
}
static uint64_t g_ctype = 0;
static std::map<uint64_t, uint64_t> g_vt;
static uint64_t vtFor(uint64_t off) {
  if (!g_vt[off]) {
    Obj *o = mkObj(Rglob, g_nextG, 64, KGlobal, 16, 64, false);
    setMem(o->base, RVal((uint64_t)0), 64);
    storeMem(RVal(o->base), RVal(off), 8);
    g_vt[off] = o->base + 24;
  }
  return g_vt[off];
}
// kind: 0 stringstream, 1 ostringstream, 2 istringstream
static void openStream(uint64_t a, int kind, const Bytes &text, bool atEnd) {
  uint64_t off = kind == 0 ? 128 : kind == 1 ? 112 : 120, io = a + off;
  if (!g_ctype) {
    Obj *o = mkObj(Rglob, g_nextG, 640, KGlobal, 16, 64, false);
    setMem(o->base, RVal((uint64_t)0), 640);
    storeMem(RVal(o->base + 56), RVal((uint64_t)1), 1);
    for (int i = 0; i < 256; i++) storeMem(RVal(o->base + 57 + i), RVal((uint64_t)i), 1);
    g_ctype = o->base;
  }
  storeMem(RVal(a), RVal(vtFor(off)), 8);
  if (kind == 0) storeMem(RVal(a + 16), RVal(vtFor(off - 16)), 8);
  setMem(io, RVal((uint64_t)0), 264);
  storeMem(RVal(io + 8), RVal((uint64_t)6), 8);
  storeMem(RVal(io + 24), RVal((uint64_t)0x1002), 4); // skipws | dec
  storeMem(RVal(io + 224), RVal((uint64_t)' '), 1);
  storeMem(RVal(io + 225), RVal((uint64_t)1), 1);
  storeMem(RVal(io + 232), RVal(a + (kind == 0 ? 24 : kind == 1 ? 8 : 16)), 8);
  storeMem(RVal(io + 240), RVal(g_ctype), 8);
  Stream st;
  st.ios = io;
  st.s = text;
  st.wpos = atEnd ? text.size() : 0;
  g_streams[a] = st;
}
static void streamPut(uint64_t a, const Bytes &s) {
  if (auto *p = streamAt(a)) {
    uint64_t w = conc(loadMem(RVal(p->ios + 16), 8));
    if (w > s.size()) {
      RVal fill = loadMem(RVal(p->ios + 224), 1);
      bool left = (conc(loadMem(RVal(p->ios + 24), 4)) & 0xb0) == 0x20;
      Bytes pad(w - s.size(), fill);
      if (!left) p->put(pad);
      p->put(s);
      if (left) p->put(pad);
    } else p->put(s);
    storeMem(RVal(p->ios + 16), RVal((uint64_t)0), 8);
  }
}
static void streamPut(uint64_t a, const std::string &s) { streamPut(a, lit(s)); }
static double asDouble(uint64_t c, int w);
static std::string fmtDouble(Stream *st, double d) {
  uint64_t fl = st ? conc(loadMem(RVal(st->ios + 24), 4)) : 0;
  int pr = st ? (int)conc(loadMem(RVal(st->ios + 8), 8)) : 6;
  char b[512];
  snprintf(b, sizeof b, (fl & 0x104) == 4 ? "%.*f" : (fl & 0x104) == 0x100 ? "%.*e" : "%.*g", pr, d);
  return b;
}

static double asDouble(uint64_t c, int w) {
  if (w == 32) { float f; uint32_t b = (uint32_t)c; memcpy(&f, &b, 4); return f; }
  double d; memcpy(&d, &c, 8); return d;
}
static uint64_t fromDouble(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static uint64_t fromFloat(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }

static std::string fmtPrintf(const std::string &fmt, const std::vector<RVal> &a, size_t k, const std::vector<int> &) {
  std::string out;
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out += fmt[i]; continue; }
    if (i + 1 < fmt.size() && fmt[i + 1] == '%') { out += '%'; i++; continue; }
    std::string spec = "%";
    size_t j = i + 1;
    int stars[2], ns = 0;
    while (j < fmt.size() && strchr("-+ #0123456789.*", fmt[j])) {
      if (fmt[j] == '*') { if (ns < 2 && k < a.size()) stars[ns++] = (int)conc(a[k++]); }
      spec += fmt[j++];
    }
    int L = 0;
    while (j < fmt.size() && strchr("hlzjtqL", fmt[j])) { if (fmt[j] == 'l' || fmt[j] == 'z' || fmt[j] == 'j' || fmt[j] == 't' || fmt[j] == 'q') L++; j++; }
    char cv = j < fmt.size() ? fmt[j] : 0;
    i = j;
    char buf[512];
    if (k >= a.size()) { out += "?"; continue; }
    const RVal &v = a[k++];
    if (v.e) { out += "?"; continue; }
    auto emit = [&](auto x) {
      if (ns == 0) snprintf(buf, sizeof buf, spec.c_str(), x);
      else if (ns == 1) snprintf(buf, sizeof buf, spec.c_str(), stars[0], x);
      else snprintf(buf, sizeof buf, spec.c_str(), stars[0], stars[1], x);
      out += buf;
    };
    switch (cv) {
    case 'd': case 'i': spec += "lld"; emit(L ? (long long)v.c : (long long)(int32_t)v.c); break;
    case 'u': spec += "llu"; emit(L ? (unsigned long long)v.c : (unsigned long long)(uint32_t)v.c); break;
    case 'x': case 'X': spec += "ll"; spec += cv; emit(L ? (unsigned long long)v.c : (unsigned long long)(uint32_t)v.c); break;
    case 'c': out += (char)v.c; break;
    case 's': out += cstr(v); break;
    case 'p': out += hex(v.c); break;
    case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': spec += cv; emit(asDouble(v.c, 64)); break;
    default: out += "?";
    }
  }
  return out;
}
static uint64_t putBuf(uint64_t buf, uint64_t size, const std::string &s) {
  if (size) {
    uint64_t n = std::min<uint64_t>(s.size(), size - 1);
    for (uint64_t i = 0; i < n; i++) storeMem(RVal(buf + i), RVal((uint64_t)(uint8_t)s[i]), 1);
    storeMem(RVal(buf + n), RVal((uint64_t)0), 1);
  }
  return s.size() & 0xffffffffu;
}
static uint64_t g_errno = 0;

static std::map<uint64_t, std::vector<RVal>> g_va;
static uint64_t g_seed = 1;

static bool g_symDecided = false;
static void doAssert(Call &c) {
  std::string msg = cstr(c.args[1]);
  g_as_total++; g_pathAsserts++;
  const RVal &v = c.args[0];
  bool sd = g_symDecided;
  g_symDecided = false;
  if (!v.e) {
    ++(sd ? g_as_proved : g_as_const);
    if (v.c == 0) violation("assert", msg);
    return;
  }
  Expr *ok = mkNot(mkCmp(Op::Eq, v.e, mkConst(0, v.e->w)));
  if (isTrue(ok)) { ++(sd ? g_as_proved : g_as_const); return; }
  if (isFalse(ok)) violation("assert", msg);
  Model m2 = g_model;
  Res r = query(mkNot(ok), m2);
  if (r == Res::Unsat) { g_as_proved++; PCset.insert(ok); return; }
  if (r == Res::Unknown) {
    g_as_unknown++;
    bump(SH->errs, 64, ("undecided: " + msg).c_str());
    addPC(ok);
    g_modelOk = false;
    return;
  }
  writeViolation("assert", msg, m2);
  checkDeadline();
  Model m3 = g_model;
  if (query(ok, m3) != Res::Sat) endPath(SH->paths_viol);
  addPC(ok);
  g_model = m3;
}

static void setupHandlers() {
  auto alloc = [](Kind k) { return [k](Call &c) {
    uint64_t n = conc(c.args[0]);
    uint64_t p = heapAlloc(n, k);
    if (!p && k != KMalloc) { c.thrown = true; throwStd("_ZTISt9bad_alloc"); return; }
    c.ret = RVal(p);
  }; };
  reg("malloc", alloc(KMalloc));
  reg("_Znwm", alloc(KNew));
  reg("_Znam", alloc(KNewArr));
  reg("_ZnwmSt11align_val_t", alloc(KNew));
  reg("_ZnamSt11align_val_t", alloc(KNewArr));
  reg("_ZnwmRKSt9nothrow_t", alloc(KNew));
  reg("_ZnamRKSt9nothrow_t", alloc(KNewArr));
  reg("calloc", [](Call &c) {
    uint64_t n = conc(c.args[0]) * conc(c.args[1]);
    uint64_t p = heapAlloc(n, KMalloc);
    if (p) setMem(p, RVal((uint64_t)0), n);
    c.ret = RVal(p);
  });
  auto fr = [](Kind k) { return [k](Call &c) { heapFree(conc(c.args[0]), k); }; };
  reg("free", fr(KMalloc));
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, fr(KNew));
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) reg(n, fr(KNewArr));
  auto cpy = [](Call &c) { uint64_t d = conc(c.args[0]), s = conc(c.args[1]), n = conc(c.args[2]); copyMem(d, s, n); c.ret = RVal(d); };
  reg("memcpy", cpy);
  reg("memmove", cpy);
  reg("memset", [](Call &c) { uint64_t d = conc(c.args[0]), n = conc(c.args[2]); setMem(d, c.args[1], n); c.ret = RVal(d); });
  auto cmp = [](Call &c) {
    uint64_t a = conc(c.args[0]), b = conc(c.args[1]), n = conc(c.args[2]);
    Expr *r = mkConst(0, 32);
    for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
      RVal x = loadMem(RVal(a + i), 1), y = loadMem(RVal(b + i), 1);
      Expr *ex = mkZExt(E(x, 8), 32), *ey = mkZExt(E(y, 8), 32);
      r = mkIte(mkCmp(Op::Eq, ex, ey), r, mkBin(Op::Sub, ex, ey));
    }
    c.ret = RVal(r);
  };
  reg("memcmp", cmp);
  reg("bcmp", cmp);
  reg("memchr", [](Call &c) {
    uint64_t a = conc(c.args[0]), n = conc(c.args[2]);
    Expr *ch = mkExtract(E(c.args[1], 32), 0, 8);
    Expr *r = mkConst(0, 64);
    for (int64_t i = (int64_t)n - 1; i >= 0; i--)
      r = mkIte(mkCmp(Op::Eq, E(loadMem(RVal(a + i), 1), 8), ch), mkConst(a + i, 64), r);
    c.ret = RVal(r);
  });
  reg("strlen", [](Call &c) {
    uint64_t a = conc(c.args[0]);
    for (uint64_t i = 0;; i++) {
      RVal v = loadMem(RVal(a + i), 1);
      bool z = v.e ? branch(mkCmp(Op::Eq, v.e, mkConst(0, 8))) : v.c == 0;
      if (z) { c.ret = RVal(i); return; }
    }
  });
  reg("strcmp", [](Call &c) {
    std::string x = cstr(c.args[0]), y = cstr(c.args[1]);
    int r = x < y ? -1 : x > y ? 1 : 0;
    c.ret = RVal((uint64_t)(uint32_t)r);
  });
  reg("__errno_location", [](Call &c) {
    if (!g_errno) { Obj *o = mkObj(Rglob, g_nextG, 4, KGlobal, 16, 64, false); g_errno = o->base; }
    c.ret = RVal(g_errno);
  });
  // ---- C++ runtime
  reg("__cxa_allocate_exception", [](Call &c) { Obj *o = mkObj(Rheap, g_nextH, conc(c.args[0]) + 32, KExc, 16, 4096, false); c.ret = RVal(o->base); });
  reg("__cxa_free_exception", [](Call &) {});
  reg("__cxa_throw", [](Call &c) { uint64_t p = conc(c.args[0]); g_exc[p] = Exc{conc(c.args[1]), 0}; c.thrown = true; unwind(p); });
  reg("__cxa_begin_catch", [](Call &c) { uint64_t p = conc(c.args[0]); g_caught.push_back(p); c.ret = RVal(p); });
  reg("__cxa_get_exception_ptr", [](Call &c) { c.ret = c.args[0]; });
  reg("__cxa_end_catch", [](Call &) { if (!g_caught.empty()) g_caught.pop_back(); });
  reg("__cxa_rethrow", [](Call &c) { if (g_caught.empty()) violation("terminate", "rethrow without exception"); uint64_t p = g_caught.back(); c.thrown = true; unwind(p); });
  reg("_Unwind_Resume", [](Call &c) { c.thrown = true; unwind(conc(c.args[0])); });
  reg("__cxa_pure_virtual", [](Call &) { violation("abort", "pure virtual call"); });
  reg("__cxa_atexit", [](Call &c) { c.ret = RVal((uint64_t)0); });
  reg("__cxa_guard_acquire", [](Call &c) {
    uint64_t g = conc(c.args[0]); RVal v = loadMem(RVal(g), 1);
    c.ret = RVal((uint64_t)(conc(v) ? 0 : 1)); });
  reg("__cxa_guard_release", [](Call &c) { storeMem(RVal(conc(c.args[0])), RVal((uint64_t)1), 1); });
  reg("__cxa_guard_abort", [](Call &) {});
  reg("__dynamic_cast", [](Call &c) {
    uint64_t p = conc(c.args[0]), dst = conc(c.args[2]);
    if (!p) { c.ret = RVal((uint64_t)0); return; }
    uint64_t vp = conc(loadMem(RVal(p), 8));
    uint64_t ti = conc(loadMem(RVal(vp - 8), 8));
    int64_t top = (int64_t)conc(loadMem(RVal(vp - 16), 8));
    int64_t off;
    if (tiDerives(ti, dst, off)) c.ret = RVal(p + top + off); else c.ret = RVal((uint64_t)0);
  });
  reg("__cxa_bad_cast", [](Call &c) { c.thrown = true; throwStd("_ZTISt8bad_cast"); });
  reg("__cxa_bad_typeid", [](Call &c) { c.thrown = true; throwStd("_ZTISt10bad_typeid"); });
  reg("_ZSt9terminatev", [](Call &) { violation("terminate", "std::terminate called"); });
  reg("abort", [](Call &) { violation("abort", "abort called"); });
  reg("__assert_fail", [](Call &c) { violation("abort", "assertion failed: " + cstr(c.args[0])); });
  reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](Call &c) { violation("abort", "libstdc++ assertion failed: " + cstr(c.args[3])); });
  for (auto p : std::vector<std::pair<const char *, const char *>>{
           {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
           {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
           {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
           {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"},
           {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
           {"_ZSt20__throw_bad_weak_ptrv", "_ZTISt12bad_weak_ptr"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}, {"_ZSt22__throw_overflow_errorPKc", "_ZTISt14overflow_error"}}) {
    std::string t = p.second;
    reg(p.first, [t](Call &c) { c.thrown = true; throwStd(t.c_str()); });
  }
  auto nop = [](Call &) {};
  auto ret0 = [](Call &c) { if (!c.args.empty()) c.ret = c.args[0]; };
  for (auto cls : {"13runtime_error", "11logic_error", "16invalid_argument", "12out_of_range", "12length_error", "12domain_error", "11range_error", "14overflow_error"}) {
    std::string b = std::string("_ZNSt") + cls;
    for (auto s : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "D1Ev", "D2Ev", "C1ERKS_", "C2ERKS_", "C1EOS_", "C2EOS_"}) reg(b + s, nop);
  }
  reg("_ZNSt9exceptionD2Ev", nop); reg("_ZNSt9exceptionD1Ev", nop);
  reg("_ZNSt12bad_weak_ptrD1Ev", nop); reg("_ZNSt12bad_weak_ptrD2Ev", nop); reg("_ZNSt9bad_allocD1Ev", nop);
  reg("_ZNSt8ios_base4InitC1Ev", nop); reg("_ZNSt8ios_base4InitD1Ev", nop);
  // ---- randomness
  reg("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", nop);
  reg("_ZNSt13random_device7_M_finiEv", nop);
  reg("_ZNSt13random_device9_M_getvalEv", [](Call &c) { c.ret = RVal(g_seed * 2654435761u & 0xffffffffu); });
  // a draw from a normal distribution: any finite number, different from the earlier draws
  // (doubles: representable as float, so that draws stay different when converted);
  // from the 25th draw on fixed numbers, the earlier ones are then small
  for (int w : {32, 64}) reg(w == 32 ? "draw32" : "draw64", [w](Call &c) {
    auto &D = g_draws[w == 64];
    auto mag = [w](Expr *x) { return mkBin(Op::And, x, mkConst(maskw(w) >> 1, w)); };
    auto bits = [w](double x) { return w == 64 ? fromDouble(x) : fromFloat((float)x); };
    const size_t MAX = 24;
    if (D.size() >= MAX) {
      if (D.size() == MAX)
        for (auto *o : D) addPC(mkCmp(Op::Ult, mag(o), mkConst(bits(1000.0), w)));
      Expr *k = mkConst(bits(1000.0 + D.size()), w);
      D.push_back(k);
      c.ret = RVal(bits(999.0 + D.size()));
      return;
    }
    Expr *s = mkSym("draw" + std::to_string(D.size()), w, w >= 64 ? INT64_MIN : INT32_MIN, w >= 64 ? INT64_MAX : INT32_MAX);
    if (w == 32) addPC(mkCmp(Op::Ult, mag(s), mkConst(0x7f800000ull, w)));
    else {
      addPC(mkCmp(Op::Eq, mkBin(Op::And, s, mkConst(0x1fffffffull, w)), mkConst(0, w)));
      addPC(mkCmp(Op::Ult, mag(s), mkConst(0x47e0000000000000ull, w)));
      addPC(mkCmp(Op::Ult, mkConst(0x3810000000000000ull, w), mag(s)));
    }
    for (auto *o : D) addPC(mkNot(mkCmp(Op::Eq, mag(s), mag(o))));
    D.push_back(s);
    g_modelOk = false;
    c.ret = RVal(s);
  });
  // ---- math (concrete arguments)
#define MATH1(N, FN) reg(N, [](Call &c) { if (c.args[0].e) unsupported(std::string("symbolic argument of ") + N); c.ret = RVal(fromDouble(FN(asDouble(c.args[0].c, 64)))); }); \
                     reg(std::string(N) + "l", [](Call &c) { if (c.args[0].e) unsupported(std::string("symbolic argument of ") + N); c.ret = RVal(fromDouble(FN(asDouble(c.args[0].c, 64)))); }); \
                     reg(std::string(N) + "f", [](Call &c) { if (c.args[0].e) unsupported(std::string("symbolic argument of ") + N); c.ret = RVal(fromFloat(FN((float)asDouble(c.args[0].c, 32)))); });
  MATH1("log", std::log) MATH1("exp", std::exp) MATH1("cos", std::cos) MATH1("sin", std::sin) MATH1("floor", std::floor) MATH1("ceil", std::ceil) MATH1("log2", std::log2) MATH1("round", std::round)
  reg("sqrt", [](Call &c) { c.ret = c.args[0].e ? RVal(mkF1(Op::FSqrt, c.args[0].e)) : RVal(evalF1(Op::FSqrt, c.args[0].c, 64)); });
  reg("sqrtf", [](Call &c) { c.ret = c.args[0].e ? RVal(mkF1(Op::FSqrt, c.args[0].e)) : RVal(evalF1(Op::FSqrt, c.args[0].c, 32)); });
  reg("nextafter", [](Call &c) { c.ret = RVal(fromDouble(std::nextafter(asDouble(conc(c.args[0]), 64), asDouble(conc(c.args[1]), 64)))); });
  reg("nextafterf", [](Call &c) { c.ret = RVal(fromFloat(std::nextafter((float)asDouble(conc(c.args[0]), 32), (float)asDouble(conc(c.args[1]), 32)))); });
  reg("pow", [](Call &c) { if (c.args[0].e || c.args[1].e) unsupported("pow"); c.ret = RVal(fromDouble(std::pow(asDouble(c.args[0].c, 64), asDouble(c.args[1].c, 64)))); });
  // ---- formatting
  reg("snprintf", [](Call &c) { uint64_t b = conc(c.args[0]), n = conc(c.args[1]); c.ret = RVal(putBuf(b, n, fmtPrintf(cstr(c.args[2]), c.args, 3, {}))); });
  reg("vsnprintf", [](Call &c) {
    uint64_t b = conc(c.args[0]), n = conc(c.args[1]), va = conc(c.args[3]);
    // a by-value __va_list_tag array decays to the address given to va_start, or a copy
    uint64_t key = conc(loadMem(RVal(va + 8), 8));
    c.ret = RVal(putBuf(b, n, fmtPrintf(cstr(c.args[2]), g_va[key], 0, {})));
  });
  reg("printf", [](Call &c) { c.ret = RVal((uint64_t)0); });
  reg("puts", [](Call &c) { c.ret = RVal((uint64_t)0); });
  reg("putchar", [](Call &c) { c.ret = RVal((uint64_t)0); });
  reg("fprintf", [](Call &c) { c.ret = RVal((uint64_t)0); });
  // ---- iostreams
  {
    struct K { const char *n; int k; };
    for (auto k : {K{"18basic_stringstream", 0}, K{"19basic_ostringstream", 1}, K{"19basic_istringstream", 2}}) {
      std::string t = std::string("St7__cxx11") + k.n + "IcSt11char_traitsIcESaIcEE";
      int kind = k.k;
      for (auto x : {"C1Ev", "C1ESt13_Ios_Openmode", "C2Ev"})
        reg("_ZN" + t + x, [kind](Call &c) { openStream(conc(c.args[0]), kind, {}, false); });
      for (auto x : {"C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", "C1EONS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"})
        reg("_ZN" + t + x, [kind](Call &c) {
          uint64_t m = c.args.size() > 2 ? conc(c.args[2]) : 0;
          openStream(conc(c.args[0]), kind, readStdString(conc(c.args[1])), m & 3); });
      for (auto x : {"D1Ev", "D2Ev"})
        reg("_ZN" + t + x, [](Call &c) { g_streams.erase(conc(c.args[0])); });
      for (auto x : {"_ZNKR", "_ZNK", "_ZNO"})
        reg(x + t + "3strEv", [](Call &c) { Stream *st = streamAt(conc(c.args[1])); writeStdString(conc(c.args[0]), st ? st->s : Bytes()); });
      reg("_ZN" + t + "3strERKNS_12basic_stringIcS2_S3_EE", [](Call &c) { if (Stream *st = streamAt(conc(c.args[0]))) { st->s = readStdString(conc(c.args[1])); st->pos = st->wpos = 0; } });
    }
  }
  for (auto n : {"_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"}) reg(n, [](Call &c) {
    Stream *st = streamAt(conc(c.args[0]));
    if (!st) unsupported("getline from a stream that is not a string stream");
    uint64_t str = conc(c.args[1]), state = conc(loadMem(RVal(st->ios + 32), 4));
    c.ret = c.args[0];
    if (state) { storeMem(RVal(st->ios + 32), RVal(state | 4), 4); return; }
    Bytes r;
    bool got = false;
    for (;;) {
      if (st->pos >= st->s.size()) { state |= 2 | (got ? 0 : 4); break; }
      RVal v = st->s[st->pos++];
      got = true;
      Expr *eq = mkCmp(Op::Eq, E(v, 8), c.args.size() > 2 ? mkExtract(E(c.args[2], 8), 0, 8) : mkConst(10, 8));
      if (isTrue(eq) || (!isFalse(eq) && branch(eq))) break;
      r.push_back(v);
    }
    uint64_t old = conc(loadMem(RVal(str), 8));
    if (old != str + 16) heapFree(old, KNew);
    writeStdString(str, r);
    storeMem(RVal(st->ios + 32), RVal(state), 4);
  });
  for (auto n : {"_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate"})
    reg(n, [](Call &c) { if (Stream *st = streamAt(conc(c.args[0]))) storeMem(RVal(st->ios + 32), c.args[1], 4); });
  auto state = [](const std::string &n, uint64_t mask, bool neg) {
    reg(n, [mask, neg](Call &c) { Stream *st = streamAt(conc(c.args[0])); uint64_t v = st ? conc(loadMem(RVal(st->ios + 32), 4)) : 0; c.ret = RVal((uint64_t)(((v & mask) != 0) != neg)); });
  };
  state("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv", 5, true);
  state("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv", 5, false);
  state("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv", 5, false);
  state("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv", 7, true);
  state("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv", 2, false);
  reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", [](Call &c) { uint64_t p = conc(c.args[1]); streamPut(conc(c.args[0]), readBytes(p, cstr(c.args[1]).size())); c.ret = c.args[0]; });
  reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", [](Call &c) { streamPut(conc(c.args[0]), Bytes{c.args[1].e ? RVal(mkExtract(c.args[1].e, 0, 8)) : RVal(c.args[1].c & 255)}); c.ret = c.args[0]; });
  reg("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", [](Call &c) { streamPut(conc(c.args[0]), readStdString(conc(c.args[1]))); c.ret = c.args[0]; });
  for (auto n : {"_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "_ZNSo5writeEPKcl"})
    reg(n, [](Call &c) { uint64_t p = conc(c.args[1]), n = conc(c.args[2]); streamPut(conc(c.args[0]), readBytes(p, n)); c.ret = c.args[0]; });
  reg("_ZNSo3putEc", [](Call &c) { if (Stream *st = streamAt(conc(c.args[0]))) st->put(c.args[1].e ? RVal(mkExtract(c.args[1].e, 0, 8)) : RVal(c.args[1].c & 255)); c.ret = c.args[0]; });
  auto ins = [](const std::string &n, std::function<std::string(Stream *, uint64_t)> f) {
    reg(n, [f](Call &c) {
      uint64_t a = conc(c.args[0]);
      Stream *st = streamAt(a);
      if (st && !c.args[1].e) streamPut(a, f(st, c.args[1].c));
      else if (st) streamPut(a, Bytes{g_opaque ? RVal((uint64_t)'?') : RVal(mkSym("text", 8, -128, 127))}); // content not modelled: any character
      c.ret = c.args[0];
    });
  };
  ins("_ZNSolsEi", [](Stream *, uint64_t v) { return std::to_string((int32_t)v); });
  ins("_ZNSolsEj", [](Stream *, uint64_t v) { return std::to_string((uint32_t)v); });
  ins("_ZNSolsEs", [](Stream *, uint64_t v) { return std::to_string((int16_t)v); });
  ins("_ZNSolsEt", [](Stream *, uint64_t v) { return std::to_string((uint16_t)v); });
  for (auto n : {"_ZNSolsEl", "_ZNSolsEx", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIxEERSoT_"}) ins(n, [](Stream *, uint64_t v) { return std::to_string((int64_t)v); });
  for (auto n : {"_ZNSolsEm", "_ZNSolsEy", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIyEERSoT_"}) ins(n, [](Stream *, uint64_t v) { return std::to_string(v); });
  for (auto n : {"_ZNSolsEb", "_ZNSo9_M_insertIbEERSoT_"}) ins(n, [](Stream *, uint64_t v) { return std::to_string(v & 1); });
  for (auto n : {"_ZNSolsEd", "_ZNSo9_M_insertIdEERSoT_"}) ins(n, [](Stream *st, uint64_t v) { return fmtDouble(st, asDouble(v, 64)); });
  ins("_ZNSolsEf", [](Stream *st, uint64_t v) { return fmtDouble(st, asDouble(v, 32)); });
  for (auto n : {"_ZNSolsEPKv", "_ZNSo9_M_insertIPKvEERSoT_"}) ins(n, [](Stream *, uint64_t v) { return hex(v); });
  reg("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision", [](Call &c) { if (Stream *st = streamAt(conc(c.args[0]))) storeMem(RVal(st->ios + 8), RVal((uint64_t)(int32_t)conc(c.args[1])), 8); c.ret = c.args[0]; });
  reg("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw", [](Call &c) { if (Stream *st = streamAt(conc(c.args[0]))) storeMem(RVal(st->ios + 16), RVal((uint64_t)(int32_t)conc(c.args[1])), 8); c.ret = c.args[0]; });
  reg("_ZNSo5flushEv", ret0);
  reg("_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", ret0);
  reg("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", [](Call &c) { if (Stream *st = streamAt(conc(c.args[0]))) st->put(RVal((uint64_t)10)); c.ret = c.args[0]; });
  // ---- verification intrinsics
  reg("sym_range", [](Call &c) {
    int64_t lo = (int64_t)conc(c.args[0]), hi = (int64_t)conc(c.args[1]);
    std::string n = cstr(c.args[2]);
    if (lo >= hi) { g_inputs.push_back(Input{n, nullptr, (uint64_t)lo, 64}); c.ret = RVal((uint64_t)lo); return; }
    int w = 8;
    while (w < 64 && (lo < -(1ll << (w - 1)) || hi > (1ll << (w - 1)) - 1)) w *= 2;
    Expr *s = mkSym(n, w, lo, hi);
    if (g_model.v.size() < g_syms.size()) g_model.v.resize(g_syms.size(), 0);
    if (lo > 0 || hi < 0) g_model.v[s->c] = (uint64_t)lo & maskw(w);
    g_inputs.push_back(Input{n, s, 0, w});
    c.ret = RVal(mkSExt(s, 64));
  });
  reg("sym_bits", [](Call &c) {
    int w = (int)conc(c.args[0]);
    std::string n = cstr(c.args[1]);
    Expr *s = mkSym(n, w, w >= 64 ? INT64_MIN : -(1ll << (w - 1)), w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1);
    g_inputs.push_back(Input{n, s, 0, w});
    c.ret = RVal(mkSExt(s, 64));
  });
  reg("sym_choice", [](Call &c) {
    int64_t n = (int64_t)conc(c.args[0]);
    std::string nm = cstr(c.args[1]);
    int64_t v = n - 1;
    for (int64_t i = 0; i < n - 1; i++) if (forkPath()) { v = i; break; }
    g_inputs.push_back(Input{nm, nullptr, (uint64_t)v, 64});
    c.ret = RVal((uint64_t)v);
  });
  reg("sym_concrete", [](Call &c) { c.ret = RVal(conc(c.args[0])); });
  reg("sym_assume", [](Call &c) {
    RVal v = c.args[0];
    if (!v.e) { if (!v.c) endPath(SH->paths_assume); return; }
    Expr *ok = mkNot(mkCmp(Op::Eq, v.e, mkConst(0, v.e->w)));
    if (isTrue(ok)) return;
    if (isFalse(ok)) endPath(SH->paths_assume);
    if (g_modelOk && modelEval(ok)) { addPC(ok); return; }
    Model m = g_model;
    Res r = query(ok, m);
    if (r == Res::Unsat) endPath(SH->paths_assume);
    addPC(ok);
    if (r == Res::Sat) { g_model = m; g_modelOk = true; } else g_modelOk = false;
  });
  reg("sym_assert", doAssert);
  reg("sym_cover", [](Call &c) { bump(SH->cover, 128, cstr(c.args[0]).c_str()); });
  reg("sym_heap_live", [](Call &c) { c.ret = RVal(g_liveHeap); });
  reg("sym_opaque_text", [](Call &c) { g_opaque = conc(c.args[0]) & 1; });
  reg("sym_trace", [](Call &c) { if (getenv("SYM_DEBUG")) fprintf(stderr, "[trace] %s\n", cstr(c.args[0]).c_str()); });
  reg("sym_show", [](Call &c) { if (getenv("SYM_DEBUG")) fprintf(stderr, "[show] %s = %s\n", cstr(c.args[1]).c_str(), c.args[0].e ? show(c.args[0].e, 10).c_str() : std::to_string((int64_t)c.args[0].c).c_str()); });
}

// ---------------------------------------------------------------- decode
static std::unordered_map<const Function *, int> fnIdx;
static Fn *getFn(Function *F) {
  auto it = fnOf.find(F);
  if (it != fnOf.end()) return it->second;
  Fn *f = new Fn;
  f->F = F;
  f->name = F->getName().str();
  f->id = fnIdx[F];
  f->toString = f->name.rfind("_ZNSt7__cxx119to_stringE", 0) == 0 && F->arg_size() == 2;
  fnOf[F] = f;
  return f;
}
static int extFor(Function *F) {
  auto it = handlerIdx.find(F->getName().str());
  if (it != handlerIdx.end()) return it->second;
  if (F->getName().starts_with("_ZNSt19normal_distributionIfEcl")) return handlerIdx["draw32"];
  if (F->getName().starts_with("_ZNSt19normal_distributionIdEcl")) return handlerIdx["draw64"];
  return -2;
}
static void decode(Fn *fn) {
  if (fn->decoded) return;
  fn->decoded = true;
  Function *F = fn->F;
  DenseMap<const Value *, int> slot;
  int ns = 0;
  for (auto &a : F->args()) slot[&a] = ns++;
  fn->nargs = ns;
  for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = ns++;
  fn->nslots = ns;
  auto op = [&](const Value *v) {
    Opnd o;
    if (auto *c = dyn_cast<Constant>(v)) o.c = constVal(c);
    else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) o.c = RVal((uint64_t)0);
    else o.slot = slot[v];
    return o;
  };
  DenseMap<const BasicBlock *, int> start;
  int n = 0;
  auto skip = [&](const Instruction &i) {
    if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) return true;
    if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
      switch (ii->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: return !isa<InvokeInst>(i);
      default: break;
      }
    }
    return false;
  };
  for (auto &b : *F) {
    start[&b] = n;
    for (auto &i : b) if (!skip(i)) n++;
  }
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.target = start[to];
    for (auto &p : to->phis()) e.phis.push_back({slot[&p], op(p.getIncomingValueForBlock(from))});
    return e;
  };
  fn->code.reserve(n);
  for (auto &b : *F)
    for (auto &i : b) {
      if (skip(i)) continue;
      DI d;
      d.I = &i;
      d.opc = i.getOpcode();
      if (!i.getType()->isVoidTy()) d.dest = slot[&i];
      d.ty = i.getType();
      d.w = tw(i.getType());
      switch (d.opc) {
      case Instruction::Br: {
        auto *br = cast<BranchInst>(&i);
        if (br->isConditional()) d.ops.push_back(op(br->getCondition()));
        for (unsigned k = 0; k < br->getNumSuccessors(); k++) d.edges.push_back(edge(&b, br->getSuccessor(k)));
        break;
      }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(&i);
        d.ops.push_back(op(sw->getCondition()));
        d.w = tw(sw->getCondition()->getType());
        d.edges.push_back(edge(&b, sw->getDefaultDest()));
        for (auto &c : sw->cases()) {
          Opnd o; o.c = RVal(c.getCaseValue()->getZExtValue());
          d.ops.push_back(o);
          d.edges.push_back(edge(&b, c.getCaseSuccessor()));
        }
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(&i);
        for (auto &a : cb->args()) d.ops.push_back(op(a));
        if (auto *inv = dyn_cast<InvokeInst>(&i)) {
          d.edges.push_back(edge(&b, inv->getNormalDest()));
          d.edges.push_back(edge(&b, inv->getUnwindDest()));
        }
        const Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) {
          if (cf->isIntrinsic()) d.intr = cf->getIntrinsicID();
          else {
            d.ext = extFor(const_cast<Function *>(cf));
            if (cf->isDeclaration() || d.ext >= 0) { if (d.ext < 0) d.ext = -3; }
            else d.callee = getFn(const_cast<Function *>(cf));
          }
        } else d.ops.push_back(op(cb->getCalledOperand())); // indirect: last operand
        break;
      }
      case Instruction::GetElementPtr: {
        auto *g = cast<GEPOperator>(&i);
        bool ok = true;
        std::vector<std::pair<const Value *, int64_t>> var;
        d.gconst = gepConst(g, ok, var);
        d.ops.push_back(op(g->getPointerOperand()));
        for (auto &p : var) {
          d.gidx.push_back({(int)d.ops.size(), p.second});
          d.ops.push_back(op(p.first));
          d.w2 = tw(p.first->getType());
        }
        break;
      }
      case Instruction::Load: d.ops.push_back(op(i.getOperand(0))); d.bytes = (int)DL->getTypeStoreSize(i.getType()); break;
      case Instruction::Store: d.ops.push_back(op(i.getOperand(0))); d.ops.push_back(op(i.getOperand(1))); d.ty = i.getOperand(0)->getType(); d.w = tw(d.ty); d.bytes = (int)DL->getTypeStoreSize(d.ty); break;
      case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(&i);
        d.ops.push_back(op(a->getArraySize()));
        d.gconst = DL->getTypeAllocSize(a->getAllocatedType());
        break;
      }
      default:
        for (auto &o : i.operands()) d.ops.push_back(op(o.get()));
        if (i.getNumOperands()) d.w2 = tw(i.getOperand(0)->getType());
      }
      fn->code.push_back(std::move(d));
    }
}

// ---------------------------------------------------------------- interpreter
static inline const RVal &get(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.regs[o.slot] : o.c; }

static void takeEdge(Frame &f, const Edge &e) {
  size_t n = e.phis.size();
  if (n == 1) f.regs[e.phis[0].first] = get(f, e.phis[0].second);
  else if (n) {
    static std::vector<RVal> tmp;
    tmp.clear();
    for (auto &p : e.phis) tmp.push_back(get(f, p.second));
    for (size_t i = 0; i < n; i++) f.regs[e.phis[i].first] = std::move(tmp[i]);
  }
  f.pc = e.target;
}

static void pushFrame(Fn *fn, std::vector<RVal> &args, int retDest) {
  decode(fn);
  SH->fn[fn->id & 0xffff].store(1, std::memory_order_relaxed);
  if (FR.size() > 20000) violation("abort", "call stack deeper than 20000 frames (unbounded recursion)");
  FR.emplace_back();
  Frame &f = FR.back();
  f.fn = fn;
  f.pc = 0;
  f.regs.resize(fn->nslots);
  for (int i = 0; i < fn->nargs && i < (int)args.size(); i++) f.regs[i] = args[i];
  for (size_t i = fn->nargs; i < args.size(); i++) f.va.push_back(args[i]);
  f.stackMark = Rstack.size();
  f.retDest = retDest;
}

static RVal loadTyped(const RVal &a, Type *t);
static void storeTyped(const RVal &a, const RVal &v, Type *t);
static RVal addOff(const RVal &a, int64_t o) { return a.e ? RVal(mkBin(Op::Add, a.e, mkConst((uint64_t)o, 64))) : RVal(a.c + o); }
static RVal loadTyped(const RVal &a, Type *t) {
  if (t->isStructTy()) {
    RVal r; r.agg = std::make_shared<std::vector<RVal>>();
    auto *sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++) r.agg->push_back(loadTyped(addOff(a, sl->getElementOffset(i)), t->getStructElementType(i)));
    return r;
  }
  if (t->isArrayTy()) {
    RVal r; r.agg = std::make_shared<std::vector<RVal>>();
    uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) r.agg->push_back(loadTyped(addOff(a, i * es), t->getArrayElementType()));
    return r;
  }
  int w = tw(t);
  if (!w || w > 64) unsupported("load of wide/vector type");
  int n = (w + 7) / 8;
  RVal v = loadMem(a, n);
  if (w % 8) { if (v.e) v = RVal(mkExtract(v.e, 0, w)); else v.c &= maskw(w); }
  return v;
}
static void storeTyped(const RVal &a, const RVal &v, Type *t) {
  if (t->isStructTy()) {
    auto *sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++) storeTyped(addOff(a, sl->getElementOffset(i)), (*v.agg)[i], t->getStructElementType(i));
    return;
  }
  if (t->isArrayTy()) {
    uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeTyped(addOff(a, i * es), (*v.agg)[i], t->getArrayElementType());
    return;
  }
  int w = tw(t);
  if (!w || w > 64) unsupported("store of wide/vector type");
  int n = (w + 7) / 8;
  RVal x = v;
  if (w % 8 && x.e) x = RVal(mkZExt(x.e, n * 8));
  storeMem(a, x, n);
}

// Division is the expensive operation for the solver.  Where the path condition
// confines both operands to few bits (which their own terms do not show), divide in
// that width: equal on this path, hence on all its continuations.
static void narrowDiv(RVal &a, RVal &b, int w, bool uns) {
  if (w < 32) return;
  auto wide = [&](const RVal &v) {
    int64_t lo = v.e ? v.e->lo : sextw(v.c, w), hi = v.e ? v.e->hi : sextw(v.c, w);
    return (uns && lo < 0) || lo < -(1ll << 16) || hi >= (1ll << 16);
  };
  if (!wide(a) && !wide(b)) return;
  Expr *x = E(a, w), *y = E(b, w);
  for (int n : {12, 31}) {
    auto fits = [&](Expr *v) {
      Expr *lo = mkConst(uns ? 0 : (uint64_t)-(1ll << (n - 1)) & maskw(w), w), *hi = mkConst(1ull << (uns ? n : n - 1), w);
      return mkAnd1(mkNot(mkCmp(Op::Slt, v, lo)), mkCmp(Op::Slt, v, hi));
    };
    Expr *ok = mkAnd1(fits(x), fits(y));
    if (isFalse(ok)) continue;
    if (!isTrue(ok)) {
      if (g_modelOk && !modelEval(ok)) continue;
      Model m = g_model;
      if (query(mkNot(ok), m) != Res::Unsat) continue;
    }
    auto cut = [&](RVal &v, Expr *e) { if (v.e) v = RVal(uns ? mkZExt(mkExtract(e, 0, n), w) : mkSExt(mkExtract(e, 0, n), w)); };
    cut(a, x);
    cut(b, y);
    return;
  }
}
static Op binop(unsigned o) {
  switch (o) {
  case Instruction::Add: return Op::Add; case Instruction::Sub: return Op::Sub; case Instruction::Mul: return Op::Mul;
  case Instruction::UDiv: return Op::UDiv; case Instruction::SDiv: return Op::SDiv; case Instruction::URem: return Op::URem; case Instruction::SRem: return Op::SRem;
  case Instruction::And: return Op::And; case Instruction::Or: return Op::Or; case Instruction::Xor: return Op::Xor;
  case Instruction::Shl: return Op::Shl; case Instruction::LShr: return Op::LShr; case Instruction::AShr: return Op::AShr;
  case Instruction::FAdd: return Op::FAdd; case Instruction::FSub: return Op::FSub; case Instruction::FMul: return Op::FMul; case Instruction::FDiv: return Op::FDiv;
  default: abort();
  }
}
static RVal doBin(Op o, const RVal &a, const RVal &b, int w) {
  if (!a.e && !b.e) return RVal(evalBin(o, a.c, b.c, w));
  return RVal(mkBin(o, E(a, w), E(b, w)));
}
// The term rewriter decided a comparison of symbolic terms: have the solver
// confirm it (once per pair of terms).
static void confirm(Op o, Expr *a, Expr *b, Expr *r) {
  if (!isConst(r) || (isConst(a) && isConst(b))) return;
  static std::set<std::tuple<int, Expr *, Expr *>> seen;
  g_symDecided = true;
  if (!seen.insert({(int)o, a, b}).second) return;
  if (dischargeCmp(o, a, b, r->c) == Res::Sat) {
    bump(SH->errs, 64, "term rewriting contradicted by the solver");
    endPath(SH->paths_unsup);
  }
}
static RVal doICmp(CmpInst::Predicate p, const RVal &a, const RVal &b, int w) {
  Op o; bool sw = false, neg = false;
  switch (p) {
  case CmpInst::ICMP_EQ: o = Op::Eq; break;
  case CmpInst::ICMP_NE: o = Op::Eq; neg = true; break;
  case CmpInst::ICMP_UGT: o = Op::Ult; sw = true; break;
  case CmpInst::ICMP_UGE: o = Op::Ule; sw = true; break;
  case CmpInst::ICMP_ULT: o = Op::Ult; break;
  case CmpInst::ICMP_ULE: o = Op::Ule; break;
  case CmpInst::ICMP_SGT: o = Op::Slt; sw = true; break;
  case CmpInst::ICMP_SGE: o = Op::Sle; sw = true; break;
  case CmpInst::ICMP_SLT: o = Op::Slt; break;
  case CmpInst::ICMP_SLE: o = Op::Sle; break;
  default: abort();
  }
  const RVal &x = sw ? b : a, &y = sw ? a : b;
  if (!x.e && !y.e) return RVal((uint64_t)(evalCmp(o, x.c, y.c, w) != neg));
  Expr *r = mkCmp(o, E(x, w), E(y, w));
  confirm(o, E(x, w), E(y, w), r);
  return RVal(neg ? mkNot(r) : r);
}
static RVal doFCmp(CmpInst::Predicate p, const RVal &a, const RVal &b, int w) {
  auto F = [&](Op o, bool sw) {
    Expr *x = sw ? E(b, w) : E(a, w), *y = sw ? E(a, w) : E(b, w);
    Expr *r = mkFCmp(o, x, y);
    confirm(o, x, y, r);
    return r;
  };
  Expr *r;
  switch (p) {
  case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break;
  case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
  case CmpInst::FCMP_OEQ: r = F(Op::FOeq, false); break;
  case CmpInst::FCMP_OGT: r = F(Op::FOlt, true); break;
  case CmpInst::FCMP_OGE: r = F(Op::FOle, true); break;
  case CmpInst::FCMP_OLT: r = F(Op::FOlt, false); break;
  case CmpInst::FCMP_OLE: r = F(Op::FOle, false); break;
  case CmpInst::FCMP_UNE: r = mkNot(F(Op::FOeq, false)); break;
  case CmpInst::FCMP_ORD: r = mkNot(F(Op::FUno, false)); break;
  case CmpInst::FCMP_UNO: r = F(Op::FUno, false); break;
  case CmpInst::FCMP_ONE: r = mkAnd1(mkNot(F(Op::FOeq, false)), mkNot(F(Op::FUno, false))); break;
  case CmpInst::FCMP_UEQ: r = mkOr1(F(Op::FOeq, false), F(Op::FUno, false)); break;
  case CmpInst::FCMP_UGT: r = mkNot(F(Op::FOle, false)); break;
  case CmpInst::FCMP_UGE: r = mkNot(F(Op::FOlt, false)); break;
  case CmpInst::FCMP_ULT: r = mkNot(F(Op::FOle, true)); break;
  case CmpInst::FCMP_ULE: r = mkNot(F(Op::FOlt, true)); break;
  default: abort();
  }
  return RVal(r);
}

static void finishCall(Frame &f, DI &d, const RVal &r) {
  if (d.dest >= 0) f.regs[d.dest] = r;
  if (d.opc == Instruction::Invoke) takeEdge(f, d.edges[0]); else f.pc++;
}

static bool intrinsic(Frame &f, DI &d, RVal &r) {
  auto A = [&](int i) -> const RVal & { return get(f, d.ops[i]); };
  int w = d.w;
  switch (d.intr) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t dst = conc(A(0)), src = conc(A(1)), n = conc(A(2));
    copyMem(dst, src, n);
    return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t dst = conc(A(0)), n = conc(A(2)); setMem(dst, A(1), n); return true; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = A(0); return true;
  case Intrinsic::is_constant: r = RVal((uint64_t)0); return true;
  case Intrinsic::objectsize: r = RVal(maskw(w)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation("abort", "trap executed (undefined behaviour or abort)");
  case Intrinsic::eh_typeid_for: r = RVal((uint64_t)tiId(conc(A(0)))); return true;
  case Intrinsic::smax: r = RVal(A(0).e || A(1).e ? mkIte(mkCmp(Op::Slt, E(A(0), w), E(A(1), w)), E(A(1), w), E(A(0), w)) : mkConst(std::max(sextw(A(0).c, w), sextw(A(1).c, w)), w)); return true;
  case Intrinsic::smin: r = RVal(mkIte(mkCmp(Op::Slt, E(A(0), w), E(A(1), w)), E(A(0), w), E(A(1), w))); return true;
  case Intrinsic::umax: r = RVal(mkIte(mkCmp(Op::Ult, E(A(0), w), E(A(1), w)), E(A(1), w), E(A(0), w))); return true;
  case Intrinsic::umin: r = RVal(mkIte(mkCmp(Op::Ult, E(A(0), w), E(A(1), w)), E(A(0), w), E(A(1), w))); return true;
  case Intrinsic::abs: { Expr *x = E(A(0), w); r = RVal(mkIte(mkCmp(Op::Slt, x, mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), x), x)); return true; }
  case Intrinsic::usub_sat: { Expr *x = E(A(0), w), *y = E(A(1), w); r = RVal(mkIte(mkCmp(Op::Ult, x, y), mkConst(0, w), mkBin(Op::Sub, x, y))); return true; }
  case Intrinsic::uadd_sat: { Expr *x = E(A(0), w), *y = E(A(1), w), *s = mkBin(Op::Add, x, y); r = RVal(mkIte(mkCmp(Op::Ult, s, x), mkConst(maskw(w), w), s)); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    int ww = tw(cast<CallBase>(d.I)->getArgOperand(0)->getType());
    Expr *x = E(A(0), ww), *y = E(A(1), ww), *s, *ov;
    if (isConst(x) && isConst(y)) {
      unsigned __int128 ux = x->c, uy = y->c, ur; __int128 sx = sextw(x->c, ww), sy = sextw(y->c, ww), sr; bool o; uint64_t v;
      __int128 mx = ((__int128)1 << (ww - 1)) - 1, mn = -((__int128)1 << (ww - 1));
      switch (d.intr) {
      case Intrinsic::uadd_with_overflow: ur = ux + uy; o = ur > maskw(ww); v = (uint64_t)ur; break;
      case Intrinsic::usub_with_overflow: o = ux < uy; v = (uint64_t)(ux - uy); break;
      case Intrinsic::umul_with_overflow: ur = ux * uy; o = ur > maskw(ww); v = (uint64_t)ur; break;
      case Intrinsic::sadd_with_overflow: sr = sx + sy; o = sr > mx || sr < mn; v = (uint64_t)sr; break;
      case Intrinsic::ssub_with_overflow: sr = sx - sy; o = sr > mx || sr < mn; v = (uint64_t)sr; break;
      default: sr = sx * sy; o = sr > mx || sr < mn; v = (uint64_t)sr;
      }
      s = mkConst(v, ww); ov = mkConst(o, 1);
    } else {
      Expr *z = mkConst(0, ww);
      switch (d.intr) {
      case Intrinsic::uadd_with_overflow: s = mkBin(Op::Add, x, y); ov = mkCmp(Op::Ult, s, x); break;
      case Intrinsic::usub_with_overflow: s = mkBin(Op::Sub, x, y); ov = mkCmp(Op::Ult, x, y); break;
      case Intrinsic::umul_with_overflow: {
        s = mkBin(Op::Mul, x, y);
        ov = mkCmp(Op::UMulO, x, y);
        break;
      }
      case Intrinsic::sadd_with_overflow: {
        s = mkBin(Op::Add, x, y);
        Expr *sx = mkCmp(Op::Slt, x, z), *sy = mkCmp(Op::Slt, y, z), *ss = mkCmp(Op::Slt, s, z);
        ov = mkAnd1(mkCmp(Op::Eq, sx, sy), mkNot(mkCmp(Op::Eq, ss, sx)));
        break;
      }
      case Intrinsic::ssub_with_overflow: {
        s = mkBin(Op::Sub, x, y);
        Expr *sx = mkCmp(Op::Slt, x, z), *sy = mkCmp(Op::Slt, y, z), *ss = mkCmp(Op::Slt, s, z);
        ov = mkAnd1(mkNot(mkCmp(Op::Eq, sx, sy)), mkNot(mkCmp(Op::Eq, ss, sx)));
        break;
      }
      default: {
        s = mkBin(Op::Mul, x, y);
        if (ww <= 32) {
          Expr *p = mkBin(Op::Mul, mkSExt(x, 2 * ww), mkSExt(y, 2 * ww));
          ov = mkNot(mkCmp(Op::Eq, p, mkSExt(s, 2 * ww)));
        } else {
          Expr *nz = mkNot(mkCmp(Op::Eq, y, z));
          Expr *m1 = mkAnd1(mkCmp(Op::Eq, y, mkConst(~0ull, ww)), mkCmp(Op::Eq, x, mkConst(1ull << (ww - 1), ww)));
          ov = mkOr1(m1, mkAnd1(nz, mkNot(mkCmp(Op::Eq, mkBin(Op::SDiv, s, y), x))));
        }
      }
      }
    }
    r = RVal((uint64_t)0);
    r.agg = std::make_shared<std::vector<RVal>>();
    r.agg->push_back(RVal(s)); r.agg->push_back(RVal(ov));
    return true;
  }
  case Intrinsic::ctlz: { if (A(0).e) unsupported("ctlz"); uint64_t v = A(0).c; int n = w; while (v) { v >>= 1; n--; } r = RVal((uint64_t)n); return true; }
  case Intrinsic::cttz: { if (A(0).e) unsupported("cttz"); uint64_t v = A(0).c; int n = 0; while (n < w && !((v >> n) & 1)) n++; r = RVal((uint64_t)n); return true; }
  case Intrinsic::ctpop: { if (A(0).e) unsupported("ctpop"); r = RVal((uint64_t)__builtin_popcountll(A(0).c)); return true; }
  case Intrinsic::bswap: {
    Expr *x = E(A(0), w), *o = mkExtract(x, w - 8, 8);
    for (int i = w - 16; i >= 0; i -= 8) o = mkConcat(mkExtract(x, i, 8), o);
    r = RVal(o);
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    uint64_t s = conc(A(2)) % w;
    Expr *x = E(A(0), w), *y = E(A(1), w);
    if (s == 0) { r = d.intr == Intrinsic::fshl ? A(0) : A(1); return true; }
    if (d.intr == Intrinsic::fshr) s = w - s;
    r = RVal(mkBin(Op::Or, mkBin(Op::Shl, x, mkConst(s, w)), mkBin(Op::LShr, y, mkConst(w - s, w))));
    return true;
  }
  case Intrinsic::fabs: r = RVal(A(0).e ? mkF1(Op::FAbs, A(0).e) : mkConst(evalF1(Op::FAbs, A(0).c, w), w)); return true;
  case Intrinsic::sqrt: r = RVal(mkF1(Op::FSqrt, E(A(0), w))); return true;
  case Intrinsic::fmuladd: r = RVal(mkF2(Op::FAdd, mkF2(Op::FMul, E(A(0), w), E(A(1), w)), E(A(2), w))); return true;
  case Intrinsic::maxnum: case Intrinsic::minnum: {
    Expr *x = E(A(0), w), *y = E(A(1), w);
    Expr *xn = mkFCmp(Op::FUno, x, x), *yn = mkFCmp(Op::FUno, y, y);
    Expr *lt = mkFCmp(Op::FOlt, x, y);
    Expr *pick = d.intr == Intrinsic::maxnum ? mkIte(lt, y, x) : mkIte(lt, x, y);
    r = RVal(mkIte(xn, y, mkIte(yn, x, pick)));
    return true;
  }
  case Intrinsic::copysign: { Expr *x = E(A(0), w), *y = E(A(1), w); r = RVal(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1))); return true; }
  case Intrinsic::is_fpclass: {
    Expr *x = E(A(0), tw(cast<CallBase>(d.I)->getArgOperand(0)->getType()));
    uint64_t m = conc(A(1));
    if (m == 3) { r = RVal(mkFCmp(Op::FUno, x, x)); return true; }
    unsupported("is_fpclass");
  }
  case Intrinsic::vastart: {
    uint64_t p = conc(A(0));
    static uint64_t key = 0x5a00000000ull;
    key++;
    g_va[key] = f.va;
    storeMem(RVal(p + 8), RVal(key), 8);
    return true;
  }
  case Intrinsic::vacopy: { uint64_t dst = conc(A(0)), src = conc(A(1)); storeMem(RVal(dst + 8), loadMem(RVal(src + 8), 8), 8); return true; }
  case Intrinsic::stacksave: r = RVal((uint64_t)0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::load_relative: default: return false;
  }
}

static void run(size_t baseDepth) {
  while (FR.size() > baseDepth) {
    Frame &f = FR.back();
    DI &d = f.fn->code[f.pc];
    if ((++g_instrs & 0xfffff) == 0) {
      checkDeadline();
      if (g_instrs > g_instr_limit) violation("hang", "no termination within the per-path instruction limit");
    }
    auto A = [&](int i) -> const RVal & { return get(f, d.ops[i]); };
    switch (d.opc) {
    case Instruction::Ret: {
      RVal r;
      if (!d.ops.empty()) r = A(0);
      int rd = f.retDest;
      popFrame();
      if (FR.size() <= baseDepth) return;
      Frame &c = FR.back();
      DI &cd = c.fn->code[c.pc];
      (void)rd;
      finishCall(c, cd, r);
      break;
    }
    case Instruction::Br:
      if (d.edges.size() == 1) takeEdge(f, d.edges[0]);
      else {
        const RVal &c = A(0);
        bool t = c.e ? branch(c.e) : (c.c & 1);
        takeEdge(f, d.edges[t ? 0 : 1]);
      }
      break;
    case Instruction::Switch: {
      const RVal &c = A(0);
      size_t k = 0;
      if (!c.e) { for (size_t i = 1; i < d.ops.size(); i++) if (d.ops[i].c.c == c.c) { k = i; break; } }
      else { RVal cc = c; for (size_t i = 1; i < d.ops.size(); i++) if (branch(mkCmp(Op::Eq, cc.e, mkConst(d.ops[i].c.c, d.w)))) { k = i; break; } }
      takeEdge(f, d.edges[k]);
      break;
    }
    case Instruction::Unreachable: violation("abort", "unreachable code reached (undefined behaviour)");
    case Instruction::Resume: { uint64_t p = conc((*A(0).agg)[0]);
      // the frame continues to unwind from here
      popFrame();
      unwind(p);
      break; }
    case Instruction::LandingPad: {
      RVal r; r.agg = std::make_shared<std::vector<RVal>>();
      r.agg->push_back(RVal(g_unwExc)); r.agg->push_back(RVal((uint64_t)g_unwSel));
      f.regs[d.dest] = r;
      f.pc++;
      break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      if (d.w > 64) unsupported("wide arithmetic");
      f.regs[d.dest] = doBin(binop(d.opc), A(0), A(1), d.w); f.pc++; break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      if (d.w > 64) unsupported("wide arithmetic");
      f.regs[d.dest] = doBin(binop(d.opc), A(0), A(1), d.w); f.pc++; break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      if (d.w > 64) unsupported("wide arithmetic");
      const RVal &y = A(1);
      if (y.e) mustHold(mkNot(mkCmp(Op::Eq, y.e, mkConst(0, d.w))), "arith", "integer division by zero");
      else if (y.c == 0) violation("arith", "integer division by zero");
      if ((d.opc == Instruction::SDiv || d.opc == Instruction::SRem) && d.w >= 32) {
        Expr *bad = mkAnd1(mkCmp(Op::Eq, E(A(0), d.w), mkConst(1ull << (d.w - 1), d.w)), mkCmp(Op::Eq, E(A(1), d.w), mkConst(~0ull, d.w)));
        if (!isFalse(bad)) mustHold(mkNot(bad), "arith", "integer division overflow (INT_MIN / -1)");
      }
      RVal da = A(0), db = A(1);
      if (da.e || db.e) narrowDiv(da, db, d.w, d.opc == Instruction::UDiv || d.opc == Instruction::URem);
      f.regs[d.dest] = doBin(binop(d.opc), da, db, d.w);
      f.pc++;
      break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      Op o = binop(d.opc);
      if (!d.w) unsupported("vector fp");
      const RVal &a = A(0), &b = A(1);
      f.regs[d.dest] = (!a.e && !b.e) ? RVal(evalF2(o, a.c, b.c, d.w)) : RVal(mkF2(o, E(a, d.w), E(b, d.w)));
      f.pc++;
      break;
    }
    case Instruction::FNeg: f.regs[d.dest] = A(0).e ? RVal(mkF1(Op::FNeg, A(0).e)) : RVal(evalF1(Op::FNeg, A(0).c, d.w)); f.pc++; break;
    case Instruction::ICmp:
      if (!d.w2 || d.w2 > 64) unsupported("wide compare");
      f.regs[d.dest] = doICmp(cast<CmpInst>(d.I)->getPredicate(), A(0), A(1), d.w2); f.pc++; break;
    case Instruction::FCmp:
      if (!d.w2) unsupported("vector compare");
      f.regs[d.dest] = doFCmp(cast<CmpInst>(d.I)->getPredicate(), A(0), A(1), d.w2); f.pc++; break;
    case Instruction::Alloca: {
      uint64_t n = conc(A(0)) * (uint64_t)d.gconst;
      Obj *o = mkObj(Rstack, g_nextS, n, KStack, 16, 64 + (n & ~15ull), true);
      f.regs[d.dest] = RVal(o->base);
      f.pc++;
      break;
    }
    case Instruction::Load: {
      RVal v = (d.w && d.w % 8 == 0 && d.w <= 64) ? loadMem(A(0), d.w / 8) : loadTyped(A(0), d.ty);
      f.regs[d.dest] = std::move(v);
      f.pc++;
      break;
    }
    case Instruction::Store:
      if (d.w && d.w % 8 == 0 && d.w <= 64) storeMem(A(1), A(0), d.w / 8); else storeTyped(A(1), A(0), d.ty);
      f.pc++;
      break;
    case Instruction::GetElementPtr: {
      const RVal &b = A(0);
      if (d.gidx.empty()) { f.regs[d.dest] = b.e ? RVal(mkBin(Op::Add, b.e, mkConst((uint64_t)d.gconst, 64))) : RVal(b.c + d.gconst); f.pc++; break; }
      bool sym = b.e != nullptr;
      for (auto &g : d.gidx) if (A(g.first).e) sym = true;
      if (!sym) {
        uint64_t a = b.c + d.gconst;
        for (auto &g : d.gidx) a += (uint64_t)sextw(A(g.first).c, d.w2) * (uint64_t)g.second;
        f.regs[d.dest] = RVal(a);
      } else {
        Expr *a = mkBin(Op::Add, E(b, 64), mkConst((uint64_t)d.gconst, 64));
        for (auto &g : d.gidx) a = mkBin(Op::Add, a, mkBin(Op::Mul, mkSExt(E(A(g.first), d.w2), 64), mkConst((uint64_t)g.second, 64)));
        f.regs[d.dest] = RVal(a);
      }
      f.pc++;
      break;
    }
    case Instruction::Trunc: { const RVal &a = A(0); if (d.w2 > 64) unsupported("wide trunc"); f.regs[d.dest] = a.e ? RVal(mkExtract(a.e, 0, d.w)) : RVal(a.c & maskw(d.w)); f.pc++; break; }
    case Instruction::ZExt: { const RVal &a = A(0); if (d.w > 64) unsupported("wide zext"); f.regs[d.dest] = a.e ? RVal(mkZExt(a.e, d.w)) : RVal(a.c); f.pc++; break; }
    case Instruction::SExt: { const RVal &a = A(0); if (d.w > 64) unsupported("wide sext"); f.regs[d.dest] = a.e ? RVal(mkSExt(a.e, d.w)) : RVal((uint64_t)sextw(a.c, d.w2) & maskw(d.w)); f.pc++; break; }
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      Op o = d.opc == Instruction::SIToFP ? Op::SIToFP : d.opc == Instruction::UIToFP ? Op::UIToFP : d.opc == Instruction::FPToSI ? Op::FPToSI : Op::FPToUI;
      const RVal &a = A(0);
      f.regs[d.dest] = a.e ? RVal(mkFConv(o, a.e, d.w)) : RVal(evalFConv(o, a.c, d.w2, d.w));
      f.pc++;
      break;
    }
    case Instruction::FPExt: { const RVal &a = A(0); if (d.w == d.w2) f.regs[d.dest] = a; else f.regs[d.dest] = a.e ? RVal(mkFConv(Op::FPExt, a.e, 64)) : RVal(evalFConv(Op::FPExt, a.c, 32, 64)); f.pc++; break; }
    case Instruction::FPTrunc: { const RVal &a = A(0); if (d.w == d.w2) f.regs[d.dest] = a; else f.regs[d.dest] = a.e ? RVal(mkFConv(Op::FPTrunc, a.e, 32)) : RVal(evalFConv(Op::FPTrunc, a.c, 64, 32)); f.pc++; break; }
    case Instruction::PtrToInt: { const RVal &a = A(0); f.regs[d.dest] = d.w < 64 ? (a.e ? RVal(mkExtract(a.e, 0, d.w)) : RVal(a.c & maskw(d.w))) : a; f.pc++; break; }
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: f.regs[d.dest] = A(0); f.pc++; break;
    case Instruction::Select: {
      const RVal &c = A(0);
      if (!c.e) f.regs[d.dest] = RVal(c.c & 1 ? A(1) : A(2));
      else if (A(1).agg || A(2).agg || !d.w) { bool t = branch(c.e); f.regs[d.dest] = RVal(t ? A(1) : A(2)); }
      else f.regs[d.dest] = RVal(mkIte(c.e, E(A(1), d.w), E(A(2), d.w)));
      f.pc++;
      break;
    }
    case Instruction::ExtractValue: {
      RVal v = A(0);
      for (auto i : cast<ExtractValueInst>(d.I)->indices()) { RVal t = (*v.agg)[i]; v = t; }
      f.regs[d.dest] = v;
      f.pc++;
      break;
    }
    case Instruction::InsertValue: {
      auto *iv = cast<InsertValueInst>(d.I);
      RVal v = A(0);
      v.agg = v.agg ? std::make_shared<std::vector<RVal>>(*v.agg) : std::make_shared<std::vector<RVal>>(16);
      RVal *p = &v;
      auto idx = iv->getIndices();
      for (size_t i = 0; i + 1 < idx.size(); i++) { p = &(*p->agg)[idx[i]]; p->agg = p->agg ? std::make_shared<std::vector<RVal>>(*p->agg) : std::make_shared<std::vector<RVal>>(16); }
      (*p->agg)[idx.back()] = A(1);
      f.regs[d.dest] = v;
      f.pc++;
      break;
    }
    case Instruction::AtomicRMW: {
      auto *ar = cast<AtomicRMWInst>(d.I);
      int w = tw(ar->getValOperand()->getType());
      RVal addr = A(0), old = loadMem(addr, w / 8), nv, y = A(1);
      switch (ar->getOperation()) {
      case AtomicRMWInst::Add: nv = doBin(Op::Add, old, y, w); break;
      case AtomicRMWInst::Sub: nv = doBin(Op::Sub, old, y, w); break;
      case AtomicRMWInst::Xchg: nv = y; break;
      case AtomicRMWInst::And: nv = doBin(Op::And, old, y, w); break;
      case AtomicRMWInst::Or: nv = doBin(Op::Or, old, y, w); break;
      default: unsupported("atomicrmw");
      }
      storeMem(addr, nv, w / 8);
      f.regs[d.dest] = old;
      f.pc++;
      break;
    }
    case Instruction::AtomicCmpXchg: {
      int w = tw(d.I->getOperand(1)->getType());
      RVal addr = A(0), old = loadMem(addr, w / 8);
      RVal eq = doICmp(CmpInst::ICMP_EQ, old, A(1), w);
      bool t = eq.e ? branch(eq.e) : eq.c;
      if (t) storeMem(addr, A(2), w / 8);
      RVal r; r.agg = std::make_shared<std::vector<RVal>>();
      r.agg->push_back(old); r.agg->push_back(RVal((uint64_t)t));
      f.regs[d.dest] = r;
      f.pc++;
      break;
    }
    case Instruction::Fence: f.pc++; break;
    case Instruction::Call: case Instruction::Invoke: {
      if (d.intr) {
        RVal r;
        if (!intrinsic(f, d, r)) unsupported("intrinsic " + cast<CallBase>(d.I)->getCalledFunction()->getName().str());
        finishCall(f, d, r);
        break;
      }
      auto *cb = cast<CallBase>(d.I);
      size_t na = cb->arg_size();
      Fn *callee = d.callee;
      int ext = d.ext;
      Function *tf = nullptr;
      if (!callee && ext == -1) {
        uint64_t a = conc(A((int)na));
        auto it = fnAddr.find(a);
        if (it == fnAddr.end()) violation("memory", "call through an invalid function pointer " + hex(a));
        tf = it->second;
        ext = extFor(tf);
        if (ext < 0) { if (tf->isDeclaration()) ext = -3; else { callee = getFn(tf); } }
      } else if (!callee) tf = cb->getCalledFunction();
      std::vector<RVal> args;
      args.reserve(na);
      for (size_t i = 0; i < na; i++) {
        if (cb->isByValArgument(i)) {
          // byval: copy
          uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i));
          Obj *o = mkObj(Rstack, g_nextS, n, KStack, 16, 64, true);
          copyMem(o->base, conc(A(i)), n);
          args.push_back(RVal(o->base));
        } else args.push_back(A(i));
      }
      if (callee && callee->toString && g_opaque && args[1].e) { // text of an error message: its content is not modelled
        writeStdString(conc(args[0]), "?");
        finishCall(f, d, RVal((uint64_t)0));
        break;
      }
      if (callee) { pushFrame(callee, args, d.dest); break; }
      if (ext < 0) {
        std::string n = tf ? tf->getName().str() : "?";
        unsupported("external function " + dem(n) + " [" + n + "]");
      }
      Call c{cb, std::move(args), RVal(), false, false};
      size_t depth = FR.size();
      handlers[ext](c);
      (void)depth;
      if (c.thrown) break;
      finishCall(FR.back(), FR.back().fn->code[FR.back().pc], c.ret);
      break;
    }
    default: unsupported(std::string("instruction ") + d.I->getOpcodeName());
    }
  }
}

int main(int argc, char **argv) {
  std::string file, entry = "sym_main";
  int jobs = 8;
  unsigned rlimit = 20000000;
  double tlimit = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") g_out = argv[++i];
    else if (a == "-e") entry = argv[++i];
    else if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "-t") tlimit = atof(argv[++i]);
    else if (a == "-r") rlimit = atoi(argv[++i]);
    else if (a == "-v") g_maxviol = atoi(argv[++i]);
    else if (a == "-w") g_maxwit = atoi(argv[++i]);
    else if (a == "-s") g_seed = atoi(argv[++i]);
    else file = a;
  }
  if (file.empty() || g_out.empty()) { fprintf(stderr, "usage: symex -o outdir -e entry [-j n] [-t secs] [-v maxviol] file.bc\n"); return 2; }
  double t0 = now();
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  LLVMContext ctx;
  SMDiagnostic diag;
  auto mod = parseIRFile(file, diag, ctx);
  if (!mod) { diag.print("symex", errs()); return 2; }
  M = mod.get();
  DataLayout dl(M);
  DL = &dl;
  setupHandlers();
  solverInit(rlimit);
  // globals
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)dl.getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration() && sz < 64) sz = 64;
    Obj *o = mkObj(Rglob, g_nextG, sz, KGlobal, g.getAlign() ? g.getAlign()->value() : 16, 256, false);
    o->name = g.getName().str();
    o->ext = g.isDeclaration();
    gaddr[&g] = o->base;
    if (g.getName().starts_with("_ZTI")) tiGlobal[o->base] = &g;
    if (g.getName() == "__libc_single_threaded") o->d[0] = 1;
  }
  { int k = 0; for (auto &f : *M) fnIdx[&f] = k++; }
  for (auto &f : *M) addrOf(&f);
  for (auto &a : M->aliases()) addrOf(&a);
  for (auto &g : M->globals())
    if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
      Obj *o = findIn(Rglob, gaddr[&g]);
      writeConst(o, 0, g.getInitializer());
      o->ro = g.isConstant();
    }
  Function *F = M->getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  double tload = now() - t0;
  SH->tokens = jobs - 1;
  if (tlimit > 0) g_deadline = now() + tlimit;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  signal(SIGINT, SIG_DFL);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    // static constructors
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
      if (gc->hasInitializer()) {
        auto *ca = dyn_cast<ConstantArray>(gc->getInitializer());
        std::vector<std::pair<uint64_t, Function *>> cs;
        if (ca) for (unsigned i = 0; i < ca->getNumOperands(); i++) {
          auto *cs1 = cast<ConstantStruct>(ca->getOperand(i));
          if (auto *cf = dyn_cast<Function>(cs1->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cs1->getOperand(0))->getZExtValue(), cf});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
        std::vector<RVal> no;
        for (auto &c : cs) { pushFrame(getFn(c.second), no, -1); run(0); }
      }
    }
    std::vector<RVal> no;
    pushFrame(getFn(F), no, -1);
    run(0);
    writeWitness();
    endPath(SH->paths_ok);
  }
  setpgid(p, p);
  int st;
  pid_t w;
  bool killed = false;
  // workers stop by themselves at the deadline; one that is inside a long
  // solver call is ended a little later (its path then counts as stopped)
  while (true) {
    w = waitpid(-1, &st, g_deadline ? WNOHANG : 0);
    if (w > 0) {
      if (killed && WIFSIGNALED(st)) SH->paths_stopped++;
      else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) SH->crashed++;
    } else if (w == 0) {
      if (!killed && now() > g_deadline + 15) { SH->stop = 2; killed = true; kill(-p, SIGKILL); }
      usleep(5000);
    } else if (errno != EINTR) break;
  }
  // report
  FILE *f = fopen((g_out + "/result.json").c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"load_s\":%.2f,\"wall_s\":%.2f,\"stop\":%d,\"violations\":%d,\"crashed\":%lu,", entry.c_str(), tload, now() - t0, SH->stop.load(), SH->viol.load(), (unsigned long)SH->crashed);
  fprintf(f, "\"paths_ok\":%lu,\"paths_assume\":%lu,\"paths_unsup\":%lu,\"paths_viol\":%lu,\"paths_stopped\":%lu,", (unsigned long)SH->paths_ok, (unsigned long)SH->paths_assume, (unsigned long)SH->paths_unsup, (unsigned long)SH->paths_viol, (unsigned long)SH->paths_stopped);
  fprintf(f, "\"asserts\":%lu,\"asserts_const\":%lu,\"asserts_solver\":%lu,\"asserts_unknown\":%lu,\"safety_checks\":%lu,", (unsigned long)SH->as_total, (unsigned long)SH->as_const, (unsigned long)SH->as_proved, (unsigned long)SH->as_unknown, (unsigned long)SH->safety);
  fprintf(f, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"fp_queries\":%lu,\"solver_s\":%.3f,\"instrs\":%lu,\"forks\":%lu,\"sym_branches\":%lu,\"uninit_syms\":%lu,\"model_mismatch\":%lu,", (unsigned long)SH->queries, (unsigned long)SH->sat, (unsigned long)SH->unsat, (unsigned long)SH->unknown, (unsigned long)SH->fpq, SH->usec / 1e6, (unsigned long)SH->instrs, (unsigned long)SH->forks, (unsigned long)SH->symbr, (unsigned long)SH->uninit_syms, (unsigned long)SH->modelbad);
  fprintf(f, "\"cover\":{");
  bool first = true;
  for (auto &c : SH->cover) if (c.name[0]) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jsonEsc(c.name).c_str(), (unsigned long)c.n); first = false; }
  fprintf(f, "},\"errors\":{");
  first = true;
  for (auto &c : SH->errs) if (c.name[0]) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jsonEsc(c.name).c_str(), (unsigned long)c.n); first = false; }
  fprintf(f, "},\"functions\":[");
  std::set<std::string> names;
  {
    int k = 0;
    for (auto &fn : *M) {
      if (SH->fn[k++ & 0xffff] == 0) continue;
      std::set<const void *> seen;
      auto add = [&](DISubprogram *sp) {
        if (!sp || !seen.insert(sp).second) return;
        std::string ln = sp->getLinkageName().str(), file = sp->getFilename().str();
        if (file.find("INNC") != std::string::npos && file.find("/repo/") == 0) names.insert(dem(ln.empty() ? sp->getName().str() : ln));
      };
      add(fn.getSubprogram());
      for (auto &b : fn) for (auto &i : b) for (const DILocation *l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) add(l->getScope()->getSubprogram());
    }
  }
  first = true;
  for (auto &n : names) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(n).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
