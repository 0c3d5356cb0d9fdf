// Native counterpart of the sym_* intrinsics: replays one recorded input
// vector against the real, natively compiled library (g++, AddressSanitizer).
// exit 0: ran to the end; 42: an assertion of the harness failed;
// 43: uncaught exception; 3: inputs diverge; 4: assumption false.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <typeinfo>
#include <vector>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static volatile long g_live = 0;
static void on_malloc(const volatile void *p, size_t) { if (p) ++g_live; }
static void on_free(const volatile void *p) { if (p) --g_live; }
static char g_names[1 << 20];
static struct { const char *name; long long v; } g_in[1 << 16];
static int g_n = 0, g_pos = 0;
static long g_asserts = 0;
static int64_t next(const char *name) {
  if (g_pos >= g_n || strcmp(g_in[g_pos].name, name)) {
    printf("DIVERGED at input %d: wanted %s\n", g_pos, name);
    fflush(stdout);
    _Exit(3);
  }
  return g_in[g_pos++].v;
}
extern "C" {
int64_t sym_range(int64_t, int64_t, const char *n) { return next(n); }
int64_t sym_bits(int64_t, const char *n) { return next(n); }
int64_t sym_choice(int64_t, const char *n) { return next(n); }
int64_t sym_concrete(int64_t v) { return v; }
void sym_assume(bool c) { if (!c) { printf("ASSUMPTION FALSE\n"); fflush(stdout); _Exit(4); } }
void sym_assert(bool c, const char *m) {
  ++g_asserts;
  if (!c) { printf("ASSERTION FAILED: %s\n", m); fflush(stdout); _Exit(42); }
}
void sym_cover(const char *) {}
int64_t sym_heap_live() { return g_live; }
void sym_opaque_text(bool) {}
void sym_trace(const char *s) { printf("[trace] %s\n", s); }
void sym_show(int64_t v, const char *n) { printf("[show] %s = %lld\n", n, (long long)v); }
}
#define CAT2(a, b) a##b
#ifndef ENTRY
#define ENTRY sym_main
#endif
extern "C" void ENTRY();
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : nullptr;
  if (!f) { fprintf(stderr, "usage: replay inputs.txt\n"); return 2; }
  char *np = g_names;
  static char line[4096];
  while (fgets(line, sizeof line, f)) {
    char *sp = strrchr(line, ' ');
    if (!sp) continue;
    *sp = 0;
    strcpy(np, line);
    g_in[g_n].name = np;
    np += strlen(line) + 1;
    g_in[g_n++].v = atoll(sp + 1);
  }
  fclose(f);
  setvbuf(stdout, (char *)malloc(65536), _IOFBF, 65536);
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  try {
    ENTRY();
  } catch (const std::exception &e) {
    printf("UNCAUGHT EXCEPTION: %s\n", e.what());
    fflush(stdout);
    _Exit(43);
  } catch (...) {
    printf("UNCAUGHT EXCEPTION\n");
    fflush(stdout);
    _Exit(43);
  }
  printf("OK asserts=%ld inputs=%d/%d\n", g_asserts, g_pos, g_n);
  fflush(stdout);
  _Exit(0);
}
