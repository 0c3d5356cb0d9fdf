// Interface between a harness and the checker.  Under the symbolic executor the
// sym_* functions create symbolic values, assumptions and assertions; in the
// native replay build (replay.cpp) they feed back a recorded counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int64_t sym_range(int64_t lo, int64_t hi, const char *name); // any value in [lo,hi]
int64_t sym_bits(int64_t width, const char *name);           // any bit pattern (sign-extended)
int64_t sym_choice(int64_t n, const char *name);             // forks into 0..n-1
int64_t sym_concrete(int64_t v);                             // forks over every feasible value
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_cover(const char *name);
int64_t sym_heap_live();                                     // live heap allocations
void sym_opaque_text(bool on);                               // do not model the digits of symbolic numbers (error messages)
void sym_trace(const char *s);
void sym_show(int64_t v, const char *name);
}
