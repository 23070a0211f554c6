// Interface between the harnesses and the symbolic executor (engine/qsx.cpp); the same functions are
// provided by engine/replay.cpp when a counterexample is replayed natively.
#pragma once
#include <cstdint>
extern "C" {
double   qsx_real(const char* name, double lo, double hi);      // any real in [lo,hi] (exact arithmetic)
double   qsx_fp64(const char* name, double lo, double hi);      // any IEEE double in [lo,hi] (bit-precise)
uint64_t qsx_int(const char* name, uint64_t lo, uint64_t hi);   // any 64-bit integer in [lo,hi]
uint64_t qsx_choice(const char* name, uint64_t n);              // any of 0..n-1, concrete on each path
uint64_t qsx_concretize(uint64_t v);
void     qsx_assume(bool c);
void     qsx_assert(bool c, const char* label);
void     qsx_reach(const char* label);
uint64_t qsx_arg(const char* name, uint64_t def);
void     qsx_print(const char* name, double v);
void     qsx_main();
}
