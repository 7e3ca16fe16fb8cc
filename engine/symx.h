// Harness API.  The same harness source is built twice: instrumented (symbolic) and plain (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sx_harness(void);                                                    // provided by the harness
void __sx_make(void* p, unsigned long n, const char* name);               // n fresh symbolic bytes
unsigned long __sx_range(const char* name, unsigned long lo, unsigned long hi); // fresh value in [lo,hi]
void __sx_assume(int c);
void __sx_assert(int c, const char* tag);
void __sx_fail(const char* tag);
void __sx_reach(const char* tag);                                         // vacuity witness
void __sx_end(void);                                                      // end this path (not a violation)
unsigned long __sx_pin(unsigned long v);                                  // enumerate the values of v
int __sx_tier(void);                                                      // 0 quick, 1 thorough
int __sx_native(void);                                                    // 1 in the replay build
}
#define SX_ASSERT(c, tag) __sx_assert((c) ? 1 : 0, tag)
static inline bool sx_bool(const char* n) { return __sx_range(n, 0, 1) != 0; }
