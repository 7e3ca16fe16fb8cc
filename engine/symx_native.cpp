// Replay runtime: the harness API over a recorded input, linked with the uninstrumented (sanitized) library.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <typeinfo>
#include <unistd.h>
static unsigned char in[256]; static unsigned n, pos; static int tier;
static unsigned char next() { return pos < n ? in[pos++] : (pos++, 0); }
static bool quietEnd = false;
extern "C" {
void __sx_make(void* p, unsigned long k, const char*) { for (unsigned long i = 0; i < k; i++) ((unsigned char*)p)[i] = next(); }
unsigned long __sx_range(const char*, unsigned long lo, unsigned long hi)
{
    unsigned long span = hi - lo, r = 0; if (!span) return lo;
    if (span < 256) { r = next(); if (r > span) r = 0; return lo + r; }
    unsigned nb = span < (1UL << 16) ? 2 : span < (1UL << 32) ? 4 : 8;
    for (unsigned i = 0; i < nb; i++) r |= (unsigned long)next() << (8 * i);
    if (r > span) { puts("REPLAY-PRUNED"); fflush(stdout); _exit(0); }
    return lo + r;
}
void __sx_assume(int c) { if (!c) { puts("REPLAY-PRUNED"); fflush(stdout); _exit(0); } }
void __sx_assert(int c, const char* t) { if (!c) __sx_fail(t); }
void __sx_fail(const char* t) { printf("REPLAY-VIOLATION %s\n", t); fflush(stdout); _exit(10); }
void __sx_reach(const char*) {}
void __sx_end(void) { puts("REPLAY-END"); fflush(stdout); _exit(0); }
unsigned long __sx_pin(unsigned long v) { return v; }
int __sx_tier(void) { return tier; }
int __sx_native(void) { return 1; }
void __sx_suspend(int) {}
}
static void term()
{
    printf("REPLAY-VIOLATION uncaught exception\n"); fflush(stdout); _exit(11);
}
// usage: replay TIER HEX  |  replay -b TIER FILE   (batch of witness records: one child per record)
int main(int argc, char** argv)
{
    std::set_terminate(term);
    if (argc < 3) return 2;
    tier = atoi(argv[1]);
    const char* h = argv[2];
    for (; h[0] && h[1] && n < 256; h += 2) { char b[3] = { h[0], h[1], 0 }; in[n++] = (unsigned char)strtoul(b, nullptr, 16); }
    sx_harness();
    puts("REPLAY-OK");
    return 0;
}
