/* Hot data and allocation hooks that must live in the executable. */
#include <stddef.h>
void* __sx_args[64]; void* __sx_ret[16]; void* __sx_tag; void* __sx_rettag; unsigned char __sx_pagemap[1 << 20];
extern void __libc_free(void*); extern void* __libc_realloc(void*, size_t);
extern int sx_main(int, char**);
static int inar(void* p) { return (unsigned long)p - 0x200000000000UL < (1UL << 32); }
extern void sx_arena_free_c(void*); extern void* sx_arena_realloc_c(void*, size_t);
void free(void* p) { if (inar(p)) sx_arena_free_c(p); else __libc_free(p); }
void* realloc(void* p, size_t n) { if (inar(p)) return sx_arena_realloc_c(p, n); return __libc_realloc(p, n); }
void _ZdlPv(void* p) { free(p); }
void _ZdaPv(void* p) { free(p); }
void _ZdlPvm(void* p, unsigned long n) { (void)n; free(p); }
void _ZdaPvm(void* p, unsigned long n) { (void)n; free(p); }
int main(int c, char** v) { return sx_main(c, v); }
