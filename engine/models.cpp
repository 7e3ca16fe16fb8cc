// Instrumented models of library code that is not available as instrumented source.
#include <charconv>
#include <fast_float.h>
#include <cstring>
#include <time.h>
extern "C" {
// correctly rounded decimal -> binary conversion (same contract as libstdc++'s)
std::from_chars_result __sxw__ZSt10from_charsPKcS0_RdSt12chars_format(const char* b, const char* e, double& v, std::chars_format f)
{
    auto r = fast_float::from_chars(b, e, v, (fast_float::chars_format)(int)(((int)f & 1 ? (int)fast_float::chars_format::scientific : 0) | ((int)f & 2 ? (int)fast_float::chars_format::fixed : 0)));
    return { r.ptr, r.ec };
}
std::from_chars_result __sxw__ZSt10from_charsPKcS0_RfSt12chars_format(const char* b, const char* e, float& v, std::chars_format f)
{
    auto r = fast_float::from_chars(b, e, v, (fast_float::chars_format)(int)(((int)f & 1 ? (int)fast_float::chars_format::scientific : 0) | ((int)f & 2 ? (int)fast_float::chars_format::fixed : 0)));
    return { r.ptr, r.ec };
}
}
// ---- integer parsing of the C library, "C" locale
#include <cerrno>
#include <climits>
template <typename T, bool Signed> static T strtoT(const char* s, char** end, int base, T lo, T hi)
{
    const char* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x')
    {
        int c = p[2] | 32;
        if ((p[2] >= '0' && p[2] <= '9') || (c >= 'a' && c <= 'f')) { p += 2; base = 16; }
        else if (base == 0) base = 8;
    }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false, over = false;
    unsigned long lim = Signed ? (neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX) : ULONG_MAX;
    for (; ; p++)
    {
        int d;
        if (*p >= '0' && *p <= '9') d = *p - '0';
        else if ((*p | 32) >= 'a' && (*p | 32) <= 'z') d = (*p | 32) - 'a' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (v > (lim - d) / base) over = true; else v = v * base + d;
    }
    if (end) *end = const_cast<char*>(any ? p : s);
    if (!any) return 0;
    if (over) { errno = ERANGE; return Signed && neg ? lo : hi; }
    return neg ? (T)(0 - v) : (T)v;
}
extern "C" {
long __sxw_strtol(const char* s, char** e, int b) { return strtoT<long, true>(s, e, b, LONG_MIN, LONG_MAX); }
long long __sxw_strtoll(const char* s, char** e, int b) { return strtoT<long, true>(s, e, b, LONG_MIN, LONG_MAX); }
unsigned long __sxw_strtoul(const char* s, char** e, int b) { return strtoT<unsigned long, false>(s, e, b, 0, ULONG_MAX); }
unsigned long long __sxw_strtoull(const char* s, char** e, int b) { return strtoT<unsigned long, false>(s, e, b, 0, ULONG_MAX); }
long __sxw___isoc23_strtol(const char* s, char** e, int b) { return strtoT<long, true>(s, e, b, LONG_MIN, LONG_MAX); }
long long __sxw___isoc23_strtoll(const char* s, char** e, int b) { return strtoT<long, true>(s, e, b, LONG_MIN, LONG_MAX); }
unsigned long __sxw___isoc23_strtoul(const char* s, char** e, int b) { return strtoT<unsigned long, false>(s, e, b, 0, ULONG_MAX); }
unsigned long long __sxw___isoc23_strtoull(const char* s, char** e, int b) { return strtoT<unsigned long, false>(s, e, b, 0, ULONG_MAX); }
int __sxw_atoi(const char* s) { return (int)strtoT<long, true>(s, nullptr, 10, LONG_MIN, LONG_MAX); }
long __sxw_atol(const char* s) { return strtoT<long, true>(s, nullptr, 10, LONG_MIN, LONG_MAX); }
}
// ---- sscanf, "C" locale: the conversions u, d, s and c with width and l modifiers; at most five of them
static int isWsC(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int scanImpl(const char* s, const char* f, void* const* out, unsigned outs)
{
    int n = 0;
    for (; *f; f++)
    {
        if (isWsC(*f)) { while (isWsC(*s)) s++; continue; }
        if (*f != '%') { if (!*s) return n ? n : -1; if (*s != *f) return n; s++; continue; }
        unsigned width = 0; bool lng = false; f++;
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'j' || *f == 'z') { lng = true; f++; }
        if ((unsigned)n >= outs) __builtin_trap();
        if (*f == 'c') { if (width > 1) __builtin_trap(); if (!*s) return n ? n : -1; *(char*)out[n++] = *s++; continue; }
        if (*f != 'u' && *f != 'd' && *f != 's') __builtin_trap();
        while (isWsC(*s)) s++;
        if (!*s) return n ? n : -1;
        if (*f == 's') { char* o = (char*)out[n++]; for (unsigned k = width ? width : ~0u; k && *s && !isWsC(*s); k--) *o++ = *s++; *o = 0; continue; }
        unsigned left = width ? width : ~0u; bool neg = false, any = false;
        if ((*s == '-' || *s == '+') && left) { neg = *s == '-'; s++; left--; }
        unsigned long v = 0, lim = *f == 'd' ? (unsigned long)LONG_MAX + neg : ULONG_MAX; bool over = false;
        for (; left && *s >= '0' && *s <= '9'; s++, left--) { unsigned d = (unsigned)(*s - '0'); any = true; if (v > (lim - d) / 10) over = true; else v = v * 10 + d; }
        if (!any) return n;
        if (over) v = lim; else if (neg) v = 0 - v;
        if (lng) *(unsigned long*)out[n++] = v; else *(unsigned*)out[n++] = (unsigned)v;
    }
    return n;
}
extern "C" {
int __sxw_sscanf(const char* s, const char* f, void* a, void* b, void* c, void* d, void* e) { void* o[] = { a, b, c, d, e }; return scanImpl(s, f, o, 5); }
int __sxw___isoc99_sscanf(const char* s, const char* f, void* a, void* b, void* c, void* d, void* e) { return __sxw_sscanf(s, f, a, b, c, d, e); }
int __sxw___isoc23_sscanf(const char* s, const char* f, void* a, void* b, void* c, void* d, void* e) { return __sxw_sscanf(s, f, a, b, c, d, e); }
}
