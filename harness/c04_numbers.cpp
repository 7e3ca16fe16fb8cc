#include "common.h"
// decimal digits of v, the straightforward way
static string dec(uint64_t v) { char b[24]; int k = 24; do { b[--k] = (char)('0' + v % 10); v /= 10; } while (v); return string(b + k, 24 - k); }
static string sdec(int64_t v) { return v < 0 ? "-" + dec(0 - (uint64_t)v) : dec((uint64_t)v); }
static bool pinBool(const char* n) { return __sx_pin(rng(n, 0, 1)) != 0; }
static void integer(int64_t n)
{
    PdfVariant v(n);
    string out = toStr(v, PdfWriteFlags::NoInlineLiteral);
    bool neg = n < 0;
    // the text denotes n: digits without superfluous zero, accumulated value
    size_t i = neg ? 1 : 0, ok = out.size() > i && (!neg || out[0] == '-') && (out[i] != '0' || (out.size() == 1));
    uint64_t acc = 0;
    for (; i < out.size(); i++) { ok &= (unsigned char)(out[i] - '0') <= 9; acc = acc * 10 + (uint64_t)(out[i] - '0'); }
    SX_ASSERT(ok, "an integer prints as plain decimal digits");
    SX_ASSERT(acc == (neg ? 0 - (uint64_t)n : (uint64_t)n), "the digits of an integer have its value");
    string s2 = toStr(v); while (!s2.empty() && s2[0] == ' ') s2.erase(0, 1);
    SX_ASSERT(s2 == out, "an inline integer differs only by white space");
    bool end;
    PdfVariant r = parseVariant(out, &end);
    SX_ASSERT(r.GetDataType() == PdfDataType::Number && end, "an integer reads back as an integer");
    SX_ASSERT(r.GetNumber() == n, "an integer reads back as the same integer");
    SX_ASSERT(v.ToString() == out, "the textual form of an integer is its digits");
    __sx_reach("integer");
}
static const uint64_t P10[20] = { 1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull,
    10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull };
template <typename T> static void fmtInt(T v)
{
    string s;
    utls::FormatTo(s, v);
    SX_ASSERT(s == (v < 0 ? sdec((int64_t)v) : dec((uint64_t)v)), "an integer of any width prints as its decimal form");
    __sx_reach("width");
}
// m * 10^-k printed with precision p: correctly rounded, no exponent, no superfluous zeros
static void real(int64_t m, unsigned k, unsigned p, bool flt)
{
    double d = (double)m / (double)P10[k];
    string s;
    if (flt) { float f = (float)d; d = f; utls::FormatTo(s, f, (unsigned short)p); }
    else utls::FormatTo(s, d, (unsigned short)p);
    size_t i = s[0] == '-' ? 1 : 0, dig = 0, frac = 0; bool dot = false, ok = s.size() > i;
    unsigned __int128 num = 0;
    for (size_t j = i; j < s.size(); j++)
    {
        if (s[j] == '.') { ok = ok && !dot; dot = true; continue; }
        ok = ok && s[j] >= '0' && s[j] <= '9';
        num = num * 10 + (unsigned)(s[j] - '0'); dig++; if (dot) frac++;
    }
    SX_ASSERT(ok && dig > 0, "a real prints as a plain decimal number");
    SX_ASSERT(frac <= p, "a real prints with at most the requested decimals");
    SX_ASSERT(!dot || (s.back() != '0' && s.back() != '.'), "a real prints without superfluous trailing zeros");
    SX_ASSERT(i + 1 >= s.size() || s[i] != '0' || s[i + 1] == '.', "a real prints without superfluous leading zeros");
    // exact comparison: |num * 10^-frac - |d|| <= 10^-p / 2
    int e; double fr = frexp(fabs(d), &e); uint64_t mant = (uint64_t)ldexp(fr, 53); e -= 53;       // |d| = mant * 2^e
    if (d == 0) SX_ASSERT(num == 0, "zero prints as zero");
    else if (e < 0 && e > -70)
    {
        __int128 lhs = (__int128)(num * P10[p - frac]);             // in units of 10^-p
        // |lhs - mant*2^e*10^p| <= 1/2  <=>  |lhs*2^-e - mant*10^p| * 2 <= 2^-e
        __int128 a = lhs << -e, b = (__int128)mant * P10[p], df = a > b ? a - b : b - a;
        SX_ASSERT(df * 2 <= ((__int128)1 << -e), "a real prints correctly rounded to the precision");
        SX_ASSERT(num == 0 || (s[0] == '-') == (d < 0), "a real prints its sign");
        __sx_reach("rounded");
    }
    bool end;
    PdfVariant r = parseVariant(s, &end);
    double back = 0;
    SX_ASSERT(end && r.TryGetReal(back), "a printed real reads back as a number");
    SX_ASSERT(fabs(back - d) <= 0.5000001 / (double)P10[p] + fabs(d) * 1e-15, "a real reads back within the precision");
    __sx_reach("real");
}
static void variantReal(int64_t m, unsigned k)
{
    double d = (double)m / (double)P10[k];
    string out = toStr(PdfVariant(d), PdfWriteFlags::NoInlineLiteral);
    for (char c : out) SX_ASSERT((c >= '0' && c <= '9') || c == '-' || c == '.', "a real object prints as a plain decimal number");
    PdfVariant r = parseVariant(out);
    double back;
    SX_ASSERT(r.TryGetReal(back) && fabs(back - d) <= 0.0000005000001 + fabs(d) * 1e-15, "a real object reads back within the precision");
    __sx_reach("object");
}
void sx_harness()
{
    bool neg; 
    switch (__sx_range("case", 0, 8))
    {
        case 0: integer((int64_t)rng("n", 0, deep() ? 65535 : 4095) - (deep() ? 32768 : 1024)); break;
        case 1: {                                                                             // around every power of ten
            uint64_t p = P10[__sx_pin(rng("k", 4, 18))]; unsigned f = (unsigned)__sx_pin(rng("f", 1, deep() ? 9 : 3));
            neg = pinBool("neg"); int64_t n = (int64_t)(p * (f == 3 && p < P10[18] ? 9 : f) - 8 + rng("d", 0, deep() ? 255 : 15));
            integer(neg ? -n : n); break; }
        case 2: {                                                                             // around every power of two
            unsigned k = (unsigned)__sx_pin(rng("k", 15, 63));
            uint64_t n = (1ull << k) - 8 + rng("d", 0, 15);
            integer((int64_t)n); break; }
        case 3: fmtInt<signed char>(symVal<signed char>("v")); fmtInt<unsigned char>(symVal<unsigned char>("u")); break;
        case 4: if (pinBool("s")) fmtInt<short>(symVal<short>("v")); else fmtInt<unsigned short>(symVal<unsigned short>("u")); break;
        case 5: {
            unsigned k = (unsigned)__sx_pin(rng("k", 15, 63)); uint64_t n = (1ull << k) - 2 + rng("d", 0, 3);
            switch (rng("t", 0, 5))
            {
                case 0: fmtInt<int>((int)n); break; case 1: fmtInt<unsigned>((unsigned)n); break; case 2: fmtInt<long>((long)n); break;
                case 3: fmtInt<unsigned long>((unsigned long)n); break; case 4: fmtInt<long long>((long long)n); break; default: fmtInt<unsigned long long>((unsigned long long)n); break;
            }
            break; }
        case 6: {                                                                             // reals: conversion value by value
            int64_t m = (int64_t)__sx_pin(rng("m", 0, deep() ? 2999 : 299)); unsigned p = (unsigned)__sx_pin(rng("p", 0, 6));
            unsigned k = (unsigned)__sx_pin(rng("k", 0, deep() ? 6 : 3));
            real(pinBool("neg") ? -m : m, k, p, false); break; }
        case 7: {
            static const int64_t M[] = { 1, 5, 15, 25, 49, 50, 51, 99, 100, 999, 1000, 1005, 12345, 99995, 999995, 1234567, 9999999, 123456789, 999999999, 4294967296ll, 123456789012ll };
            int64_t m = M[__sx_pin(rng("m", 0, 20))]; unsigned p = (unsigned)__sx_pin(rng("p", 0, deep() ? 10 : 6)), k = (unsigned)__sx_pin(rng("k", 0, 10));
            real(pinBool("neg") ? -m : m, k, p, pinBool("f")); break; }
        default: {
            int64_t m = (int64_t)__sx_pin(rng("m", 0, deep() ? 2999 : 299)); unsigned k = (unsigned)__sx_pin(rng("k", 0, deep() ? 9 : 7));
            variantReal(pinBool("neg") ? -m : m * 1001, k); break; }
    }
}
