#pragma once
#include "symx.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/pdfmm.h>
#include <pdfmm/base/PdfTokenizer.h>
#include <string>
#include <vector>
using std::string; using std::string_view; using std::vector;
using namespace mm;

// ---- symbolic data
static inline unsigned rng(const char* n, unsigned lo, unsigned hi) { return (unsigned)__sx_range(n, lo, hi); }
static inline bool deep() { return __sx_tier() != 0; }
static inline string symBytes(const char* name, size_t n) { char b[256]; if (n) __sx_make(b, n, name); return string(b, n); }
// n symbolic bytes, 0..maxlen of them (length is explored value by value)
static inline string symStr(const char* name, unsigned minlen, unsigned maxlen)
{
    unsigned n = (unsigned)__sx_pin(rng("len", minlen, maxlen));
    return symBytes(name, n);
}
template <typename T> static inline T symVal(const char* name) { T v; __sx_make(&v, sizeof v, name); return v; }

static inline bufferview bv(const string& s) { return bufferview(s.data(), s.size()); }
// ---- reading back what the library wrote
struct HeldDev { string s; SpanStreamDevice d; explicit HeldDev(string x) : s(std::move(x)), d(bufferview(s.data(), s.size())) { } };
static inline std::shared_ptr<SpanStreamDevice> devOf(string s) { auto h = std::make_shared<HeldDev>(std::move(s)); return std::shared_ptr<SpanStreamDevice>(h, &h->d); }
static inline PdfVariant parseVariant(const string& s, bool* atEnd = nullptr)
{
    auto dev = devOf(s);
    PdfTokenizer tok; PdfVariant v;
    tok.ReadNextVariant(*dev, v);
    if (atEnd)
    {
        string_view t; PdfTokenType tt;
        *atEnd = !tok.TryReadNextToken(*dev, t, tt);
    }
    return v;
}
static inline string toStr(const PdfVariant& v, PdfWriteFlags f = PdfWriteFlags::None)
{
    string out; StringStreamDevice dev(out);
    charbuff buf;
    v.Write(dev, f, { }, buf);
    return out;
}

// ---- reference Unicode
static inline void putUtf8(string& s, uint32_t c)
{
    if (c < 0x80) s.push_back((char)c);
    else if (c < 0x800) { s.push_back((char)(0xC0 | c >> 6)); s.push_back((char)(0x80 | (c & 63))); }
    else if (c < 0x10000) { s.push_back((char)(0xE0 | c >> 12)); s.push_back((char)(0x80 | (c >> 6 & 63))); s.push_back((char)(0x80 | (c & 63))); }
    else { s.push_back((char)(0xF0 | c >> 18)); s.push_back((char)(0x80 | (c >> 12 & 63))); s.push_back((char)(0x80 | (c >> 6 & 63))); s.push_back((char)(0x80 | (c & 63))); }
}
static inline void putUtf16(string& s, uint32_t c)
{
    auto u = [&](uint32_t v) { s.push_back((char)(v >> 8)); s.push_back((char)v); };
    if (c < 0x10000) u(c);
    else { c -= 0x10000; u(0xD800 | c >> 10); u(0xDC00 | (c & 0x3FF)); }
}
// ---- PDF character classes (ISO 32000, 7.2.2)
static inline bool isWs(unsigned char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static inline bool isDelim(unsigned char c)
{
    return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '{' || c == '}' || c == '/' || c == '%';
}
static inline bool isRegular(unsigned char c) { return !isWs(c) && !isDelim(c); }
static inline int hexVal(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
