#pragma once
// One textual form per value, and symbolic construction of values.
#include "common.h"
static inline void putNum(string& r, int64_t n) { if (n < 0) { r += '-'; n = -n; } r += std::to_string((unsigned long)__sx_pin((uint64_t)n)); }
// the bytes of a string as they are stored: raw data, or its text in ASCII or UTF-16
static inline string stored(const PdfString& s)
{
    if (s.GetState() == PdfStringState::RawBuffer) return s.GetRawData();
    const string& t = s.GetString(); bool ascii = true; for (unsigned char c : t) ascii &= c < 128;
    if (ascii) return t;
    string r("\xfe\xff", 2);
    for (size_t i = 0; i < t.size(); i++)
    {
        uint32_t c = (unsigned char)t[i];
        if (c >= 0xE0) { c = (c & 15) << 12 | ((unsigned char)t[i + 1] & 63) << 6 | ((unsigned char)t[i + 2] & 63); i += 2; }
        else if (c >= 0xC0) { c = (c & 31) << 6 | ((unsigned char)t[i + 1] & 63); i++; }
        r.push_back((char)(c >> 8)); r.push_back((char)c);
    }
    return r;
}
static inline void show(string& r, const PdfVariant& v)
{
    switch (v.GetDataType())
    {
        case PdfDataType::Null: r += "N"; break;
        case PdfDataType::Bool: r += v.GetBool() ? "T" : "F"; break;
        case PdfDataType::Number: r += "#"; putNum(r, v.GetNumber() * 1000); break;
        case PdfDataType::Real: r += "#"; putNum(r, (int64_t)std::llround(v.GetReal() * 1000)); break;    // an integral real is written as an integer
        case PdfDataType::Name: r += "/"; r += v.GetName().GetRawData(); r += ' '; break;
        case PdfDataType::String: r += v.GetString().IsHex() ? "<" : "("; r += stored(v.GetString()); r += ")"; break;
        case PdfDataType::Reference: r += "R"; putNum(r, v.GetReference().ObjectNumber()); r += ","; putNum(r, v.GetReference().GenerationNumber()); break;
        case PdfDataType::Array: r += "["; for (auto& e : v.GetArray()) { show(r, e.GetVariant()); r += " "; } r += "]"; break;
        case PdfDataType::Dictionary:
            r += "{";
            for (auto& e : v.GetDictionary()) if (!e.second.GetVariant().IsNull()) { r += e.first.GetRawData(); r += "="; show(r, e.second.GetVariant()); r += " "; }
            r += "}"; break;
        default: r += "?";
    }
}
static inline string show(const PdfVariant& v) { string r; show(r, v); return r; }
static const unsigned LEAVES = 13;
static bool fewNames = false;       // names from a short list only (files with text of undecided length after them are costly)
static inline PdfVariant leaf(unsigned k)
{
    switch (k)
    {
        case 0: return PdfVariant();
        case 1: return PdfVariant((int64_t)7);
        case 2: return PdfVariant((int64_t)-12);
        case 3: return PdfVariant(PdfReference(3, 0));
        case 4: if (fewNames) { static const char* const N[] = { "n", "a b", "#", "/", "\x80" }; return PdfVariant(PdfName::FromRaw(string_view(N[__sx_pin(rng("name", 0, 4))]))); } else { string s = symBytes("n", 1); __sx_assume(s[0] != 0); return PdfVariant(PdfName::FromRaw(bufferview(s.data(), s.size()))); }
        case 5: { string s = symBytes("s", 1); return PdfVariant(PdfString::FromRaw(bufferview(s.data(), s.size()), false)); }
        case 6: return PdfVariant(true);
        case 7: return PdfVariant(2.5);
        case 8: { string s = symBytes("h", 1); return PdfVariant(PdfString::FromRaw(bufferview(s.data(), s.size()), true)); }
        case 9: return PdfVariant(PdfString::FromRaw(bufferview("", (size_t)0), true));
        case 10: return PdfVariant(false);
        case 11: return PdfVariant(-0.125);
        default: return PdfVariant(PdfName());
    }
}
static inline PdfVariant value(unsigned depth, unsigned leaves, unsigned width = 2)
{
    unsigned k = (unsigned)__sx_pin(rng("kind", 0, leaves - 1 + (depth ? 2 : 0)));
    if (k < leaves) return leaf(k);
    unsigned n = (unsigned)__sx_pin(rng("count", 0, width));
    if (k == leaves) { PdfArray a; for (unsigned i = 0; i < n; i++) a.Add(PdfObject(value(depth - 1, leaves, width))); return PdfVariant(a); }
    static const char* const keys[] = { "K", "Type", "L" };
    PdfDictionary d; for (unsigned i = 0; i < n; i++) d.AddKey(keys[i], PdfObject(value(depth - 1, leaves, width))); return PdfVariant(d);
}
