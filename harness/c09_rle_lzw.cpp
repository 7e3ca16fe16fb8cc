#include "common.h"
#include <pdfmm/base/PdfFilter.h>
static string run(PdfFilterType t, const string& s, size_t cut, const PdfDictionary* parms = nullptr, size_t cut2 = ~(size_t)0)
{
    if (cut2 > s.size()) cut2 = s.size();
    string out; { StringStreamDevice dev(out); auto f = PdfFilterFactory::Create(t);
    f->BeginDecode(dev, parms);
    f->DecodeBlock(bufferview(s.data(), cut)); f->DecodeBlock(bufferview(s.data() + cut, cut2 - cut)); f->DecodeBlock(bufferview(s.data() + cut2, s.size() - cut2));
    f->EndDecode(); }
    return out;
}
static void rle(const string& s)
{
    string ref;
    for (size_t i = 0; i < s.size();)
    {
        unsigned L = (unsigned)__sx_pin((unsigned char)s[i++]);
        if (L == 128) break;
        if (L < 128) { for (unsigned k = 0; k <= L && i < s.size(); k++) ref.push_back(s[i++]); }
        else if (i < s.size()) ref.append(257 - L, s[i++]);
    }
    size_t cut = __sx_pin(rng("cut", 0, s.size() < 6 ? s.size() : 5)); if (cut > 3 && s.size() >= 6) cut = cut == 4 ? s.size() / 2 : s.size() - 1;
    string out = run(PdfFilterType::RunLengthDecode, s, cut);
    SX_ASSERT(out == ref, "run lengths decode as the specification says");
    __sx_reach("rle");
}
// LZW: codes of growing width, most significant bit first
struct Bits { string s; unsigned acc = 0, n = 0; void put(unsigned v, unsigned w) { acc = acc << w | v; n += w; while (n >= 8) { s.push_back((char)(acc >> (n - 8))); n -= 8; } } string end() { if (n) s.push_back((char)(acc << (8 - n))); return s; } };
struct Lzw
{
    vector<string> t; string prev; bool has = false, done = false; unsigned w = 9, early; Bits b; string out;
    explicit Lzw(unsigned e) : early(e) { reset(); }
    void reset() { t.clear(); for (int i = 0; i < 256; i++) t.push_back(string(1, (char)i)); t.push_back(""); t.push_back(""); has = false; w = 9; }
    bool valid(unsigned c) { return c == 256 || c == 257 || (c < 256) || (has ? c <= t.size() && t.size() < 4095 : c < 256) ; }
    void code(unsigned c)
    {
        b.put(c, w);
        if (done) return;
        if (c == 256) { reset(); return; }
        if (c == 257) { done = true; return; }
        string e = c < t.size() ? t[c] : prev + prev[0];
        out += e;
        if (has) { t.push_back(prev + e[0]); if (t.size() + early >= 512 && w < 10) w = 10; if (t.size() + early >= 1024 && w < 11) w = 11; if (t.size() + early >= 2048 && w < 12) w = 12; }
        prev = e; has = true;
    }
};
// a stream of n literal codes, then symbolically chosen codes
static void lzw(unsigned fill, unsigned picks, unsigned early, bool clear)
{
    Lzw z(early); if (clear) z.code(256);
    for (unsigned i = 0; i < fill; i++) z.code('a' + i % 3 + (i * 7 % 11));
    for (unsigned i = 0; i < picks; i++)
    {
        unsigned c;
        switch (__sx_pin(rng("code", 0, 6)))
        {
            case 0: c = 'x'; break;
            case 1: c = (unsigned)z.t.size(); break;           // the entry being defined
            case 2: c = (unsigned)z.t.size() - 1; break;
            case 3: c = 258; break;
            case 4: c = 256; break;
            case 5: c = 257; break;
            default: c = (unsigned char)__sx_pin(rng("literal", 0, 1) * 255); break;
        }
        if (!z.valid(c) || z.t.size() >= 4094) __sx_end();
        z.code(c);
    }
    if (sx_bool("eod") && !z.done) { z.code(257); }
    string s = z.b.end();
    PdfDictionary parms; parms.AddKey("EarlyChange", PdfObject((int64_t)early));
    size_t lo = s.size() > 4 ? s.size() - 4 : 0, cut = __sx_pin(rng("cut", 0, s.size() - lo)) + lo, cut2 = cut + (cut < s.size() ? 1 : 0);
    string out = run(PdfFilterType::LZWDecode, s, cut, early == 1 && fill % 2 == 1 ? nullptr : &parms, cut2);
    SX_ASSERT(out == z.out, "LZW codes decode as the specification says");
    if (fill > 250) __sx_reach("width");
    __sx_reach("lzw");
}
void sx_harness()
{
    switch (__sx_range("case", 0, 6))
    {
        case 0: rle(symStr("in", 0, deep() ? 3 : 2)); break;
        case 1: { // every count with a full run behind it
            unsigned L = (unsigned)__sx_pin(rng("L", 0, 255)); string s(1, (char)L); unsigned n = L < 128 ? L + 1 : 1; for (unsigned i = 0; i < n; i++) s.push_back((char)(i * 37 + 200)); if (sx_bool("more")) { s += sx_bool("eod") ? "\x80" : string(1, '\0'); s += symBytes("in", 1); } rle(s); break; }
        case 2: { static const unsigned char P[] = { 0, 1, 2, 128, 254, 255, 253, 127, 129 }; string s = symBytes("in", deep() ? 6 : 5);
            for (size_t i = 0; i < s.size(); i += 2) { s[i] = (char)P[__sx_pin(rng("L", 0, deep() ? 7 : 4))]; } rle(s); break; }
        case 3: lzw((unsigned)__sx_pin(rng("fill", 0, 2)), deep() ? 5 : 3, (unsigned)__sx_pin(rng("early", 0, 1)), sx_bool("clear")); break;
        case 4: lzw((unsigned)__sx_pin(rng("fill", 250, 257)), deep() ? 4 : 2, (unsigned)__sx_pin(rng("early", 0, 1)), true); break;
        case 5: lzw((unsigned)__sx_pin(rng("fill", 764, 769)), deep() ? 3 : 2, (unsigned)__sx_pin(rng("early", 0, 1)), true); break;
        default: lzw((unsigned)__sx_pin(rng("fill", 1788, 1793)), deep() ? 2 : 1, (unsigned)__sx_pin(rng("early", 0, 1)), true); break;
    }
}
