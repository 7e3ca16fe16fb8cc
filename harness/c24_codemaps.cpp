// C24: character code maps
#include <random>
// The order in which mappings enter the lookup tree is drawn at random by the library; here the draws are symbolic
extern "C" void __sx_make(void* p, unsigned long n, const char* name);
namespace std { template <> mt19937::result_type mt19937::operator()() { unsigned char v; __sx_make(&v, 1, "draw"); return (result_type)v << 24 | 0x800000; } }
#include "common.h"
#include <pdfmm/base/PdfCharCodeMap.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
using CPs = vector<codepoint>;
struct Entry { PdfCharCode code; CPs cps; };
// the last mapping of each code
struct Model
{
    vector<Entry> all;
    void push(PdfCharCode c, const CPs& p) { all.push_back({ c, p }); }
    bool live(unsigned i) const
    {
        for (unsigned j = i + 1; j < all.size(); j++) if (all[j].code.Code == all[i].code.Code && all[j].code.CodeSpaceSize == all[i].code.CodeSpaceSize) return false;
        return true;
    }
    const CPs* find(PdfCharCode c) const
    {
        for (unsigned i = all.size(); i-- > 0; ) if (all[i].code.Code == c.Code && all[i].code.CodeSpaceSize == c.CodeSpaceSize) return &all[i].cps;
        return nullptr;
    }
    bool maps(const CPs& p) const
    {
        for (unsigned i = 0; i < all.size(); i++) if (live(i) && all[i].cps == p) return true;
        return false;
    }
};
static const char32_t Letters[] = { 'a', 0xE9, 0x20AC, 0x1F600 };
static CPs letters(unsigned n, unsigned alpha)
{
    CPs r;
    for (unsigned i = 0; i < n; i++) r.push_back(alpha == 2 ? (char32_t)('a' + rng("letter", 0, 1)) : Letters[pin("letter", alpha - 1)]);
    return r;
}
static void push(PdfCharCodeMap& m, Model& mod, PdfCharCode c, const CPs& p)
{
    if (p.size() == 1 && pin("single", 1)) m.PushMapping(c, p[0]);
    else m.PushMapping(c, p);
    mod.push(c, p);
}
static void checkLookup(const PdfCharCodeMap& m, const Model& mod, PdfCharCode q)
{
    CPs got = { 7, 7 };
    bool ok = m.TryGetCodePoints(q, got);
    const CPs* want = mod.find(q);
    SX_ASSERT(ok == (want != nullptr), "exactly the codes given map to code points");
    if (ok) SX_ASSERT(got == *want, "a code maps to the last code points given");
    else SX_ASSERT(got.empty(), "an absent code has no code points");
}
static void checkReverse(const PdfCharCodeMap& m, const Model& mod, const CPs& q)
{
    PdfCharCode c(77, 3);
    bool ok = m.TryGetCharCode(q, c);
    SX_ASSERT(ok == mod.maps(q), "a sequence has a code if and only if a code maps to it");
    if (ok) { auto p = mod.find(c); SX_ASSERT(p != nullptr && *p == q, "the code found maps to the sequence"); }
    else SX_ASSERT(c.CodeSpaceSize == 0, "no code is given for an absent sequence");
    if (q.size() != 1) return;
    PdfCharCode d(77, 3);
    SX_ASSERT(m.TryGetCharCode(q[0], d) == ok, "a code point has a code if and only if a code maps to it alone");
    if (ok) { auto p = mod.find(d); SX_ASSERT(p != nullptr && *p == q, "the code found maps to the code point"); }
    else SX_ASSERT(d.CodeSpaceSize == 0, "no code is given for an absent code point");
}
static void checkText(const PdfCharCodeMap& m, const Model& mod, const CPs& text)
{
    string s; vector<unsigned> at;
    for (auto c : text) { at.push_back((unsigned)s.size()); putUtf8(s, c); }
    at.push_back((unsigned)s.size());
    string_view sv(s);
    auto it = sv.begin(), end = sv.end();
    unsigned pos = 0;
    while (it != end)
    {
        unsigned best = 0;
        for (unsigned n = 1; pos + n <= text.size(); n++) if (mod.maps(CPs(text.begin() + pos, text.begin() + pos + n))) best = n;
        PdfCharCode c(77, 3);
        bool ok = m.TryGetNextCharCode(it, end, c);
        SX_ASSERT(ok == (best != 0), "a code is found if and only if a mapping starts here");
        if (ok)
        {
            auto p = mod.find(c);
            SX_ASSERT(p != nullptr && *p == CPs(text.begin() + pos, text.begin() + pos + best), "the code maps to the longest matching code points");
            pos += best;
            if (best > 1) __sx_reach("ligature");
        }
        else { SX_ASSERT(c.CodeSpaceSize == 0, "no code is given"); pos++; }
        SX_ASSERT((unsigned)(it - sv.begin()) == at[pos], "the matched text is consumed, or one code point");
    }
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 5))
    {
    case 0: // any codes and code points
    {
        PdfCharCodeMap m; Model mod;
        unsigned n = 1 + pin("n", deep() ? 2 : 1);
        for (unsigned i = 0; i < n; i++)
        {
            PdfCharCode c(symVal<unsigned>("code"), (unsigned char)rng("size", 1, 4));
            CPs p; unsigned k = 1 + pin("k", 1);
            for (unsigned j = 0; j < k; j++) p.push_back(symVal<char32_t>("cp"));
            push(m, mod, c, p);
        }
        PdfCharCode q(symVal<unsigned>("code"), (unsigned char)rng("size", 1, 4));
        checkLookup(m, mod, q);
        unsigned distinct = 0, lo = ~0u, hi = 0, smin = 255, smax = 0;
        for (unsigned i = 0; i < mod.all.size(); i++)
        {
            if (mod.live(i)) distinct++;
            auto& c = mod.all[i].code;
            lo = c.Code < lo ? c.Code : lo; hi = c.Code > hi ? c.Code : hi;
            smin = c.CodeSpaceSize < smin ? c.CodeSpaceSize : smin; smax = c.CodeSpaceSize > smax ? c.CodeSpaceSize : smax;
        }
        SX_ASSERT(m.GetSize() == distinct, "the size is the number of codes");
        auto& l = m.GetLimits();
        SX_ASSERT(l.FirstChar.Code == lo && l.LastChar.Code == hi && l.MinCodeSize == smin && l.MaxCodeSize == smax && l.AreValid(), "the limits bound the codes and their sizes");
        unsigned seen = 0; const PdfCharCode* prev = nullptr;
        for (auto& pair : m)
        {
            auto p = mod.find(pair.first);
            SX_ASSERT(p != nullptr && *p == pair.second, "iterating gives the mappings");
            if (prev) SX_ASSERT(prev->Code <= pair.first.Code && !(*prev == pair.first), "iterating gives the codes in order, once");
            prev = &pair.first; seen++;
        }
        SX_ASSERT(seen == distinct, "iterating gives all mappings");
        __sx_reach("forward");
        break;
    }
    case 1: // the codes of any code points
    {
        PdfCharCodeMap m; Model mod;
        unsigned n = 1 + pin("n", deep() ? 2 : 1);
        for (unsigned i = 0; i < n; i++)
        {
            CPs p; unsigned k = 1 + pin("k", 1);
            for (unsigned j = 0; j < k; j++) p.push_back(symVal<char32_t>("cp"));
            push(m, mod, PdfCharCode(i, 1), p);
        }
        CPs q; unsigned k = pin("k", deep() ? 3 : 2);
        for (unsigned j = 0; j < k; j++) q.push_back(symVal<char32_t>("cp"));
        checkReverse(m, mod, q);
        __sx_reach("reverse");
        break;
    }
    case 2: // histories with replaced mappings, with lookups in between
    {
        PdfCharCodeMap m; Model mod;
        unsigned n = deep() ? 3 : 2;
        for (unsigned i = 0; i < n; i++)
        {
            push(m, mod, PdfCharCode(pin("code", 1), 1), letters(1 + pin("k", 1), 2));
            if (i + 1 < n && (i == 0 || !pin("query", 1))) continue;
            checkReverse(m, mod, letters(1 + pin("k", 1), 2));
        }
        checkLookup(m, mod, PdfCharCode(pin("code", 1), 1));
        __sx_reach("history");
        break;
    }
    case 3: // the next code of texts
    {
        PdfCharCodeMap m; Model mod;
        static const unsigned lens[][3] = { { 1, 2, 3 }, { 1, 3, 0 }, { 2, 3, 0 }, { 1, 1, 2 }, { 3, 3, 0 } };
        unsigned w = pin("lens", deep() ? 4 : 1);
        for (unsigned i = 0; i < 3 && lens[w][i]; i++) push(m, mod, PdfCharCode(i + 1, 1), letters(lens[w][i], 2));
        checkText(m, mod, letters(1 + pin("len", deep() ? 3 : 2), 2));
        break;
    }
    case 4: // code points of all lengths in UTF-8
    {
        PdfCharCodeMap m; Model mod;
        push(m, mod, PdfCharCode(0x41, 1), letters(1, 4));
        push(m, mod, PdfCharCode(0x141, 2), letters(2, 4));
        checkText(m, mod, letters(2, 4));
        break;
    }
    case 5: // moves and errors
    {
        PdfCharCodeMap a; Model ma, mb;
        push(a, ma, PdfCharCode(1, 1), letters(1, 2));
        if (pin("query", 1)) checkReverse(a, ma, letters(1, 2));
        PdfCharCodeMap b;
        if (pin("full", 1)) push(b, mb, PdfCharCode(2, 1), letters(1, 2));
        if (pin("queryb", 1)) checkReverse(b, mb, letters(1, 2));
        b = std::move(a);
        checkReverse(b, ma, letters(1, 2));
        checkLookup(b, ma, PdfCharCode(1 + pin("q", 1), 1));
        PdfCharCodeMap c(std::move(b));
        checkReverse(c, ma, letters(1, 2));
        for (int i = 0; i < 3; i++)
        {
            bool threw = false;
            try
            {
                if (i == 0) c.PushMapping(PdfCharCode(2, 1), CPs());
                if (i == 1) c.PushMapping(PdfCharCode(), 'a');
                if (i == 2) c.PushMapping(PdfCharCode(0, 0), CPs{ 'a', 'b' });
            }
            catch (const PdfError&) { threw = true; }
            SX_ASSERT(threw, "empty mappings and undefined codes are errors");
        }
        SX_ASSERT(c.GetSize() == 1, "mappings in error are not added");
        checkLookup(c, ma, PdfCharCode(2, 1));
        __sx_reach("moved");
        break;
    }
    }
}
