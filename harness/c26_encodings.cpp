// C26: text encodings
#include "common.h"
#include "zmodel.h"
#include "encref.h"
#include <pdfmm/base/PdfEncodingMapFactory.h>
#include <pdfmm/base/PdfEncodingFactory.h>
#include <pdfmm/base/PdfDifferenceEncoding.h>
#include <pdfmm/base/PdfCMapEncoding.h>
#include <pdfmm/base/PdfIdentityEncoding.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static PdfEncodingMapConstPtr base(unsigned k)
{
    switch (k)
    {
    case 0: return PdfEncodingMapFactory::WinAnsiEncodingInstance();
    case 1: return PdfEncodingMapFactory::MacRomanEncodingInstance();
    case 2: return PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::CourierBold);
    case 3: return PdfEncodingMapFactory::MacExpertEncodingInstance();
    case 4: return PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::Symbol);
    default: return PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::ZapfDingbats);
    }
}
static unsigned ref(unsigned k, unsigned c)
{
    switch (k)
    {
    case 0: return RefWin[c]; case 1: return RefMac[c]; case 2: return c == 0x60 ? 0x60 : RefStd[c]; // the library keeps the ASCII character here
    case 3: return RefExpert[c]; case 4: return RefSymbol[c]; default: return RefZapf[c];
    }
}
static unsigned Tab[256]; // what the codes of the encoding under test stand for (0: undefined)
static void fill(unsigned k) { for (unsigned i = 0; i < 256; i++) Tab[i] = ref(k, i); }
static bool defined(unsigned cp) { for (unsigned i = 0; i < 256; i++) if (Tab[i] == cp) return true; return false; }
static void checkMap(const PdfEncodingMap& m, unsigned code)
{
    vector<char32_t> got = { 9, 9 };
    bool ok = m.TryGetCodePoints(PdfCharCode(code, 1), got);
    unsigned want = code < 256 ? Tab[code] : 0;
    if (ok) SX_ASSERT((got.size() == 1) & (got[0] == want), "a code stands for its character");
    else SX_ASSERT(want == 0, "every defined code is mapped");
}
static void checkReverse(const PdfEncodingMap& m, unsigned cp)
{
    PdfCharCode c;
    bool ok = m.TryGetCharCode((char32_t)cp, c);
    SX_ASSERT(ok == defined(cp), "exactly the characters of the encoding have a code");
    if (ok) SX_ASSERT(c.CodeSpaceSize == 1 && c.Code < 256 && Tab[c.Code] == cp, "the code of a character stands for it");
}
static const struct { const char* name; unsigned cp; } Glyphs[] =
{
    { "A", 'A' }, { "Euro", 0x20AC }, { "eacute", 0xE9 }, { "uni20AC", 0x20AC }, { "fi", 0xFB01 }, { "g12", 0 }, { ".notdef", 0 }, { "uni12", 0 }, { "bullet", 0x2022 }, { "uni1F600", 0x1F600 }, { "space", ' ' }
};
enum { NGlyphs = sizeof Glyphs / sizeof *Glyphs };
static const unsigned Codes[] = { 0x41, 0xFF, 0x00, 0x80, 0x42, 0xFE };
// decoded text of a string of one-byte codes
static string decoded(const string& s) { string r; for (unsigned char c : s) if (Tab[c] != 0) putUtf8(r, Tab[c]); return r; }
// a font read from a dictionary
static PdfMemDocument* Doc;
static std::unique_ptr<PdfFont> font(const char* subtype, PdfObject** encoding = nullptr, bool dict = true)
{
    PdfObject& o = Doc->GetObjects().CreateDictionaryObject();
    o.GetDictionary().AddKey("Type", PdfName("Font"));
    o.GetDictionary().AddKey("Subtype", PdfName(subtype));
    o.GetDictionary().AddKey("BaseFont", PdfName("F"));
    PdfDictionary d; d.AddKey("FontName", PdfName("F"));
    o.GetDictionary().AddKey("FontDescriptor", d);
    (void)dict;
    if (encoding) o.GetDictionary().AddKey("Encoding", **encoding);
    std::unique_ptr<PdfFont> f;
    if (!PdfFont::TryCreateFromObject(o, f)) return nullptr;
    return f;
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 7))
    {
    case 0: // predefined encodings
    {
        unsigned k = pin("map", 5); fill(k);
        auto m = base(k);
        unsigned code = symVal<unsigned>("code");
        if (code < 256) checkMap(*m, __sx_pin(code));
        else { vector<char32_t> got; SX_ASSERT(!m->TryGetCodePoints(PdfCharCode(code, 1), got), "codes beyond one byte are not mapped"); }
        __sx_reach("predefined");
        break;
    }
    case 1: // characters of predefined encodings
    {
        static const unsigned pages[] = { 0x0000, 0x0100, 0x2000, 0x2200, 0xFB00, 0x0300, 0x2100, 0xF700, 0xF800, 0x2700, 0x1F600 };
        unsigned k = pin("map", 5); fill(k);
        unsigned cp = pages[pin("page", 10)] | __sx_pin(rng("low", 0, 255));
        __sx_assume(cp != 0);
        if (!deep()) __sx_assume(cp < 0x100 || (cp & 15) == 1 || (cp & 15) == 12);
        checkReverse(*base(k), cp);
        __sx_reach("reverse");
        break;
    }
    case 2: // differences over a predefined encoding, in any order of addition
    {
        unsigned k = deep() ? pin("map", 5) : pin("map", 1) * 2, n = 1 + pin("n", 1); fill(k);
        PdfDifferenceList list;
        unsigned codes = 0;
        for (unsigned i = 0; i < n; i++)
        {
            unsigned c = Codes[pin("at", deep() ? 3 : 2)], g = pin("glyph", deep() ? 3 : 2), how = pin("how", 2);
            if (how == 0) { list.AddDifference((unsigned char)c, PdfName(Glyphs[g].name)); Tab[c] = Glyphs[g].cp; }
            else if (how == 1) { unsigned cp = g & 1 ? 0x1F600 : 0x42; list.AddDifference((unsigned char)c, (char32_t)cp); Tab[c] = cp; }
            else { list.AddDifference((unsigned char)c, PdfName(Glyphs[g].name), true); Tab[c] = c; }
            codes |= 1u << (c >> 3);
        }
        unsigned bits = 0; for (unsigned i = 0; i < 32; i++) bits += codes >> i & 1;
        PdfDifferenceEncoding m(list, base(k));
        if (pin("reverse", 1)) { static const unsigned cps[] = { 'A', 'B', 0x20AC, 0x1F600, 0xE9, 'C', 0xFB01, 0x41, 0xFF, 0x2022, 0xEFEF }; checkReverse(m, cps[pin("cp", 10)]); __sx_reach("difference reverse"); }
        else { unsigned c = rng("code", 0, 300); if (c > 255) c = 256; else c = deep() && n == 1 ? __sx_pin(c) : Codes[c % 6]; checkMap(m, c); __sx_reach("difference"); }
        break;
    }
    case 3: // /Differences arrays, read and written
    {
        Doc = new PdfMemDocument();
        unsigned k = pin("base", 3); bool type3 = k == 0 && pin("type3", 1);
        if (k == 3) fill(2); else fill(k == 2 ? 3 : k);
        PdfObject enc{ PdfDictionary() };
        static const char* names[] = { "WinAnsiEncoding", "MacRomanEncoding", "MacExpertEncoding" };
        if (k < 3) enc.GetDictionary().AddKey("BaseEncoding", PdfName(names[k]));
        PdfArray a;
        unsigned n = pin("n", 3);
        long cur = -1;
        for (unsigned i = 0; i < n; i++)
        {
            unsigned what = pin("what", deep() ? 10 : 7);
            static const long nums[] = { 65, 255, 254, -1, 256, 0, 321 };
            if (what < (deep() ? 5 : 4)) { cur = nums[what]; a.Add(PdfObject((int64_t)cur)); }
            else
            {
                unsigned g = what - (deep() ? 5 : 4);
                a.Add(PdfName(Glyphs[g].name));
                if (cur >= 0 && cur <= 255) { Tab[cur] = type3 ? (unsigned)cur : Glyphs[g].cp; cur++; }
            }
        }
        if (n) enc.GetDictionary().AddKey("Differences", a);
        PdfObject* e = &enc;
        auto f = font(type3 ? "Type3" : "Type1", &e);
        SX_ASSERT(f != nullptr, "the font is read");
        auto& m = f->GetEncoding().GetEncodingMap();
        unsigned c = Codes[pin("code", 5)];
        checkMap(m, c);
        if (!type3)
        {
            // written and read again
            PdfName nm; PdfObject* obj = nullptr;
            SX_ASSERT(m.TryGetExportObject(Doc->GetObjects(), nm, obj) && obj != nullptr, "an encoding with differences is written as a dictionary");
            auto f2 = font("Type1", &obj);
            checkMap(f2->GetEncoding().GetEncodingMap(), c);
            __sx_reach("exported");
        }
        __sx_reach("array");
        break;
    }
    case 4: // texts through the encoding of a font
    {
        Doc = new PdfMemDocument();
        unsigned k = pin("base", 2);
        PdfObject enc{ PdfName(k == 0 ? "WinAnsiEncoding" : "MacRomanEncoding") };
        fill(k & 1);
        if (k == 2)
        {
            fill(0);
            enc = PdfDictionary(); enc.GetDictionary().AddKey("BaseEncoding", PdfName("WinAnsiEncoding"));
            PdfArray a; a.Add(PdfObject((int64_t)0x41)); a.Add(PdfName("Euro")); a.Add(PdfName("uni1F600")); a.Add(PdfName("g12")); a.Add(PdfObject((int64_t)0x80)); a.Add(PdfName("B"));
            enc.GetDictionary().AddKey("Differences", a);
            Tab[0x41] = 0x20AC; Tab[0x42] = 0x1F600; Tab[0x43] = 0; Tab[0x80] = 'B';
        }
        PdfObject* e = &enc;
        auto f = font("Type1", &e);
        auto& en = f->GetEncoding();
        if (pin("decode", 1))
        {
            string s = symBytes("s", pin("len", deep() ? 3 : 2));
            for (auto& c : s) { static const unsigned char hi[] = { 0x40, 0x80, 0xF0, 0x00 }; c = (char)__sx_pin((unsigned char)c & 3 | hi[pin("hi", deep() ? 3 : 2)]); }
            string out = "junk";
            (void)en.TryConvertToUtf8(PdfString::FromRaw(s), out);
            SX_ASSERT(out == decoded(s), "a string is decoded to the characters of its codes");
            __sx_reach("decoded");
        }
        else
        {
            static const unsigned cps[] = { 'A', 'B', 'C', 0x20AC, 0x1F600, 0xE9, 0x80, 0xFFFD, ' ' };
            string t; bool all = true;
            unsigned n = pin("len", deep() ? 3 : 2);
            for (unsigned i = 0; i < n; i++) { unsigned c = cps[pin("c", 8)]; putUtf8(t, c); all &= defined(c); }
            charbuff b; b.push_back('x');
            bool ok = en.TryConvertToEncoded(t, b);
            SX_ASSERT(ok == all, "a text is encoded if and only if all its characters have codes");
            if (ok)
            {
                SX_ASSERT(b.size() == n, "each character is encoded as one code");
                string out;
                SX_ASSERT(en.TryConvertToUtf8(PdfString::FromRaw(b), out) && out == t, "an encoded text is decoded to itself");
                __sx_reach("encoded");
            }
        }
        break;
    }
    case 5: // fonts with character maps
    {
        Doc = new PdfMemDocument();
        PdfObject& cm = Doc->GetObjects().CreateDictionaryObject();
        PdfObject& tu = Doc->GetObjects().CreateDictionaryObject();
        unsigned kind = pin("kind", 3);
        static const char* progs[] =
        {
            "1 begincodespacerange <0000> <FFFF> endcodespacerange 1 begincidrange <0041> <0045> 7 endcidrange",
            "1 begincodespacerange <00> <80> <8140> <FFFF> endcodespacerange 1 begincidrange <41> <45> 7 endcidrange 1 begincidchar <8141> 100 endcidchar",
            "1 begincodespacerange <00> <FF> endcodespacerange 1 beginbfchar <41> <00420043> endbfchar 1 begincidchar <42> 5 endcidchar",
            "1 begincodespacerange <0000> <FFFF> endcodespacerange 1 beginbfchar <4141> <00420043> endbfchar",
        };
        string p = progs[kind];
        cm.GetOrCreateStream().SetData(charbuff(p), true);
        string u = kind == 0 || kind == 3 ? "1 begincodespacerange <0000> <FFFF> endcodespacerange 2 beginbfchar <0041> <00660069> <0042> <D83DDE00> endbfchar" : "1 begincodespacerange <00> <FF> endcodespacerange 2 beginbfchar <41> <00660069> <42> <D83DDE00> endbfchar";
        tu.GetOrCreateStream().SetData(charbuff(u), true);
        PdfObject& o = Doc->GetObjects().CreateDictionaryObject();
        o.GetDictionary().AddKey("Type", PdfName("Font"));
        o.GetDictionary().AddKey("Subtype", PdfName("Type0"));
        o.GetDictionary().AddKey("BaseFont", PdfName("F"));
        o.GetDictionary().AddKeyIndirect("Encoding", cm);
        o.GetDictionary().AddKeyIndirect("ToUnicode", tu);
        PdfObject& d = Doc->GetObjects().CreateDictionaryObject();
        d.GetDictionary().AddKey("Type", PdfName("Font")); d.GetDictionary().AddKey("Subtype", PdfName("CIDFontType0"));
        PdfDictionary fd; fd.AddKey("FontName", PdfName("F")); d.GetDictionary().AddKey("FontDescriptor", fd);
        PdfArray da; da.Add(d.GetIndirectReference()); o.GetDictionary().AddKey("DescendantFonts", da);
        std::unique_ptr<PdfFont> f;
        SX_ASSERT(PdfFont::TryCreateFromObject(o, f), "the font is read");
        auto& en = f->GetEncoding();
        string s = symBytes("s", pin("len", deep() ? 4 : 3));
        for (auto c : s) __sx_assume((c == '\0') | (c == 'A') | (c == 'B') | (c == (char)0x81) | (c == 'z'));
        // CIDs
        std::vector<unsigned> want; bool all = true;
        unsigned mn = kind == 1 || kind == 2 ? 1 : 2, mx = kind == 2 ? 1 : 2;
        for (unsigned i = 0; i < s.size(); )
        {
            unsigned code = 0; bool found = false;
            for (unsigned n = 1; n <= mx && i + n <= s.size(); n++)
            {
                code = code << 8 | (unsigned char)s[i + n - 1];
                unsigned cid = ~0u;
                switch (kind)
                {
                case 0: if (n == 2 && code >= 0x41 && code <= 0x45) cid = code - 0x41 + 7; break;
                case 1: if (n == 1 && code >= 0x41 && code <= 0x45) cid = code - 0x41 + 7; if (n == 2 && code == 0x8141) cid = 100; break;
                case 2: if (n == 1 && code == 0x42) cid = 5; break;
                }
                if (n >= mn && cid != ~0u) { want.push_back(cid); i += n; found = true; break; }
            }
            if (found) continue;
            // unknown codes stand for themselves, in the smallest code size
            all = false; code = 0;
            unsigned n = 0; for (; n < mn && i < s.size(); n++) code = code << 8 | (unsigned char)s[i++];
            want.push_back(code);
        }
        std::vector<PdfCID> got;
        bool ok = en.TryConvertToCIDs(PdfString::FromRaw(s), got);
        SX_ASSERT(ok == all && got.size() == want.size(), "a string is split into its codes");
        for (unsigned i = 0; i < got.size(); i++) SX_ASSERT(got[i].Id == want[i], "the CIDs of a string");
        PdfString ps = PdfString::FromRaw(s);
        auto scan = const_cast<PdfEncoding&>(en).StartStringScan(ps);
        unsigned i = 0; string text;
        while (!scan.IsEndOfString())
        {
            PdfCID cid; std::vector<char32_t> cps;
            scan.TryScan(cid, text, cps);
            SX_ASSERT(i < want.size() && cid.Id == want[i], "scanning a string finds its CIDs");
            i++;
        }
        SX_ASSERT(i == want.size(), "scanning a string finds all its CIDs");
        __sx_reach("cids");
        break;
    }
    case 6: // glyph names
    {
        unsigned i = pin("name", sizeof RefNames / sizeof *RefNames - 1);
        SX_ASSERT(PdfDifferenceEncoding::NameToCodePoint(string_view(RefNames[i].name)) == RefNames[i].cp, "a glyph name stands for its character");
        SX_ASSERT(PdfDifferenceEncoding::CodePointToName(RefNames[i].cp) == PdfName(RefNames[i].name), "the name of a character");
        __sx_reach("names");
        break;
    }
    case 7: // names made of code points, other names
    {
        unsigned n = pin("len", 7);
        string s = symBytes("s", n);
        for (auto c : s) __sx_assume(((c >= '8') & (c <= ':')) | ((c >= '@') & (c <= 'G')) | (c == 'f') | (c == 'g') | (c == '.'));
        if (!deep()) for (unsigned i = 0; i + 2 < n; i++) __sx_assume((s[i] == '0') | (s[i] == '1') | (s[i] == 'A') | (s[i] == '9') | (s[i] == '.'));
        unsigned want = 0; bool good = n >= 4 && n <= 6;
        for (auto c : s) { int h = hexVal(c); if (h < 0) good = false; else want = want << 4 | h; }
        if (want > 0x10FFFF) good = false;
        if (!good) want = 0;
        SX_ASSERT(PdfDifferenceEncoding::NameToCodePoint(string_view("uni" + s)) == want, "a uni name stands for the character of its digits");
        __sx_reach("uni");
        break;
    }
    }
}
