// C25: character maps (CMap programs)
#include "common.h"
#include "zmodel.h"
#include <pdfmm/base/PdfCharCodeMap.h>
#include <pdfmm/base/PdfCMapEncoding.h>
#include <pdfmm/base/PdfIdentityEncoding.h>
#include <pdfmm/base/PdfEncodingMapFactory.h>
#include <pdfmm/base/PdfDifferenceEncoding.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
using CPs = vector<char32_t>;
struct Entry { unsigned code, size; CPs cps; };
static vector<Entry>* ModP;
#define Mod (*ModP)
static void add(unsigned code, unsigned size, const CPs& p) { Mod.push_back({ code, size, p }); }
static const CPs* find(unsigned code, unsigned size)
{
    for (unsigned i = Mod.size(); i-- > 0; ) if ((Mod[i].code == code) & (Mod[i].size == size)) return &Mod[i].cps;
    return nullptr;
}
// hexadecimal text of a value
static string hex(unsigned v, unsigned bytes)
{
    string s;
    for (unsigned i = bytes * 2; i-- > 0; ) { unsigned d = v >> (i * 4) & 15; s.push_back((char)(d + (d < 10 ? 48 : 55))); }
    return s;
}
static string lit(unsigned v, unsigned bytes) { return "<" + hex(v, bytes) + ">"; }
static string dst(const CPs& p)
{
    string s = "<";
    for (auto c : p)
        if (c >= 0x10000) { s += hex(0xD800 | (c - 0x10000) >> 10, 2); s += hex(0xDC00 | ((c - 0x10000) & 0x3FF), 2); }
        else s += hex(c, 2);
    return s + ">";
}
static std::unique_ptr<PdfEncodingMap> read(const string& body, bool wrap = true)
{
    PdfIndirectObjectList objs;
    PdfObject& o = objs.CreateDictionaryObject();
    string s = wrap ? "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /X def\n" + body + "\nendcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n" : body;
    charbuff b(s);
    o.GetOrCreateStream().SetData(b, true);
    return PdfCMapEncoding::CreateFromObject(o);
}
static void check(const PdfEncodingMap& m, unsigned code, unsigned size)
{
    CPs got = { 7 };
    bool ok = m.TryGetCodePoints(PdfCharCode(code, (unsigned char)size), got);
    auto want = find(code, size);
    SX_ASSERT(ok == (want != nullptr), "exactly the codes of the sections are mapped");
    if (ok) SX_ASSERT(got == *want, "a code maps to the code points of its section");
}
// a hexadecimal digit: 0-9 (the letters take another path in the library, for each of them)
static unsigned nib(const char* n) { return rng(n, 0, 9); }
static unsigned anynib(const char* n) { return rng(n, 0, 15); }
// a symbolic code point of the basic plane that is no surrogate: high nibbles pinned, low ones symbolic
static char32_t bmp() { static const unsigned hi[] = { 0x00, 0xFB, 0x20 }; return hi[pin("hi", deep() ? 2 : 1)] << 8 | (0x40u | nib("cp")); }
static const char32_t Wide[] = { 0x10000, 0x1F600, 0x10FFFF, 0xFFFF, 0xE000, 0xD7FF };
static CPs someDst()
{
    switch (pin("dst", 3))
    {
    case 0: return { bmp() };
    case 1: return { 'f', bmp() };
    case 2: return { Wide[pin("wide", deep() ? 5 : 1)] };
    default: return { 'f', Wide[deep() ? pin("wide", 1) : 0], 'l' };
    }
}
static bool failing(const string& body)
{
    try { read(body); return false; }
    catch (const PdfError&) { return true; }
}
// a code in the given number of bytes, with two symbolic nibbles
static unsigned someCode(unsigned size)
{
    static const unsigned mid[] = { 0x40, 0xF0, 0x00 };
    unsigned c = mid[pin("mid", deep() ? 2 : 1)] | nib("code");
    static const unsigned top[] = { 0, 0, 0x0100, 0x010000, 0x80000000 };
    return c | top[size];
}
static void checkAll(const PdfEncodingMap& m)
{
    unsigned size = deep() ? 1 + pin("qsize", 2) : Mod.empty() ? 1 : Mod.back().size;
    static const unsigned top[] = { 0, 0, 0x0100, 0x010000, 0x80000000 };
    check(m, rng("q", 0, 511) ^ top[size], size);
}
static void limitsAre(const PdfEncodingMap& m, unsigned mn, unsigned mx)
{
    SX_ASSERT(m.GetLimits().MinCodeSize == mn && m.GetLimits().MaxCodeSize == mx, "the code sizes are the ones of the sections");
}
void sx_harness()
{
    ModP = new vector<Entry>();
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 9))
    {
    case 0: // bfchar
    {
        unsigned sa = 1 + pin("size", deep() ? 3 : 1), sb = pin("other", 1) ? sa : 2, a = someCode(sa), b = someCode(sb);
        CPs d = someDst(), e = { 'e', 'e' };
        string body = "2 beginbfchar\n" + lit(a, sa) + " " + dst(d) + "\n" + lit(b, sb) + dst(e) + "\nendbfchar";
        add(a, sa, d); add(b, sb, e);
        auto m = read(body);
        checkAll(*m);
        limitsAre(*m, sa < sb ? sa : sb, sa < sb ? sb : sa);
        __sx_reach("bfchar");
        break;
    }
    case 1: // bfrange with a first destination
    {
        unsigned size = 1 + pin("size", deep() ? 3 : 1), n = 1 + pin("n", deep() ? 3 : 2), lo = someCode(size);
        CPs d = someDst();
        add(0x11, 1, { 'x' });
        string body = "1 beginbfchar <11> <0078> endbfchar 1 beginbfrange\n" + lit(lo, size) + lit(lo + n - 1, size) + dst(d) + "\nendbfrange";
        if (size == 1) __sx_assume(lo + n - 1 < 256);
        for (unsigned i = 0; i < n; i++) { CPs p = d; p.back() += i; add(lo + i, size, p); }
        auto m = read(body);
        checkAll(*m);
        __sx_reach("bfrange");
        break;
    }
    case 2: // bfrange with an array of destinations
    {
        unsigned size = 1 + pin("size", 1), n = 1 + pin("n", 2), k = pin("given", 3), lo = someCode(size);
        if (size == 1) __sx_assume(lo + n - 1 < 256);
        string body = "1 beginbfrange " + lit(lo, size) + lit(lo + n - 1, size) + "[";
        for (unsigned i = 0; i < k; i++) { CPs d = i == 0 ? someDst() : CPs{ (char32_t)(0x40 + i) }; body += dst(d); if (i < n) add(lo + i, size, d); }
        body += "] endbfrange";
        if (k < n) { SX_ASSERT(failing(body), "a range with too few destinations is an error"); break; }
        auto m = read(body);
        checkAll(*m);
        __sx_reach("array");
        break;
    }
    case 3: // cidrange, cidchar
    {
        static const char* cids[] = { "0", "1", "255", "256", "65535", "70000" };
        static const unsigned vals[] = { 0, 1, 255, 256, 65535, 70000 };
        unsigned size = 1 + pin("size", deep() ? 2 : 1), n = 1 + pin("n", 1), lo = someCode(size), c = someCode(size), k = pin("cid", 5), j = 3;
        if (size == 1) __sx_assume(lo + n - 1 < 256);
        string body = "1 begincidrange\n" + lit(lo, size) + " " + lit(lo + n - 1, size) + " " + cids[k] + "\nendcidrange\n";
        static const char* counts[] = { "1 ", "0 ", "5 ", "" };
        body += string(counts[size == 1 ? pin("count", 3) : 0]) + "begincidchar\n" + lit(c, size) + " " + cids[j] + "\nendcidchar";
        for (unsigned i = 0; i < n; i++) add(lo + i, size, { vals[k] + i });
        add(c, size, { vals[j] });
        auto m = read(body);
        checkAll(*m);
        limitsAre(*m, size, size);
        unsigned cid = 77;
        SX_ASSERT(m->TryGetCIDId(PdfCharCode(c, (unsigned char)size), cid) && cid == vals[j], "the CID of a code");
        __sx_reach("cid");
        break;
    }
    case 4: // strings of codes of several sizes
    {
        unsigned k = pin("kind", 3);
        string body = k == 0 ? "1 begincodespacerange <00> <FF> endcodespacerange" : k == 1 ? "1 begincodespacerange <0000> <FFFF> endcodespacerange" : k == 2 ? "2 begincodespacerange <00> <80> <8140> <FFFC> endcodespacerange" : "";
        unsigned mn = k == 1 ? 2 : 1, mx = k == 0 ? 1 : 2;
        unsigned a = nib("a") << 4 | nib("a"), b = 0x8100 | nib("b") << 4 | nib("b");
        if (k != 1) { body += " 1 beginbfchar " + lit(a, 1) + "<0041> endbfchar"; add(a, 1, { 'A' }); __sx_assume(a != 0x81); }
        if (k != 0) { body += " 1 beginbfchar " + lit(b, 2) + "<00420043> endbfchar"; add(b, 2, { 'B', 'C' }); }
        auto m = read(body);
        limitsAre(*m, mn, mx);
        string s = symBytes("s", 1 + pin("len", deep() ? 2 : 1));
        string_view sv(s);
        auto it = sv.begin(); unsigned pos = 0;
        while (it != sv.end())
        {
            unsigned size = 0; const CPs* want = nullptr; unsigned code = 0;
            for (unsigned n = 1; n <= mx && pos + n <= s.size(); n++)
            {
                code = code << 8 | (unsigned char)s[pos + n - 1];
                if (n >= mn && (want = find(code, n))) { size = n; break; }
            }
            CPs got;
            bool ok = m->TryGetNextCodePoints(it, sv.end(), got);
            SX_ASSERT(ok == (size != 0), "the next code of a string is the shortest mapped one");
            if (!ok) { SX_ASSERT((unsigned)(it - sv.begin()) == pos, "nothing is consumed if there is no code"); break; }
            pos += size;
            SX_ASSERT(got == *want && (unsigned)(it - sv.begin()) == pos, "the code points of the next code");
            __sx_reach("decode");
        }
        break;
    }
    case 5: // sections in error
    {
        static const char* bad[] =
        {
            "1 beginbfrange <05> <04> <0041> endbfrange", "1 begincidrange <05> <04> 1 endcidrange", "1 begincidrange <0005> <0003> 1 endcidrange",
            "1 begincidchar -1 5 endcidchar", "1 beginbfchar -300 <0041> endbfchar", "1 beginbfchar <> <0041> endbfchar", "1 beginbfchar <0102030405> <0041> endbfchar",
            "1 begincidrange <00000000> <FFFFFFFF> 0 endcidrange", "1 begincidrange 0 4294967295 0 endcidrange", "1 begincidrange 0 99999999999 0 endcidrange",
            "1 beginbfchar <41> <00> endbfchar", "1 beginbfchar <41> <D800> endbfchar", "1 beginbfchar <41> <DC00D800> endbfchar",
            "1 beginbfchar <41> [<0041>] endbfchar", "1 beginbfchar <41>", "1 beginbfchar", "1 beginbfrange <41> <42>", "1 beginbfrange <41> <42> [1 2] endbfrange",
            "1 beginbfrange <41> <42> << >> endbfrange", "1 begincidchar <41> endcidchar", "1 begincidchar", "1 begincidrange <41> endcidrange", "1 begincodespacerange <00>",
            "1 begincodespacerange <00> endcodespacerange", "1 beginbfchar <41> /A endbfrange", "1 begincidchar <41> <0102030405> endcidchar", "1 beginbfchar true <0041> endbfchar",
        };
        unsigned i = pin("bad", sizeof bad / sizeof *bad - 1);
        bool cut = pin("cut", 1);
        bool threw = false;
        try { read(bad[i], !cut); }
        catch (const PdfError&) { threw = true; }
        SX_ASSERT(threw, "sections in error are rejected");
        __sx_reach("malformed");
        break;
    }
    case 6: // any bytes in a section
    {
        static const char* names[] = { "bfchar", "bfrange", "cidchar", "cidrange", "codespacerange" };
        static const char* pre[] = { "<4", "<41> ", "<41> <42> ", "<41> <42" };
        unsigned k = pin("name", 4);
        string body = "1 begin" + string(names[k]) + " " + pre[pin("pre", 3)];
        string s = symBytes("s", 1 + pin("len", deep() ? 2 : 1));
        for (auto c : s) __sx_assume((c == '<') | (c == '>') | (c == '0') | (c == ' ') | (c == '/') | (c == '(') | (c == ')') | (c == '[') | (c == ']') | (c == '-') | (c == '%') | (c == 'D'));
        body += s + " end" + names[k];
        try { read(body); }
        catch (const PdfError&) { }
        __sx_reach("any bytes");
        break;
    }
    case 7: // maps that are nearly identities
    {
        unsigned lo = pin("lo", 1), hi = 255 - pin("hi", 1), skip = pin("skip", 2), shift = pin("shift", 1);
        string body = "1 begincodespacerange <00> <FF> endcodespacerange 2 begincidrange " + lit(lo, 1) + lit(99, 1) + (lo ? " 1 " : " 0 ") + lit(100 + skip, 1) + lit(hi, 1) + " " + std::to_string(100 + skip + shift) + " endcidrange";
        for (unsigned i = lo; i < 100; i++) add(i, 1, { i });
        for (unsigned i = 100 + skip; i <= hi; i++) add(i, 1, { i + shift });
        auto m = read(body);
        check(*m, __sx_pin(rng("q", 0, 255)), 1);
        limitsAre(*m, 1, 1);
        __sx_reach("identity");
        break;
    }
    case 8: // maps written and read again
    {
        PdfCharCodeMap cm;
        static const unsigned codes[] = { 0, 0x41, 0xFF, 0x100, 0x1234, 0xFFFF, 0x10000, 0x1234567 };
        unsigned n = pin("n", 2);
        for (unsigned i = 0; i < n; i++)
        {
            unsigned c = codes[i == 0 || deep() ? pin("code", 7) : 2 + 2 * pin("code", 1)], size = PdfCharCode(c).CodeSpaceSize + (i == 0 && c < 0x10000 ? pin("wider", 1) : 0);
            CPs d = i == 0 ? someDst() : CPs{ 'x' };
            cm.PushMapping(PdfCharCode(c, (unsigned char)size), codepointview(d.data(), d.size()));
            add(c, size, d);
        }
        auto map = std::make_shared<PdfCMapEncoding>(std::move(cm));
        unsigned q = codes[2 + pin("q", 2)], qs = PdfCharCode(q).CodeSpaceSize + (q < 0x10000 ? pin("qwider", 1) : 0);
        check(*map, q, qs);
        PdfIndirectObjectList objs;
        PdfObject& o = objs.CreateDictionaryObject();
        PdfEncoding enc(PdfEncodingMapFactory::WinAnsiEncodingInstance(), map);
        if (pin("cid", 1))
        {
            for (auto& e : Mod) if (e.cps.size() != 1) __sx_end();
            charbuff b, tmp; BufferStreamDevice dev(b);
            static char none[sizeof(void*)];
            dev.Write("1 begincodespacerange\n"); map->AppendCodeSpaceRange(dev, tmp); dev.Write("\nendcodespacerange\n");
            map->AppendCIDMappingEntries(dev, *(const PdfFont*)none, tmp);
            auto back = read(string(b.data(), b.size()));
            check(*back, q, qs);
        }
        else
        {
            enc.writeToUnicodeCMap(o);
            auto back = PdfCMapEncoding::CreateFromObject(o);
            check(*back, q, qs);
            if (n) SX_ASSERT(back->GetLimits().MinCodeSize == map->GetLimits().MinCodeSize && back->GetLimits().MaxCodeSize == map->GetLimits().MaxCodeSize, "the code sizes are written");
        }
        __sx_reach("written");
        break;
    }
    case 9: // predefined, difference and identity encodings written and read again
    {
        PdfEncodingMapConstPtr map;
        unsigned k = pin("map", 7);
        PdfDifferenceList diffs;
        switch (k)
        {
        case 0: map = PdfEncodingMapFactory::WinAnsiEncodingInstance(); break;
        case 1: map = PdfEncodingMapFactory::MacRomanEncodingInstance(); break;
        case 2: map = PdfEncodingMapFactory::MacExpertEncodingInstance(); break;
        case 3: map = PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::TimesRoman); break;
        case 4: map = PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::Symbol); break;
        case 5: map = PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::ZapfDingbats); break;
        case 6: map = std::make_shared<PdfIdentityEncoding>(1); break;
        default:
            diffs.AddDifference(0, 0x20AC); diffs.AddDifference(0x41, 0x42); diffs.AddDifference(0xFF, 0xFB01);
            map = std::make_shared<PdfDifferenceEncoding>(diffs, PdfEncodingMapFactory::WinAnsiEncodingInstance());
        }
        PdfIndirectObjectList objs;
        PdfObject& o = objs.CreateDictionaryObject();
        PdfEncoding enc(PdfEncodingMapFactory::WinAnsiEncodingInstance(), PdfEncodingMapConstPtr());
        enc.m_ToUnicode = map;
        enc.writeToUnicodeCMap(o);
        auto back = PdfCMapEncoding::CreateFromObject(o);
        unsigned c = __sx_pin(rng("code", 0, 255));
        CPs want, got;
        bool ok = map->TryGetCodePoints(PdfCharCode(c, 1), want), ok2 = back->TryGetCodePoints(PdfCharCode(c, 1), got);
        SX_ASSERT(ok == ok2 && (!ok || want == got), "a written character map maps every code as the encoding does");
        limitsAre(*back, 1, 1);
        __sx_reach("predefined");
        break;
    }
    }
}
