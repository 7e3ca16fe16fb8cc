#include "common.h"
static void roundtrip(unsigned n)
{
    string s = symBytes("in", n);
    for (char c : s) __sx_assume(c != 0);          // NUL is illegal in names, even escaped
    PdfName name = PdfName::FromRaw(bufferview(s.data(), s.size()));
    SX_ASSERT(name.GetRawData() == s, "a name keeps its bytes");
    string out = toStr(PdfVariant(name));
    SX_ASSERT(!out.empty() && out[0] == '/', "a name starts with a solidus");
    int plain = 1;
    for (size_t i = 1; i < out.size(); i++) { unsigned char c = out[i]; plain &= c > 32 & c < 127 & !isDelim(c); }
    SX_ASSERT(plain, "a written name consists of regular printable characters");
    bool end;
    PdfVariant v = parseVariant(out, &end);
    SX_ASSERT(v.GetDataType() == PdfDataType::Name, "a written name reads back as a name");
    SX_ASSERT(end, "nothing is left after the name");
    SX_ASSERT(v.GetName().GetRawData() == s, "the bytes of a name survive writing and reading");
    SX_ASSERT(v.GetName() == name && !(v.GetName() != name), "the name read back equals the one written");
    SX_ASSERT(PdfName::FromEscaped(name.GetEscapedName()) == name, "the escaped form denotes the same name");
    __sx_reach("roundtrip");
}
static void decode(unsigned n)
{
    // any token of regular characters after the solidus
    string s = symBytes("tok", n), ref;
    for (size_t i = 0; i < n; i++)
    {
        unsigned char c = s[i];
        __sx_assume(isRegular(c));
        if (c == '#')
        {
            __sx_assume(i + 2 < n && hexVal(s[i + 1]) >= 0 && hexVal(s[i + 2]) >= 0);   // other uses of # are undefined
            ref.push_back((char)(hexVal(s[i + 1]) * 16 + hexVal(s[i + 2]))); i += 2;
        }
        else ref.push_back((char)c);
    }
    bool end;
    PdfVariant v = parseVariant("/" + s + " ", &end);
    SX_ASSERT(v.GetDataType() == PdfDataType::Name && end, "a solidus and regular characters are a name");
    SX_ASSERT(v.GetName().GetRawData() == ref, "#xx decodes to its byte");
    SX_ASSERT(PdfName::FromEscaped(s).GetRawData() == ref, "#xx decodes to its byte (escaped text)");
    __sx_reach("decode");
}
static void text()
{
    static const struct { const char* u8; unsigned char b; } doc[] = { { "\xC3\xA9", 0xE9 }, { "\xE2\x82\xAC", 0xA0 }, { "\xE2\x80\xA2", 0x80 }, { "\xC3\xBF", 0xFF }, { "\xC2\xA1", 0xA1 }, { "\xCB\x98", 0x18 } };
    unsigned k = (unsigned)__sx_pin(rng("k", 0, 6));
    char a; __sx_make(&a, 1, "a"); __sx_assume(a >= 0x20 && a < 0x7F);
    string u8(1, a), raw(1, a);
    if (k < 6) { u8 += doc[k].u8; raw.push_back((char)doc[k].b); }
    PdfName name(u8);
    SX_ASSERT(name.GetString() == u8, "a name keeps its text");
    SX_ASSERT(name.GetRawData() == raw, "the text of a name is stored in the document encoding");
    PdfVariant v = parseVariant(toStr(PdfVariant(name)));
    SX_ASSERT(v.GetName() == name && v.GetName().GetString() == u8 && v.GetName() == string_view(u8), "the text of a name survives writing and reading");
    __sx_reach("text");
}
static void order()
{
    unsigned n = 2;
    string a = symStr("a", 0, n), b = symStr("b", 0, n);
    PdfName x = PdfName::FromRaw(bufferview(a.data(), a.size())), y = PdfName::FromRaw(bufferview(b.data(), b.size()));
    SX_ASSERT((x == y) == (a == b), "names are equal exactly if their bytes are");
    SX_ASSERT((x != y) == !(x == y), "inequality of names negates equality");
    SX_ASSERT((x < y) + (y < x) + (x == y) == 1, "names are totally ordered");
}
void sx_harness()
{
    switch (__sx_range("case", 0, 7))
    {
        case 0: roundtrip(0); break;
        case 1: roundtrip(1); break;
        case 2: roundtrip(2); break;
        case 3: roundtrip(deep() ? 5 : 4); break;
        case 4: decode((unsigned)__sx_pin(rng("n", 0, 3))); break;
        case 5: decode(deep() ? 7 : 5); break;
        case 6: text(); break;
        default: order(); break;
    }
}
