#include "common.h"
// PDFDocEncoding (ISO 32000, D.2/D.3); 0xFFFFFFFF: undefined
static uint32_t docCharOf(unsigned b)
{
    static const uint16_t lo[8] = { 0x02D8, 0x02C7, 0x02C6, 0x02D9, 0x02DD, 0x02DB, 0x02DA, 0x02DC };
    static const uint16_t hi[32] = { 0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x0192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018,
        0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x0141, 0x0152, 0x0160, 0x0178, 0x017D, 0x0131, 0x0142, 0x0153, 0x0161, 0x017E, 0 };
    if (b >= 0x18 && b <= 0x1F) return lo[b - 0x18];
    if (b == 0x7F || b == 0x9F || b == 0xAD) return 0xFFFFFFFF;
    if (b >= 0x80 && b <= 0x9E) return hi[b - 0x80];
    if (b == 0xA0) return 0x20AC;
    return b;
}
static const uint32_t* docTable() { static uint32_t t[256]; static bool init = false; if (!init) { for (unsigned b = 0; b < 256; b++) t[b] = docCharOf(b); init = true; } return t; }
static uint32_t docChar(unsigned b) { return docTable()[b & 255]; }
static int docByte(uint32_t c)
{
    for (unsigned b = 0; b < 256; b++) if (b != 0x16 && docChar(b) == c) return (int)b;
    return -1;
}
static uint32_t symCp()
{
    switch (rng("plane", 0, 3))
    {
        case 0: { uint32_t c = rng("cp", 0, 0xFF); __sx_pin(c); return c; }
        case 1: { uint32_t b = rng("doc", 0x18, 0xA0); __sx_assume(b <= 0x1F || b >= 0x80); __sx_pin(b); uint32_t c = docChar(b); if (c == 0xFFFFFFFF) __sx_end(); return c; }
        case 2: {
            static const uint8_t hi[] = { 0x01, 0x20, 0xFB, 0x02, 0x22, 0xFF, 0xD7, 0xE0, 0x03, 0x30, 0xFE, 0x08, 0x07, 0x10, 0x7F, 0x80 };
            uint32_t h = hi[__sx_pin(rng("hi", 0, deep() ? 15 : 5))];
            return h << 8 | rng("lo", 0, 255); }
        default: {
            static const uint16_t hi[] = { 0x100, 0x10FF, 0x1F6, 0xFFF };
            uint32_t h = hi[__sx_pin(rng("hi", 0, 3))];
            return h << 8 | rng("lo", 0, 255); }
    }
}
// a smaller, unenumerated choice for longer texts; *b: its byte in the document encoding or -1
static uint32_t symCp2(int* b)
{
    switch (rng("class", 1, 4))
    {
        case 0: case 1: {
            static const uint8_t pick[] = { 'a', '(', ')', '\\', '\r', 0xE9, 0xFE, 0xFF, 0xEF, 0xBB, 0xBF, 0xA1 };
            unsigned c = pick[__sx_pin(rng("pick", 0, 11))]; *b = (int)c; return c; }
        case 2: *b = 0xA0; return 0x20AC;
        case 3: *b = -1; return 0x4E00 | rng("lo", 0, 255);
        default: *b = -1; return 0x1F600 | rng("lo", 0, 255);
    }
}
static void bytesCase(bool hex, unsigned n)
{
    string s = symBytes("in", n);
    PdfString str = PdfString::FromRaw(bufferview(s.data(), s.size()), hex);
    string out = toStr(PdfVariant(str));
    SX_ASSERT(out.size() >= 2 && out.front() == (hex ? '<' : '(') && out.back() == (hex ? '>' : ')'), "string delimiters");
    bool end;
    PdfVariant v = parseVariant(out, &end);
    SX_ASSERT(v.GetDataType() == PdfDataType::String, "a written string reads back as a string");
    SX_ASSERT(end, "nothing is left after the string");
    SX_ASSERT(v.GetString().GetRawData() == string_view(s), "the bytes of a string survive writing and reading");
    SX_ASSERT(v.GetString() == str, "the string read back equals the one written");
    SX_ASSERT(!(v.GetString() != str), "the string read back is not unequal to the one written");
    SX_ASSERT(v.GetString().IsHex() == hex, "the form of the string is kept");
    __sx_reach("raw");
}
static void textCase(unsigned n)
{
    string u8, u16("\xFE\xFF", 2), doc; bool isdoc = true;
    for (unsigned i = 0; i < n; i++)
    {
        int b;
        uint32_t c = n > 1 ? symCp2(&b) : symCp();
        putUtf8(u8, c); putUtf16(u16, c);
        if (n == 1) b = c < 0x100 || c == 0x20AC || (c >= 0x131 && c <= 0x17E) || c == 0x192 || (c >= 0x2C6 && c <= 0x2DD) || (c >= 0x2013 && c <= 0x2212) || c == 0xFB01 || c == 0xFB02 ? docByte(c) : -1;
        if (b < 0) isdoc = false; else doc.push_back((char)b);
    }
    if (isdoc && (doc.compare(0, 2, "\xFE\xFF") == 0 || doc.compare(0, 2, "\xFF\xFE") == 0 || doc.compare(0, 3, "\xEF\xBB\xBF") == 0)) isdoc = false; // would read as another encoding
    PdfString str(u8);
    SX_ASSERT(str.GetString() == u8, "a text string keeps its text");
    string out = toStr(PdfVariant(str));
    PdfVariant v = parseVariant(out);
    SX_ASSERT(v.GetDataType() == PdfDataType::String, "a written text reads back as a string");
    PdfString raw = v.GetString();
    if (isdoc) { SX_ASSERT(raw.GetRawData() == doc, "representable text is written in the document encoding"); __sx_reach("pdfdoc"); }
    else { SX_ASSERT(raw.GetRawData() == u16, "other text is written as UTF-16BE with a byte order mark"); __sx_reach("utf16"); }
    SX_ASSERT(raw.GetString() == u8, "the text of a string survives writing and reading");
    SX_ASSERT(raw == str, "the text string read back equals the one written");
    __sx_reach("text");
}
static void decodeCase()
{
    switch (rng("form", 0, 1))
    {
        case 0: {
            unsigned n = (unsigned)__sx_pin(rng("len", 0, deep() ? 3 : 2));
            string s = symBytes("in", n);
            if (s.compare(0, 2, "\xFE\xFF") == 0 || s.compare(0, 2, "\xFF\xFE") == 0 || s.compare(0, 3, "\xEF\xBB\xBF") == 0) __sx_end();
            string ref;
            for (unsigned char c : s)
            {
                if (c == 0x7F || c == 0x9F || c == 0xAD || c == 0x16) __sx_end(); // undefined (or disputed) in the specification
                putUtf8(ref, docChar(c));
            }
            PdfString str = PdfString::FromRaw(bufferview(s.data(), s.size()), false);
            SX_ASSERT(str.GetString() == ref, "bytes decode by the document encoding");
            break; }
        default: {
            string s("\xFE\xFF", 2), ref;
            unsigned n = (unsigned)__sx_pin(rng("n", 0, deep() ? 3 : 2));
            bool le = sx_bool("le");
            for (unsigned i = 0; i < n; i++)
            {
                static const uint16_t hi[] = { 0x00, 0x07, 0x08, 0x20, 0xD7, 0xE0, 0xFF, 0x100, 0x1F6, 0x10FF };
                uint32_t c = (uint32_t)hi[__sx_pin(rng("hi", 0, 9))] << 8 | rng("lo", 0, 255);
                putUtf8(ref, c); putUtf16(s, c);
            }
            if (le) for (size_t i = 0; i + 1 < s.size(); i += 2) std::swap(s[i], s[i + 1]);
            PdfString str = PdfString::FromRaw(bufferview(s.data(), s.size()), false);
            SX_ASSERT(str.GetString() == ref, "UTF-16 with a byte order mark decodes to its characters");
        }
    }
}
void sx_harness()
{
    unsigned N = deep() ? 5 : 4;
    switch (__sx_range("case", 0, 12))
    {
        case 0: bytesCase(false, 0); break;
        case 1: bytesCase(true, 0); break;
        case 2: bytesCase(false, 1); break;
        case 3: bytesCase(true, 1); break;
        case 4: bytesCase(false, 2); break;
        case 5: bytesCase(true, 2); break;
        case 6: bytesCase(false, N - 1); break;
        case 7: bytesCase(true, N - 2); break;
        case 8: bytesCase(false, N); break;
        case 9: textCase(0); break;
        case 10: textCase(1); break;
        case 11: textCase(deep() ? 3 : 2); break;
        default: decodeCase(); break;
    }
}
