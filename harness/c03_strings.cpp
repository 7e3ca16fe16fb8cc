#include "common.h"
// Reference decoding of the bytes between ( and ), ISO 32000 7.3.4.2.  Returns false if s is not one whole string.
static bool refLiteral(const string& s, string& out)
{
    int depth = 0;
    for (size_t i = 0; i < s.size(); i++)
    {
        unsigned char c = s[i];
        if (c == '\\')
        {
            if (++i == s.size()) return false;
            c = s[i];
            if (c >= '0' && c <= '7')
            {
                unsigned v = c - '0', k = 1;
                while (k < 3 && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7') { v = v * 8 + (s[++i] - '0'); k++; }
                out.push_back((char)v);
            }
            else if (c == 'n') out.push_back('\n'); else if (c == 'r') out.push_back('\r'); else if (c == 't') out.push_back('\t');
            else if (c == 'b') out.push_back('\b'); else if (c == 'f') out.push_back('\f');
            else if (c == '\n') { }
            else if (c == '\r') { if (i + 1 < s.size() && s[i + 1] == '\n') i++; }
            else out.push_back((char)c);
        }
        else
        {
            if (c == '(') depth++;
            else if (c == ')') { if (depth == 0) return false; depth--; }
            else if (c == '\r') return false;      // a bare CR is normalized by the specification: outside the claim
            out.push_back((char)c);
        }
    }
    return depth == 0;
}
static void literal(const string& s)
{
    string ref;
    if (!refLiteral(s, ref)) __sx_end();
    auto dev = devOf("(" + s + ")7 ");
    PdfTokenizer tok; PdfVariant v;
    tok.ReadNextVariant(*dev, v);
    SX_ASSERT(v.GetDataType() == PdfDataType::String, "a literal string is a string");
    SX_ASSERT(!v.GetString().IsHex(), "a literal string is not a hexadecimal string");
    SX_ASSERT(v.GetString().GetRawData() == ref, "a literal string decodes as the specification says");
    string_view t;
    SX_ASSERT(tok.TryReadNextToken(*dev, t) && t == "7", "reading a literal string stops after its closing parenthesis");
    __sx_reach("literal");
}
static void hex(const string& s)
{
    string ref; int hi = -1;
    for (unsigned char c : s)
    {
        if (isWs(c)) continue;
        int h = hexVal(c);
        if (h < 0) __sx_end();
        if (hi < 0) hi = h; else { ref.push_back((char)(hi * 16 + h)); hi = -1; }
    }
    if (hi >= 0) ref.push_back((char)(hi * 16));
    auto dev = devOf("<" + s + ">7 ");
    PdfTokenizer tok; PdfVariant v;
    tok.ReadNextVariant(*dev, v);
    SX_ASSERT(v.GetDataType() == PdfDataType::String && v.GetString().IsHex(), "a hexadecimal string is a string");
    SX_ASSERT(v.GetString().GetRawData() == ref, "a hexadecimal string decodes as the specification says");
    string_view t;
    SX_ASSERT(tok.TryReadNextToken(*dev, t) && t == "7", "reading a hexadecimal string stops after its closing bracket");
    SX_ASSERT(PdfString::FromHexData(s).GetRawData() == ref, "hexadecimal data decodes as the specification says");
    __sx_reach("hex");
}
void sx_harness()
{
    switch (__sx_range("case", 0, 6))
    {
        case 0: literal(symStr("in", 0, 3)); break;
        case 1: literal(symBytes("in", deep() ? 7 : 5)); break;
        case 2: { string s = symBytes("in", deep() ? 7 : 5); for (char& c : s) { static const char al[] = "\\0178()n\n"; c = al[rng("sel", 0, 8)]; } literal("\\" + s); break; }
        case 3: literal("(\\" + symBytes("in", deep() ? 4 : 3) + ")"); break;
        case 4: hex(symStr("in", 0, 3)); break;
        case 5: hex(symBytes("in", deep() ? 7 : 5)); break;
        default: literal("a\\" + symBytes("in", 3) + "b"); break;
    }
}
