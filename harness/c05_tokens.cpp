#include "common.h"
struct Tok { PdfTokenType t; string s; };
// ISO 32000, 7.2: white space and comments separate, delimiters stand alone
static vector<Tok> lex(const string& s, bool names = false)
{
    vector<Tok> r; size_t i = 0, n = s.size();
    while (i < n)
    {
        unsigned char c = s[i];
        if (isWs(c)) { i++; continue; }
        if (c == '%') { while (i < n && s[i] != '\n' && s[i] != '\r') i++; continue; }
        if (c == '<' || c == '>')
        {
            bool two = i + 1 < n && (unsigned char)s[i + 1] == c;
            r.push_back({ c == '<' ? (two ? PdfTokenType::DoubleAngleBracketsLeft : PdfTokenType::AngleBracketLeft)
                                   : (two ? PdfTokenType::DoubleAngleBracketsRight : PdfTokenType::AngleBracketRight), s.substr(i, two ? 2 : 1) });
            i += two ? 2 : 1; continue;
        }
        PdfTokenType t = PdfTokenType::Literal;
        switch (c)
        {
            case '(': t = PdfTokenType::ParenthesisLeft; break;
            case ')': t = PdfTokenType::ParenthesisRight; break;
            case '[': t = PdfTokenType::SquareBracketLeft; break;
            case ']': t = PdfTokenType::SquareBracketRight; break;
            case '{': t = PdfTokenType::BraceLeft; break;
            case '}': t = PdfTokenType::BraceRight; break;
            case '/': t = PdfTokenType::Slash; break;
            default: break;
        }
        size_t e = i + 1;
        if (t == PdfTokenType::Literal) while (e < n && isRegular(s[e])) e++;
        if (names && t == PdfTokenType::Slash) while (e < n && isRegular(s[e])) e++;
        r.push_back({ t, s.substr(i, e - i) }); i = e;
    }
    return r;
}
static void tokens(const string& s)
{
    vector<Tok> ref = lex(s);
    auto dev = devOf(s);
    PdfTokenizer tok; string_view t; PdfTokenType tt;
    for (auto& r : ref)
    {
        SX_ASSERT(tok.TryReadNextToken(*dev, t, tt), "no token is lost");
        SX_ASSERT(tt == r.t, "a token has the type its first characters define");
        SX_ASSERT(t == r.s, "a token ends where the syntax says");
    }
    SX_ASSERT(!tok.TryReadNextToken(*dev, t, tt), "the end of the input is reported after the last token");
    __sx_reach("tokens");
}
// ---- values: one textual form per value
static string show(const PdfVariant& v)
{
    switch (v.GetDataType())
    {
        case PdfDataType::Null: return "N";
        case PdfDataType::Bool: return v.GetBool() ? "T" : "F";
        case PdfDataType::Number: return "i" + std::to_string(v.GetNumber());
        case PdfDataType::Real: return v.GetReal() == 2.5 ? "r2.5" : v.GetReal() == -0.5 ? "r-.5" : "r?";
        case PdfDataType::Name: return "/" + string(v.GetName().GetRawData());
        case PdfDataType::String: return (v.GetString().IsHex() ? "h" : "s") + string(v.GetString().GetRawData());
        case PdfDataType::Reference: return "R" + std::to_string(v.GetReference().ObjectNumber()) + "," + std::to_string(v.GetReference().GenerationNumber());
        case PdfDataType::Array: { string r = "["; for (auto& e : v.GetArray()) r += show(e.GetVariant()) + " "; return r + "]"; }
        case PdfDataType::Dictionary: { string r = "<"; for (auto& e : v.GetDictionary()) if (!e.second.IsNull()) r += string(e.first.GetRawData()) + "=" + show(e.second.GetVariant()) + " "; return r + ">"; }
        default: return "?";
    }
}
struct Parser
{
    vector<Tok> t; size_t p = 0; bool refs = true;
    bool isInt(size_t k, int lo) { return k < t.size() && t[k].t == PdfTokenType::Literal && (t[k].s == "7" || t[k].s == "0" || (lo < 0 && t[k].s == "-3")); }
    // false: not a value (outside the claim)
    bool value(string& out)
    {
        if (p >= t.size()) return false;
        Tok& k = t[p];
        if (k.t == PdfTokenType::Literal)
        {
            if (refs && isInt(p, 0) && isInt(p + 1, 0) && p + 2 < t.size() && t[p + 2].t == PdfTokenType::Literal && t[p + 2].s == "R") { out = "R" + k.s + "," + t[p + 1].s; p += 3; return true; }
            p++;
            if (isInt(p - 1, -1)) { out = "i" + k.s; return true; }
            if (k.s == "2.5") { out = "r2.5"; return true; }
            if (k.s == "-.5") { out = "r-.5"; return true; }
            if (k.s == "true") { out = "T"; return true; }
            if (k.s == "false") { out = "F"; return true; }
            if (k.s == "null") { out = "N"; return true; }
            return false;
        }
        if (k.t == PdfTokenType::Slash) { out = k.s; p++; return true; }
        if (k.t == PdfTokenType::ParenthesisLeft) { if (p + 2 >= t.size() || t[p + 1].s != "s" || t[p + 2].s != ")") return false; out = "ss"; p += 3; return true; }
        if (k.t == PdfTokenType::AngleBracketLeft) { if (p + 2 >= t.size() || t[p + 1].s != "41" || t[p + 2].s != ">") return false; out = "hA"; p += 3; return true; }
        if (k.t == PdfTokenType::SquareBracketLeft)
        {
            p++; out = "["; string e;
            while (p < t.size() && t[p].t != PdfTokenType::SquareBracketRight) { if (!value(e)) return false; out += e + " "; }
            if (p++ >= t.size()) return false;
            out += "]"; return true;
        }
        if (k.t == PdfTokenType::DoubleAngleBracketsLeft)
        {
            p++; string a, b, e; bool ha = false, hb = false;
            while (p < t.size() && t[p].t != PdfTokenType::DoubleAngleBracketsRight)
            {
                if (t[p].t != PdfTokenType::Slash) return false;
                string n = t[p++].s;
                if (!value(e)) return false;
                if (n == "/A" ? ha : hb) return false;               // duplicate keys are undefined
                if (n == "/A") { a = e; ha = true; } else if (n == "/B") { b = e; hb = true; } else return false;
            }
            if (p++ >= t.size()) return false;
            if (ha && a == "N") ha = false;                     // a null value is an absent entry
            if (hb && b == "N") hb = false;
            out = "<" + (ha ? "A=" + a + " " : "") + (hb ? "B=" + b + " " : "") + ">"; return true;
        }
        return false;
    }
};
static const char* const ALPHA[] = { "7", "0", "R", "/A", "[", "]", "<<", ">>", "2.5", "true", "(s)", "<41>", "-3", "/B", "null", "%c\n", "false", "-.5" };
static bool isOp(const Tok& k) { return k.t == PdfTokenType::Literal && (k.s == "RG" || k.s == "R7" || k.s == "obj" || k.s == "n" || k.s == "R"); }
static void values(const string& s, bool refs = true, bool operators = false)
{
    Parser ps; ps.t = lex(s, true); ps.refs = refs;
    auto dev = devOf(s);
    PdfTokenizer tok(refs);
    while (ps.p < ps.t.size())
    {
        string ref; PdfVariant v;
        if (operators && isOp(ps.t[ps.p]))
        {
            string_view t; PdfTokenType tt;
            SX_ASSERT(tok.TryReadNextToken(*dev, t, tt) && tt == PdfTokenType::Literal && t == ps.t[ps.p].s, "an operator following values is the next token");
            ps.p++; __sx_reach("operator"); continue;
        }
        if (!ps.value(ref)) __sx_end();
        SX_ASSERT(tok.TryReadNextVariant(*dev, v), "a value in the syntax is read");
        SX_ASSERT(show(v) == ref, "looking for a value yields the value the syntax defines");
        __sx_reach("value");
    }
    PdfVariant v;
    SX_ASSERT(!tok.TryReadNextVariant(*dev, v), "the end of the input is reported after the last value");
    __sx_reach("values");
}
static void seq(unsigned n, unsigned k, unsigned seps, const char* head = "", const char* tail = "", bool refs = true)
{
    static const char* const SEP[] = { " ", "", "\r%x\n" };
    string s = head;
    for (unsigned i = 0; i < n; i++)
    {
        s += ALPHA[__sx_pin(rng("word", 0, k - 1))];
        s += SEP[__sx_pin(rng("sep", 0, seps - 1))];
    }
    values(s + tail, refs);
}
static void operands(unsigned n)
{
    static const char* const W[] = { "7", "0", "R", "RG", "/A", "n", "(s)", "[", "]", "-3", "obj", "R7", "<41>", "2.5" };
    string s;
    for (unsigned i = 0; i < n; i++) { s += W[__sx_pin(rng("word", 0, deep() ? 13 : i < 2 ? 1 : 8))]; s += ' '; }
    if (sx_bool("op")) s += "R7 ";
    values(s, sx_bool("refs"), true);
}
static void number()
{
    unsigned n = (unsigned)__sx_pin(rng("len", 1, deep() ? 5 : 4));
    string s = symBytes("in", n); bool neg = false, dot = false; unsigned digits = 0;
    for (unsigned i = 0; i < n; i++)
    {
        char c = s[i];
        if (c == '.') { if (dot) __sx_end(); dot = true; }
        else if (c == '-' || c == '+') { if (i) __sx_end(); }
        else if (c >= '0' && c <= '9') digits++;
        else __sx_end();
    }
    if (!digits) __sx_end();
    if (dot) for (char& c : s) c = (char)__sx_pin((unsigned char)c);     // conversion to binary is floating point: value by value
    int64_t m = 0, scale = 1; bool frac = false;
    for (char c : s)
    {
        if (c == '.') frac = true;
        else if (c == '-') neg = true;
        else if (c != '+') { m = m * 10 + (c - '0'); if (frac) scale *= 10; }
    }
    if (neg) m = -m;
    PdfVariant v = parseVariant(s + "]");
    if (dot)
    {
        SX_ASSERT(v.GetDataType() == PdfDataType::Real, "a number with a point is a real");
        SX_ASSERT(v.GetReal() == (double)m / (double)scale, "a real has the value of its digits");
        __sx_reach("real");
    }
    else
    {
        SX_ASSERT(v.GetDataType() == PdfDataType::Number, "a number without a point is an integer");
        SX_ASSERT(v.GetNumber() == m, "an integer has the value of its digits");
        __sx_reach("integer");
    }
}
static void readNumber()
{
    string a = symBytes("in", deep() ? 5 : 4);
    vector<Tok> ref = lex(a);
    bool num = !ref.empty() && ref[0].t == PdfTokenType::Literal; int64_t m = 0;
    if (num)
    {
        const string& s = ref[0].s; size_t i = s[0] == '-';
        if (i == s.size()) num = false;
        for (; num && i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') num = false; else m = m * 10 + (s[i] - '0'); }
        if (s[0] == '-') m = -m;
    }
    if (!num) __sx_end();
    auto dev = devOf(a);
    PdfTokenizer tok;
    SX_ASSERT(tok.ReadNextNumber(*dev) == m, "looking for a number yields the number");
    string_view t; PdfTokenType tt;
    bool more = tok.TryReadNextToken(*dev, t, tt);
    SX_ASSERT(more == (ref.size() > 1) && (!more || t == ref[1].s), "reading a number consumes one token");
    __sx_reach("readnumber");
}
void sx_harness()
{
    switch (__sx_range("case", 0, 9))
    {
        case 0: tokens(symStr("in", 0, 3)); break;
        case 1: tokens(symBytes("in", deep() ? 7 : 5)); break;
        case 2: seq(1, 18, 1); break;
        case 3: seq(3, deep() ? 18 : 12, 2); break;
        case 4: seq(deep() ? 6 : 4, 3, 2, "[", " 0]"); break;
        case 5: seq(3, deep() ? 15 : 10, 2, "<</A ", "/B 7>>"); break;
        case 6: seq(deep() ? 4 : 3, 5, deep() ? 3 : 1, "", "", false); break;
        case 7: number(); break;
        case 8: operands(deep() ? 5 : 4); break;
        default: readNumber(); break;
    }
}
