#include "common.h"
#include <pdfmm/base/PdfParser.h>
#include <pdfmm/base/PdfParserObject.h>
#include <map>
// ---- a file with object streams 1 (and 2) and a cross-reference stream that assigns numbers to them
static string n2s(int64_t v) { return std::to_string((long long)v); }
struct File
{
    string s = "%PDF-1.5\n"; std::map<unsigned, string> rows;
    static string row(unsigned t, unsigned a, unsigned b) { string r; r.push_back((char)t); r.push_back((char)(a >> 8)); r.push_back((char)a); r.push_back((char)b); return r; }
    void object(unsigned num, const string& dict, const string& data)
    {
        rows[num] = row(1, s.size(), 0);
        s += n2s(num) + " 0 obj<<" + dict + "/Length " + n2s(data.size()) + ">>stream\n" + data + "\nendstream endobj\n";
    }
    void compressed(unsigned num, unsigned stream, unsigned index) { rows[num] = row(2, stream, index); }
    string done()
    {
        string d = row(0, 0, 255), ix = "0 1 ";
        size_t at = s.size();
        rows[30] = row(1, at, 0);
        for (auto& r : rows) { d += r.second; ix += n2s(r.first) + " 1 "; }
        return s + "30 0 obj<</Type/XRef/Size 31/W[1 2 1]/Index[" + ix + "]/Length " + n2s(d.size()) + ">>stream\n" + d + "\nendstream endobj\nstartxref\n" + n2s(at) + "\n%%EOF\n";
    }
};
static bool load(const string& text, PdfIndirectObjectList& objs, bool demand)
{
    static vector<std::shared_ptr<SpanStreamDevice>> hold;
    hold.push_back(devOf(text));
    PdfParser p(objs);
    try { p.Parse(*hold.back(), demand); return true; } catch (PdfError&) { return false; }
}
// a value and its text, some with symbolic bytes
static string value(unsigned i, bool sym)
{
    switch (__sx_pin(rng("value", 0, sym ? 6 : 5)))
    {
        case 0: return "<</A " + n2s(i) + ">>";
        case 1: return "[1 0 R/N]";
        case 2: return "7 ";
        case 3: return "true ";
        case 4: return "/Name" + n2s(i) + " ";
        case 5: return "null ";
        default:
        {
            string b = symBytes("text", 2);
            for (char c : b) __sx_assume(c != '(' && c != ')' && c != '\\' && c != '\r');
            return "(" + b + ")";
        }
    }
}
static string show(const PdfObject& o) { return toStr(o.GetVariant()); }
static string canon(const string& text) { return toStr(parseVariant(text)); }
// every listed object has its value, only assigned ones are taken
static void extract()
{
    unsigned n = __sx_pin(rng("n", 0, deep() ? 4 : 3)), style = __sx_pin(rng("style", 0, 3));
    bool demand = __sx_pin(rng("demand", 0, 1)), rev = style == 1;
    vector<string> v; string data, head; vector<size_t> off(n);
    for (unsigned i = 0; i < n; i++) v.push_back(value(i, i == 0));
    // the order of the values may differ from that of the header
    for (unsigned k = 0; k < n; k++) { unsigned i = rev ? n - 1 - k : k; if (style == 2) data += " "; off[i] = data.size(); data += v[i]; if (style == 3) data += "\n%x\n"; }
    for (unsigned i = 0; i < n; i++) head += n2s(5 + i) + (style == 2 ? "\n" : " ") + n2s(off[i]) + " ";
    File f; string assign;
    f.object(11, "/Type/ObjStm/N " + n2s(n) + "/First " + n2s(head.size()), head + data);
    unsigned other = __sx_pin(rng("other", 0, n == 0 ? 0 : 3)), at = 0;
    if (other) at = __sx_pin(rng("which", 0, n - 1));
    for (unsigned i = 0; i < n; i++)
    {
        if (other && i == at)
        {
            if (other == 1) continue;                                 // not in the cross-reference at all
            if (other == 2) { f.compressed(5 + i, 12, 0); continue; }  // in another stream
            f.rows[5 + i] = File::row(0, 0, 3); continue;             // freed
        }
        f.compressed(5 + i, 11, i);
    }
    if (other == 2) f.object(12, "/Type/ObjStm/N 1/First 5", "  " + n2s(5 + at) + " 0 (other)");
    PdfMemDocument doc; auto& objs = doc.GetObjects(); unsigned had = objs.GetSize();
    SX_ASSERT(load(f.done(), objs, demand), "a file with object streams loads");
    __sx_reach("extract");
    unsigned count = 0;
    for (unsigned i = 0; i < n; i++)
    {
        auto o = objs.GetObject(PdfReference(5 + i, 0));
        if (other && i == at && other != 2) { SX_ASSERT(o == nullptr, "an object that is not assigned to the stream is not taken"); continue; }
        SX_ASSERT(o != nullptr && show(*o) == canon(other && i == at ? "(other)" : v[i]), "each object has the value at its offset");
        SX_ASSERT(o->GetIndirectReference() == PdfReference(5 + i, 0) && o->GetDocument() == &doc, "the object belongs to the document under its number and generation 0");
        count++;
    }
    SX_ASSERT(objs.GetSize() == had + count + 2 + (other == 2), "no other object is taken");
}
// malformed headers and offsets
static void malformed()
{
    static const char* const V[] = { "-1", "-9223372036854775808", "9223372036854775807", "9223372036854775800", "4294967296", "2147483648", "100", "/N", "(a)", "", "0", "1", "2", "3" };
    unsigned what = __sx_pin(rng("what", 0, 3)), k = __sx_pin(rng("v", 0, 13)), k2 = 0;
    string N = "2", first = "8", h1 = "0", num1 = "5"; bool demand = __sx_pin(rng("demand", 0, 1));
    if (what == 0) { h1 = V[k]; k2 = __sx_pin(rng("v2", 0, 13)); if (k2 < 13) first = V[k2]; }
    else if (what == 1) N = V[k];
    else if (what == 2) first = V[k];
    else num1 = V[k];
    string head = num1 + " " + h1 + " 6 2 "; 
    if (what == 0 && k2 == 13) first = n2s(head.size());
    string data = head + "7 8 ";
    File f; f.object(11, "/Type/ObjStm/N " + N + "/First " + first, data);
    f.compressed(5, 11, 0); f.compressed(6, 11, 1);
    PdfMemDocument doc; auto& objs = doc.GetObjects(); unsigned had = objs.GetSize();
    bool ok = load(f.done(), objs, demand);
    __sx_reach("malformed");
    // what the header says, when it is one: number, offset, number, offset
    auto numeric = [](const string& s) { return !s.empty() && (s[0] == '-' || (s[0] >= '0' && s[0] <= '9')); };
    if (what == 0 && numeric(h1))
    {
        __int128 o = std::strtoll(h1.c_str(), nullptr, 10), fi = numeric(first) ? std::strtoll(first.c_str(), nullptr, 10) : 0;
        if (o < 0 || o + fi > (__int128)data.size() || fi < 0) SX_ASSERT(!ok, "an offset outside the data is an error");
    }
    else if (what == 0 && k != 9) SX_ASSERT(!ok, "a header that is not made of numbers is an error");
    if (what == 1 && numeric(N) && std::strtoll(N.c_str(), nullptr, 10) > 4) SX_ASSERT(!ok, "a header shorter than its count is an error");
    if (what == 2 && numeric(first)) { long long fi = std::strtoll(first.c_str(), nullptr, 10); if (fi < 0 || fi + 2 >= (long long)data.size()) SX_ASSERT(!ok, "objects outside the data are an error"); }
    if (what == 3 && !numeric(num1) && k != 9) SX_ASSERT(!ok, "a header that is not made of numbers is an error");
    if (ok && what != 2 && !(what == 0 && k2 != 13) && !(k == 9))
        if (auto o = objs.GetObject(PdfReference(6, 0))) if (!(what == 3 && numeric(num1)))
            SX_ASSERT(show(*o) == canon("8 "), "each object has the value at its offset");
}
// any bytes in the stream: an error or objects, no access outside
static void anyBytes()
{
    unsigned n = __sx_pin(rng("n", 1, 2)), len = __sx_pin(rng("len", 0, deep() ? 6 : 5)), first = __sx_pin(rng("first", 0, 6));
    string d;
    static const char A[] = "50 -(/[%<\x80";
    for (unsigned i = 0; i < len; i++) d.push_back(A[__sx_pin(rng("ch", 0, deep() ? 9 : 4))]);
    File f; f.object(11, "/Type/ObjStm/N " + n2s(n) + "/First " + n2s(first), d);
    f.compressed(5, 11, 0); f.compressed(50, 11, 0);
    PdfMemDocument doc; auto& objs = doc.GetObjects(); unsigned had = objs.GetSize();
    bool ok = load(f.done(), objs, true);
    __sx_reach("bytes");
    if (ok) for (auto o : objs) SX_ASSERT(o->GetIndirectReference().ObjectNumber() <= 3 || o->GetIndirectReference().ObjectNumber() == 11 || o->GetIndirectReference().ObjectNumber() == 5 || o->GetIndirectReference().ObjectNumber() == 30 || o->GetIndirectReference().ObjectNumber() == 50, "only assigned objects are taken");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 2)) { case 0: extract(); break; case 1: malformed(); break; default: anyBytes(); break; }
}

