#include "common.h"
#include "values.h"
#include "zmodel.h"
#include <map>
#include <pdfmm/base/PdfParser.h>
#include <pdfmm/base/PdfParserObject.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static string n2s(int64_t v) { return std::to_string((long long)v); }
static string padded(uint64_t v, unsigned width) { string t = n2s((int64_t)v); while (t.size() < width) t.insert(t.begin(), '0'); return t; }
// ---- structured files: a page, a stream with its length in another object, a free number; table, stream, hybrid and updated forms
struct Build
{
    string s; std::map<unsigned, size_t> at;
    explicit Build(const char* v) : s(v) { }
    void obj(unsigned n, const string& body) { at[n] = s.size(); s += n2s(n) + " 0 obj" + body + "\nendobj\n"; }
    void tableRows() { s += "0 " + n2s((int64_t)at.rbegin()->first + 1) + "\n"; for (unsigned n = 0; n <= at.rbegin()->first; n++) s += (at.count(n) ? padded(at[n], 10) + " 00000 n \n" : string("0000000000 65535 f \n")); }
    void end(size_t start) { s += "startxref\n" + n2s((int64_t)start) + "\n%%EOF\n"; }
};
static string row(unsigned t, size_t a, unsigned b) { string r; r.push_back((char)t); r.push_back((char)(a >> 8)); r.push_back((char)a); r.push_back((char)b); return r; }
static string tableFile(size_t* xref = nullptr)
{
    Build f("%PDF-1.4\n");
    f.obj(1, "<</Type/Catalog/Pages 2 0 R>>");
    f.obj(2, "<</Type/Pages/Kids[3 0 R]/Count 1>>");
    f.obj(3, "<</Type/Page/Parent 2 0 R/Contents 4 0 R>>");
    f.obj(4, "<</Length 5 0 R>>stream\nq Q\nendstream");
    f.obj(5, " 3");
    size_t at = f.s.size(); if (xref) *xref = at;
    f.s += "xref\n"; f.tableRows();
    f.s += "trailer<</Size 6/Root 1 0 R>>\n"; f.end(at);
    return f.s;
}
static string streamFile()
{
    Build f("%PDF-1.5\n");
    string os = "1 0 2 29 ", objs = "<</Type/Catalog/Pages 2 0 R>>" "<</Type/Pages/Kids[3 0 R]/Count 1>>";
    f.at[4] = f.s.size(); f.s += "4 0 obj<</Type/ObjStm/N 2/First " + n2s((int64_t)os.size()) + "/Length " + n2s((int64_t)(os.size() + objs.size())) + ">>stream\n" + os + objs + "\nendstream endobj\n";
    f.obj(3, "<</Type/Page/Parent 2 0 R>>");
    size_t at = f.s.size();
    string rows = row(0, 0, 255) + row(2, 4, 0) + row(2, 4, 1) + row(1, f.at[3], 0) + row(1, f.at[4], 0) + row(1, at, 0);
    f.s += "5 0 obj<</Type/XRef/Size 6/W[1 2 1]/Index[0 6]/Root 1 0 R/Length " + n2s((int64_t)rows.size()) + ">>stream\n" + rows + "\nendstream endobj\n";
    f.end(at);
    return f.s;
}
static string updatedFile()
{
    size_t prev; string s = tableFile(&prev);
    size_t o = s.size(); s += "5 0 obj 1\nendobj\n";
    size_t xs = s.size(); string rows = row(1, o, 0);
    s += "7 0 obj<</Type/XRef/Size 8/W[1 2 1]/Index[6 1]/Length 4>>stream\n" + rows + "\nendstream endobj\n";
    size_t at = s.size();
    s += "xref\n5 1\n" + padded(o, 10) + " 00000 n \ntrailer<</Size 8/Root 1 0 R/Prev " + n2s((int64_t)prev) + "/XRefStm " + n2s((int64_t)xs) + ">>\nstartxref\n" + n2s((int64_t)at) + "\n%%EOF\n";
    return s;
}
// the parts of a document that readers follow from the catalog
static string richFile()
{
    Build f("%PDF-1.4\n");
    f.obj(1, "<</Type/Catalog/Pages 2 0 R/Outlines 5 0 R/Names<</Dests 8 0 R>>/AcroForm<</Fields[6 0 R]>>>>");
    f.obj(2, "<</Type/Pages/Kids[3 0 R]/Count 1/MediaBox[0 0 9 9]/Rotate 90>>");
    f.obj(3, "<</Type/Page/Parent 2 0 R/Annots[6 0 R 7 0 R]/Resources<</Font<</F 9 0 R>>>>>>");
    f.obj(4, "<</Title(t)/CreationDate(D:2020)>>");
    f.obj(5, "<</First 10 0 R/Last 10 0 R>>");
    f.obj(6, "<</Subtype/Widget/FT/Tx/T(f)/V(v)/MaxLen 3/Rect[1 2 3 4]/P 3 0 R>>");
    f.obj(7, "<</Subtype/Link/Rect[1 2 3 4]/A<</S/URI/URI(u)>>/Border[0 0 1]>>");
    f.obj(8, "<</Names[(a)[3 0 R/Fit]]/Limits[(a)(a)]>>");
    f.obj(9, "<</Type/Font/Subtype/Type1/BaseFont/Courier/FirstChar 32/Widths[600]>>");
    f.obj(10, "<</Title(o)/Parent 5 0 R/Dest[3 0 R/XYZ 0 0 1]>>");
    size_t at = f.s.size(); f.s += "xref\n"; f.tableRows();
    f.s += "trailer<</Size 11/Root 1 0 R/Info 4 0 R>>\n"; f.end(at);
    return f.s;
}
static string base(unsigned k) { return k == 0 ? tableFile() : k == 1 ? streamFile() : k == 2 ? updatedFile() : richFile(); }
// ---- load and look at everything there is; errors must be the library's own
static void outline(PdfDocument& d, PdfOutlineItem* o, unsigned depth)
{
    for (unsigned n = 0; o != nullptr && n < 4 && depth < 4; o = o->Next(), n++)
    {
        try { (void)o->GetTitle(); (void)o->GetTextFormat(); (void)o->GetTextColorBlue(); auto dest = o->GetDestination(); if (dest) { (void)dest->GetPage(); (void)dest->GetType(); (void)dest->GetZoom(); } } catch (PdfError&) { }
        outline(d, o->First(), depth + 1);
    }
}
static void field(PdfField& f)
{
    try { (void)f.GetFullName(); } catch (PdfError&) { }
    try { (void)f.GetName(); (void)f.GetType(); (void)f.IsReadOnly(); } catch (PdfError&) { }
    try { if (f.GetType() == PdfFieldType::TextBox) { auto& t = static_cast<PdfTextBox&>(f); (void)t.GetText(); (void)t.GetMaxLen(); } } catch (PdfError&) { }
    try { unsigned n = f.GetChildren().GetCount(); for (unsigned i = 0; i < n && i < 2; i++) (void)f.GetChildren().GetFieldAt(i).GetFullName(); } catch (PdfError&) { }
}
static void annots(PdfPage& p)
{
    for (unsigned i = 0; i < p.GetAnnotations().GetCount() && i < 3; i++)
        try { auto& a = p.GetAnnotations().GetAnnotAt(i); (void)a.GetRect(); (void)a.GetFlags(); (void)a.GetType(); (void)a.GetContents(); auto act = a.GetType() == PdfAnnotationType::Link ? static_cast<PdfAnnotationLink&>(a).GetAction() : nullptr; if (act != nullptr) { (void)act->GetType(); (void)act->GetURI(); } } catch (PdfError&) { }
    try { PdfContentsReader r(p); PdfContent c; for (unsigned i = 0; i < 40 && r.TryReadNext(c); i++) { } } catch (PdfError&) { }
    try { auto r = p.GetResources(); if (r != nullptr) (void)r->GetResource("Font", "F"); } catch (PdfError&) { }
}
static bool read(const string& s)
{
    PdfMemDocument d;
    try { d.LoadFromBuffer(bv(s)); } catch (PdfError&) { return false; }
    for (auto o : d.GetObjects())
        try { (void)o->GetVariant(); if (o->HasStream()) { charbuff b; o->MustGetStream().CopyTo(b); } } catch (PdfError&) { }
    try { unsigned n = d.GetPages().GetCount(); for (unsigned i = 0; i < n && i < 3; i++) { auto& p = d.GetPages().GetPageAt(i); (void)p.GetMediaBox(); (void)p.GetRotationRaw(); } } catch (PdfError&) { }
    try { auto i = d.GetInfo(); if (i != nullptr) { (void)i->GetTitle(); (void)i->GetCreationDate(); (void)i->GetTrapped(); } } catch (PdfError&) { }
    try { auto o = d.GetOutlines(); if (o != nullptr) outline(d, o->First(), 0); } catch (PdfError&) { }
    try { auto n = d.GetNames(); if (n != nullptr) { (void)n->GetValue("Dests", PdfString("a")); (void)n->HasValue("Dests", PdfString("b")); PdfDictionary all; n->ToDictionary("Dests", all); } } catch (PdfError&) { }
    try { auto f = d.GetAcroForm(); if (f != nullptr) for (unsigned i = 0; i < f->GetFieldCount() && i < 3; i++) field(f->GetFieldAt(i)); } catch (PdfError&) { }
    try { if (d.GetPages().GetCount() > 0) annots(d.GetPages().GetPageAt(0)); } catch (PdfError&) { }
    return true;
}
static bool parseQuiet(const string& s) { try { (void)parseVariant(s); return true; } catch (PdfError&) { return false; } }
// ---- any one byte of a file replaced
static void replaced(unsigned k, unsigned n)
{
    string s = base(k); unsigned at = pin("at", (unsigned)s.size() - n);
    string b = symBytes("bytes", n);
    for (unsigned i = 0; i < n; i++) s[at + i] = b[i];
    if (read(s)) __sx_reach("damaged file loads"); else __sx_reach("damaged file is rejected");
}
// ---- any part of a file removed
static void cut(unsigned k)
{
    string s = base(k);
    if (pin("how", 1)) s.resize(pin("to", (unsigned)s.size() - 1));
    else s.erase(pin("at", (unsigned)s.size() - 1), __sx_pin(rng("n", 1, deep() ? 8 : 2)));
    (void)read(s);
}
// ---- any number of the structure replaced by an extreme one
static void numbers(unsigned k)
{
    static const char* const V[] = { "0", "-1", "1", "6", "7", "19", "255", "65535", "65536", "8388607", "8388608", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "1.5", "1 0 R", "[1]", "/N", "4 0 R", "null" };
    string s = base(k), t; vector<std::pair<size_t, size_t>> runs;
    for (size_t i = 0; i < s.size();) if (s[i] >= '0' && s[i] <= '9') { size_t j = i; while (j < s.size() && s[j] >= '0' && s[j] <= '9') j++; runs.push_back({ i, j - i }); i = j; } else i++;
    auto r = runs[pin("number", (unsigned)runs.size() - 1)];
    s.replace(r.first, r.second, V[pin("value", (unsigned)std::size(V) - 1)]);
    if (read(s)) __sx_reach("extreme number accepted");
}
// ---- any token replaced by another, or left out
static void tokens(unsigned k)
{
    static const char* const V[] = { "", " null ", " 1 ", "/X", "(s)", "[", "]", "<<", ">>", " 1 0 R ", "[1]", "<<>>", " stream\n", " endobj ", "-0.5", " 7 0 R " };
    string s = base(k); vector<std::pair<size_t, size_t>> t;
    for (size_t i = 0; i < s.size();)
    {
        size_t j = i;
        if ((unsigned char)s[i] < 33) { i++; continue; }
        if (s[i] == '<' || s[i] == '>') j += i + 1 < s.size() && s[i + 1] == s[i] ? 2 : 1;
        else if (s[i] == '(') { while (s[j] != ')') j++; j++; }
        else { j++; if (s[i] != '[' && s[i] != ']') while (j < s.size() && isRegular(s[j])) j++; }
        t.push_back({ i, j - i }); i = j;
    }
    auto r = t[pin("token", (unsigned)t.size() - 1)];
    s.replace(r.first, r.second, V[pin("value", (unsigned)std::size(V) - 1)]);
    if (read(s)) __sx_reach("file with another token loads");
}
// ---- short files with nothing given
static void tiny()
{
    unsigned n = pin("size", deep() ? 12 : 8);
    string s = symBytes("file", n);
    if (pin("head", 1)) s = "%PDF-1.4" + s;
    if (pin("tail", 1)) s += "%%EOF";
    (void)read(s);
}
// ---- structure that leads back to itself or nests deeply
static void graph(unsigned k, unsigned what = 0)
{
    Build f("%PDF-1.4\n");
    auto ref = [](const char* n) { return n2s(1 + pin(n, 4)) + " 0 R"; };
    switch (k)
    {
        case 0:     // a page tree of any shape over three nodes
        {
            f.obj(1, "<</Type/Catalog/Pages " + ref("root") + ">>");
            for (unsigned i = 2; i <= 4; i++) f.obj(i, pin("leaf", 1) ? "<</Type/Page/Parent " + (deep() ? ref("parent") : string("2 0 R")) + ">>" : "<</Type/Pages/Count " + n2s(deep() ? (int64_t)pin("count", 2) : 1) + "/Kids[" + ref("kid") + "]>>");
            f.obj(5, "null");
            break;
        }
        case 1:     // lengths, filters and parameters that are other objects, or the stream itself
        {
            static const char* const KEYS[] = { "Length", "Filter", "DecodeParms" };
            f.obj(1, "<</Type/Catalog/Pages 2 0 R>>"); f.obj(2, "<</Type/Pages/Kids[]/Count 0>>");
            f.obj(3, "<</" + string(KEYS[pin("key", 2)]) + " " + ref("value") + ">>stream\nabc\nendstream");
            f.obj(4, ref("next")); f.obj(5, pin("kind", 1) ? ref("back") : "[ " + ref("back") + " ]");
            break;
        }
        case 2:     // containers nested deeply
        {
            string open = pin("kind", 1) ? "[" : "<</A"; unsigned n = pin("depth", 1) ? 100 : 20000; string b; for (unsigned i = 0; i < n; i++) b += open;
            f.obj(1, "<</Type/Catalog/Pages 2 0 R>>"); f.obj(2, b);
            (void)parseQuiet(b);
            // a rejected text leaves no trace in what is accepted
            string ok; for (unsigned i = 0; i < 200; i++) ok += '['; for (unsigned i = 0; i < 200; i++) ok += ']';
            SX_ASSERT(parseQuiet(ok), "nesting within the limit is accepted whatever was read before");
            for (unsigned i = 0; i < 60; i++) (void)parseQuiet(string(300, '['));
            SX_ASSERT(parseQuiet(ok), "nesting within the limit is accepted whatever was read before");
            break;
        }
        case 4:     // more rows promised than the file has
        {
            f.obj(1, "<</Type/Catalog/Pages 2 0 R>>"); f.obj(2, "<</Type/Pages/Kids[]/Count 0>>");
            size_t at = f.s.size() + 40; while (f.s.size() + 13 + padded(at, 10).size() + 7 < at) f.s += ' ';
            string tail = "startxref\n" + n2s((int64_t)at) + "\n%%EOF\n"; f.s.resize(at, ' '); f.s.replace(at - tail.size(), tail.size(), tail);
            f.s += "xref\n1 8000000\n"; for (unsigned i = pin("rows", 2); i > 0; i--) f.s += padded(f.at[1], 10) + " 00000 n \n";
            if (pin("partial", 1)) f.s += "0000000009 00";
            (void)read(f.s); return;
        }
        case 5:     // outlines, form fields, name trees and forms that lead anywhere
        {
            string links; auto to = [](const char* n) { return n2s(5 + pin(n, 2)) + " 0 R"; };
            static const char* const LIM[] = { "/Limits[(a)(b)]", "/Limits[(a)]", "/Limits[]", "", "/Limits 1" };
            static const char* const NAM[] = { "(a) 5 0 R", "(a) 1 (b)", "", "(b)", "[] 1" };
            static const char* const CAT[] = { "/Outlines 5 0 R", "/AcroForm<</Fields[5 0 R 6 0 R]>>", "/Names<</Dests 5 0 R>>", "" };
            f.obj(1, "<</Type/Catalog/Pages 2 0 R" + string(CAT[what]) + ">>"); f.obj(2, "<</Type/Pages/Kids[3 0 R]/Count 1>>");
            f.obj(3, string("<</Type/Page/Parent 2 0 R/Annots[5 0 R]") + (what == 3 ? "/Contents 4 0 R/Resources<</XObject<</F 5 0 R>>>>" : "") + ">>");
            f.obj(4, "<</Length 4>>stream\n/F Do\nendstream");
            for (unsigned i = 5; i <= 6; i++) switch (what)
            {
                case 0: f.obj(i, "<</Title(t)/First " + to("first") + "/Next " + to("next") + (pin("parent", 1) ? "/Parent 5 0 R/Prev " + to("prev") : string()) + ">>"); break;
                case 1: f.obj(i, "<</FT/Tx/T(t)/Subtype/Widget/Rect[0 0 1 1]/Parent " + to("parent") + "/Kids[" + to("kid") + "]>>"); break;
                case 2:
                    if (i == 6 && !deep()) { f.obj(6, "<</" + string(pin("kids", 1) ? "Kids[" : "Other[") + to("kid") + "]/Names[" + NAM[pin("names", 1) * 3] + "]>>"); break; }
                    f.obj(i, string(pin("kids", 1) ? "<</Kids[" : "<</Other[") + to("kid") + " " + to("kid") + "]" + LIM[pin("limits", 4)] + "/Names[" + NAM[pin("names", 4)] + "]>>"); break;
                case 3: f.obj(i, "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]/Resources<</XObject<</F " + to("form") + ">>>>/Length 4>>stream\n/F Do\nendstream"); break;
            }
            f.obj(7, deep() && pin("end", 1) ? " " + to("back") : string(" null"));
            break;
        }
        case 3:     // sections that name each other
        {
            f.obj(1, "<</Type/Catalog/Pages 2 0 R>>"); f.obj(2, "<</Type/Pages/Kids[]/Count 0>>");
            size_t at[3]; string key = pin("key", 1) ? "Prev" : "XRefStm";
            unsigned to[3] = { pin("to", 2), pin("to", 2), pin("to", 2) };
            size_t len = ("xref\n0 1\n0000000000 65535 f \ntrailer<</Size 3/Root 1 0 R/" + key + " 0000>>\n").size();
            for (unsigned i = 0; i < 3; i++) at[i] = f.s.size() + i * len;
            for (unsigned i = 0; i < 3; i++) f.s += "xref\n0 1\n0000000000 65535 f \ntrailer<</Size 3/Root 1 0 R/" + key + " " + padded(at[to[i]], 4) + ">>\n";
            f.end(at[0]); (void)read(f.s); return;
        }
    }
    size_t at = f.s.size(); f.s += "xref\n"; f.tableRows();
    f.s += "trailer<</Size 9/Root 1 0 R>>\n"; f.end(at);
    if (read(f.s)) __sx_reach("strange structure loads");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    unsigned k = __sx_range("case", 0, 25);
    if (k < 4) replaced(k, deep() ? 2 : 1);
    else if (k < 8) cut(k - 4);
    else if (k < 12) numbers(k - 8);
    else if (k < 16) tokens(k - 12);
    else if (k < 20) graph(k - 16);
    else if (k == 20) { for (unsigned i = 0; i < 4; i++) SX_ASSERT(read(base(i)), "the undamaged file loads"); tiny(); }
    else if (k == 21) graph(4);
    else graph(5, k - 22);
}
