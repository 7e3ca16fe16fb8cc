#include "values.h"
#include "zmodel.h"
#include <pdfmm/base/PdfContentsReader.h>
#include <pdfmm/base/PdfOperatorUtils.h>
#include <pdfmm/base/PdfXObjectForm.h>
#include <pdfmm/base/PdfImage.h>
#include <map>
#include <set>
#include <pdfmm/base/PdfCanvasInputDevice.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
// ISO 32000-1, Annex A: operators and their number of operands (-1: varying), in the order of the enumeration
struct Op { const char* name; int n; };
static const Op OPS[] = { {"w",1},{"J",1},{"j",1},{"M",1},{"d",2},{"ri",1},{"i",1},{"gs",1},{"q",0},{"Q",0},{"cm",6},{"m",2},{"l",2},{"c",6},{"v",4},{"y",4},{"h",0},{"re",4},
    {"S",0},{"s",0},{"f",0},{"F",0},{"f*",0},{"B",0},{"B*",0},{"b",0},{"b*",0},{"n",0},{"W",0},{"W*",0},{"BT",0},{"ET",0},{"Tc",1},{"Tw",1},{"Tz",1},{"TL",1},{"Tf",2},{"Tr",1},{"Ts",1},
    {"Td",2},{"TD",2},{"Tm",6},{"T*",0},{"Tj",1},{"TJ",1},{"'",1},{"\"",3},{"d0",2},{"d1",6},{"CS",1},{"cs",1},{"SC",-1},{"SCN",-1},{"sc",-1},{"scn",-1},{"G",1},{"g",1},{"RG",3},{"rg",3},{"K",4},{"k",4},
    {"sh",1},{"BI",0},{"ID",0},{"EI",0},{"Do",1},{"MP",1},{"DP",2},{"BMC",1},{"BDC",2},{"EMC",0},{"BX",0},{"EX",0} };
static const unsigned NOPS = sizeof(OPS) / sizeof(OPS[0]);
static const Op* find(const string& k) { for (auto& o : OPS) if (k == o.name) return &o; return nullptr; }
// one event of the reader as text
static string ev(const PdfContent& c)
{
    string r; string st; for (auto it = c.Stack.rbegin(); it != c.Stack.rend(); ++it) st += show(*it) + " ";
    for (size_t i = 0; i < c.Stack.GetSize(); i++) { auto it = c.Stack.begin(); for (size_t k = 0; k < i; k++) ++it; SX_ASSERT(&c.Stack[i] == &*it, "operands are counted from the last"); }
    switch (c.Type)
    {
        case PdfContentType::Operator: SX_ASSERT(c.Operator != PdfOperator::Unknown && c.Keyword == GetPdfOperatorName(c.Operator), "the operator and its keyword agree"); r = "op:" + string(c.Keyword) + " " + st; break;
        case PdfContentType::ImageDictionary: r = "dict:" + show(PdfVariant(c.InlineImageDictionary)); break;
        case PdfContentType::ImageData: r = "data:" + string(c.InlineImageData.data(), c.InlineImageData.size()); break;
        case PdfContentType::DoXObject: SX_ASSERT(c.XObject != nullptr && c.Name != nullptr, "an external object is named and given"); r = string("do:") + c.Name->GetRawData() + (c.XObject->GetType() == PdfXObjectType::Form ? " form" : " image"); break;
        case PdfContentType::EndXObjectForm: r = "end:" + st; break;
        case PdfContentType::UnexpectedKeyword: r = "key:" + string(c.Keyword) + " " + st; break;
        default: r = "?";
    }
    if ((c.Warnings & PdfContentWarnings::InvalidOperator) != PdfContentWarnings::None) r += "!few";
    if ((c.Warnings & PdfContentWarnings::SpuriousStackContent) != PdfContentWarnings::None) r += "!many";
    if ((c.Warnings & PdfContentWarnings::InvalidXObject) != PdfContentWarnings::None) r += "!xobj";
    if ((c.Warnings & PdfContentWarnings::RecursiveXObject) != PdfContentWarnings::None) r += "!rec";
    if ((c.Warnings & PdfContentWarnings::InvalidImageDictionaryContent) != PdfContentWarnings::None) r += "!dict";
    if ((c.Warnings & PdfContentWarnings::MissingEndImage) != PdfContentWarnings::None) r += "!end";
    return r;
}
static vector<string> events(PdfContentsReader& r, unsigned most = 40)
{
    vector<string> v; PdfContent c;
    while (r.TryReadNext(c)) { v.push_back(ev(c)); SX_ASSERT(v.size() <= most, "reading ends"); }
    SX_ASSERT(c.Type == PdfContentType::Unknown && !r.TryReadNext(c), "the end stays the end");
    return v;
}
static void agree(const vector<string>& want, const vector<string>& got)
{
    SX_ASSERT(got.size() == want.size(), "each operator is reported once, and nothing else");
    for (unsigned i = 0; i < want.size(); i++) SX_ASSERT(got[i] == want[i], "each event has its operator and operands, images their dictionary and data");
}
static std::shared_ptr<SpanStreamDevice> dev(const string& s) { return std::make_shared<SpanStreamDevice>(bv(s)); }
static string opEvent(const string& k, const vector<string>& operands)
{
    auto o = find(k); string e = (o ? "op:" : "key:") + k + " "; for (auto& x : operands) e += x + " ";
    if (o && o->n != -1) { if ((int)operands.size() < o->n) e += "!few"; else if ((int)operands.size() > o->n) e += "!many"; }
    return e;
}
// names and operand counts of all operators
static void table()
{
    unsigned k = pin("k", NOPS - 1); auto op = (PdfOperator)(k + 1), got = PdfOperator::Unknown;
    SX_ASSERT(GetPdfOperatorName(op) == OPS[k].name && TryGetPdfOperator(OPS[k].name, got) && got == op && GetPdfOperator(OPS[k].name) == op, "names and operators are each other's inverse");
    SX_ASSERT(GetOperandCount(op) == OPS[k].n, "an operator has the number of operands of the specification");
    // any short keyword
    if (k == 0 && pin("any", 1)) {
    string w = symBytes("w", 1 + pin("len", 2)); bool known = false; for (auto& o : OPS) { bool eq = strlen(o.name) == w.size(); if (eq) for (unsigned i = 0; i < w.size(); i++) eq = eq & (w[i] == o.name[i]); known = known | eq; }
    SX_ASSERT(TryGetPdfOperator(w, got) == known, "exactly the operators of the specification are known");
    if (known) SX_ASSERT(GetPdfOperatorName(got) == w, "names and operators are each other's inverse"); __sx_reach("table"); return; }
    // read with too few, as many and too many operands
    unsigned n = deep() ? pin("n", 7) : OPS[k].n < 0 ? 2 : (unsigned)OPS[k].n + 1 - pin("n", OPS[k].n ? 2 : 1); string s, sep = pin("sep", 1) ? "\n" : " "; vector<string> v;
    if (!strcmp(OPS[k].name, "BI")) __sx_end();
    for (unsigned i = 0; i < n; i++) { s += std::to_string(i + 1) + sep; v.push_back("#" + std::to_string((i + 1) * 1000)); }
    s += OPS[k].name;
    PdfContentsReader r(dev(s)); agree({ opEvent(OPS[k].name, v) }, events(r)); __sx_reach("table");
}
// operands of every kind, comments and unknown keywords
struct Text { unsigned style = 0; string s; vector<string> want; vector<string> stack; };
static void space(Text& t) { static const char* const W[] = { " ", "\n", "%x(\n", "\r\n\t" }; t.s += W[deep() ? pin("ws", 3) : 2 * t.style]; }
static void operand(Text& t, unsigned k)
{
    switch (k)
    {
        case 0: t.s += "7"; t.stack.push_back("#7000"); break;
        case 1: t.s += "-.5"; t.stack.push_back("#-500"); break;
        case 2: { string b = symBytes("name", 1); __sx_assume(isRegular(b[0]) && b[0] != '#' && b[0] != 0); t.s += "/N" + b; t.stack.push_back("/N" + b + " "); break; }
        case 3: { string b = symBytes("str", 1); __sx_assume(b[0] != '(' && b[0] != ')' && b[0] != '\\' && b[0] != '\r'); t.s += "(" + b + ")"; t.stack.push_back("(" + b + ")"); break; }
        case 4: t.s += "[1(a)[/B]]"; t.stack.push_back("[#1000 (a) [/B  ] ]"); break;
        case 5: t.s += "<</K 1/L[true]>>"; t.stack.push_back("{K=#1000 L=[T ] }"); break;
        case 6: t.s += "<41 4>"; t.stack.push_back("<A@)"); break;
        case 7: t.s += "true"; t.stack.push_back("T"); break;
        default: t.s += "null"; t.stack.push_back("N"); break;
    }
}
static void keyword(Text& t, unsigned k)
{
    static const char* const K[] = { "re", "Tj", "scn", "'", "q", "Foo", "T*", "\"", "endobj", "R" };
    t.s += K[k]; t.want.push_back(opEvent(K[k], t.stack)); t.stack.clear();
}
static void sequence()
{
    Text t; unsigned n = deep() ? 4 : 3; if (!deep()) t.style = pin("ws", 1);
    for (unsigned i = 0; i < n; i++)
    {
        if (i) space(t);
        if (pin("what", 1)) keyword(t, pin("kw", 9)); else operand(t, pin("kind", 8));
    }
    if (!deep() ? t.style : pin("final", 1)) space(t);
    PdfContentsReader r(dev(t.s)); agree(t.want, events(r)); __sx_reach("sequence");
}
// inline images: data up to the first EI that white space or the end follows
static size_t endOf(const string& d)
{
    for (size_t i = 0; i + 1 < d.size(); i++) if (d[i] == 'E' && d[i + 1] == 'I' && (i + 2 == d.size() || isWs(d[i + 2]))) return i;
    return string::npos;
}
static void image()
{
    unsigned n = pin("len", deep() ? 6 : 5); string d = symBytes("d", n);
    if (pin("crowded", 1)) for (char c : d) __sx_assume(c == 'E' || c == 'I' || c == ' ' || c == 'x');
    else if (n > 3) __sx_end();
    static const char* const TAIL[] = { "EI Q", "\nEI\nQ", "EI", " EIEI\nQ" }; unsigned tk = pin("tail", 3);
    string s = "q BI/W 2/H 1/F[/A85] ID " + d + TAIL[tk];
    string all = s.substr(s.find("ID ") + 3); size_t e = endOf(all);
    vector<string> want = { "op:q ", "dict:{F=[/A85  ] H=#1000 W=#2000 }" };
    SX_ASSERT(e != string::npos, "there is an end");
    want.push_back("data:" + all.substr(0, e));
    // what follows is content again: only looked at when the data ends where we put the end
    bool exact = e == d.size() + (tk == 1 ? 1 : tk == 3 ? 3 : 0);
    if (exact && tk != 2) want.push_back("op:Q ");
    PdfContentsReader r(dev(s)); vector<string> got; PdfContent c;
    while (r.TryReadNext(c)) { got.push_back(ev(c)); if (got.size() == 3 && !exact) break; }
    agree(want, got); __sx_reach("image");
}
// a handler that takes the data itself
static void handler()
{
    unsigned n = pin("len", 3); string d = symBytes("d", n), dict; unsigned take = pin("take", 1); bool missing = pin("missing", 1);
    string s = "BI/L " + std::to_string(n) + " ID " + d + (missing ? " Q 1 w" : "\nEI Q 1 w");
    PdfContentReaderArgs a;
    string seen; unsigned calls = 0;
    a.InlineImageHandler = [&](const PdfDictionary& dd, InputStreamDevice& in) { calls++; dict = show(PdfVariant(dd)); char ch; if (!in.Read(ch)) return false; for (unsigned i = 0; i < n; i++) { if (!in.Read(ch)) return false; seen.push_back(ch); } return take == 0; };
    PdfContentsReader r(dev(s), a); vector<string> want = { "dict:{L=#" + std::to_string(n * 1000) + " }" };
    if (take == 0) { want.push_back(missing ? "op:Q !end" : "op:Q "); want.push_back("op:w #1000 "); }
    agree(want, events(r)); SX_ASSERT(calls == 1 && seen == d && dict == want[0].substr(5), "the handler is given the dictionary and the data");
    __sx_reach("handler");
}
// external objects are followed, once per level
static PdfObject& xobject(PdfMemDocument& d, const string& content, bool image)
{
    auto& o = d.GetObjects().CreateDictionaryObject("XObject", image ? "Image" : "Form");
    o.GetDictionary().AddKey("BBox", PdfArray()); if (!image) { PdfArray b; for (int i = 0; i < 4; i++) b.Add(PdfObject(PdfVariant((int64_t)i))); o.GetDictionary().AddKey("BBox", b); }
    else { o.GetDictionary().RemoveKey("BBox"); o.GetDictionary().AddKey("Width", (int64_t)1); o.GetDictionary().AddKey("Height", (int64_t)1); }
    o.GetOrCreateStream().SetData(bv(content), true); return o;
}
struct Form { string text; bool image; PdfObject* obj; };
static void expectForm(const std::map<char, Form>& forms, const string& text, std::set<char>& open, bool follow, vector<string>& want, bool top)
{
    vector<string> st; bool stop = false;
    for (size_t i = 0; i < text.size() && !stop; )
    {
        if (text[i] == ' ') { i++; continue; }
        size_t e = text.find(' ', i); if (e == string::npos) e = text.size(); string tok = text.substr(i, e - i); i = e;
        if (tok[0] == '/') { st.push_back(tok); continue; }
        if (tok == "BI") { want.push_back("dict:{}"); if (text.find("EI", i) == string::npos) { stop = true; break; } size_t a = text.find("ID ", i) + 3, b = text.find("EI", a); want.push_back("data:" + text.substr(a, b - a)); i = b + 2; continue; }
        if (tok != "Do") { string o = "op:" + tok + " "; for (auto& x : st) o += x + "  "; if (!st.empty()) o += "!many"; want.push_back(o); st.clear(); continue; }
        auto f = st.size() == 1 ? forms.find(st[0][1]) : forms.end();
        if (f == forms.end() || f->second.obj == nullptr) { string o = "op:Do "; for (auto& x : st) o += x + "  "; if (st.empty()) o += "!few"; if (st.size() > 1) o += "!many"; want.push_back(o + "!xobj"); st.clear(); continue; }
        char n = f->first; string o = string("do:") + n + (f->second.image ? " image" : " form"); st.clear();
        if (open.count(n)) { want.push_back(o + "!rec"); continue; }
        want.push_back(o);
        if (f->second.image || !follow) continue;
        open.insert(n); expectForm(forms, f->second.text, open, follow, want, false); open.erase(n);
    }
    if (!top) { string o = "end:"; if (!stop) { for (auto& x : st) o += x + "  "; if (!st.empty()) o += "!many"; } want.push_back(o); }
}
static string formText(unsigned k)
{
    static const char* const T[] = { "q Q", "/A Do", "/B Do n", "/I Do /B Do", "/X Do q", "", "/N", "BI ID abEI Q", "BI ID ab", "Do", "/A /B Do" };
    return T[k];
}
static void forms()
{
    PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfRect(0, 0, 10, 10)); std::map<char, Form> m;
    m['A'].text = formText(pin("a", deep() ? 10 : 8)); m['B'].text = formText(pin("b", deep() ? 10 : 8)); m['I'].text = "data"; m['I'].image = true; m['A'].image = m['B'].image = false;
    string text = formText(1) + " " + formText(deep() ? pin("page", 10) : 2 + 2 * pin("page", 3));
    for (auto& f : m) f.second.obj = &xobject(d, f.second.text, f.second.image);
    m['X'].obj = nullptr;
    // the resources of the page and of the forms name all of them
    auto& res = page.GetOrCreateResources();
    for (auto& f : m) if (f.second.obj) res.AddResource("XObject", PdfName(string(1, f.first)), f.second.obj->GetIndirectReference());
    for (auto& f : m) if (f.second.obj && !f.second.image) f.second.obj->GetDictionary().AddKey("Resources", res.GetObject());
    page.GetOrCreateContents().GetStreamForAppending().SetData(bv(text), true);
    bool follow = !pin("stay", 1);
    PdfContentReaderArgs a; if (!follow) a.Flags = PdfContentReaderFlags::DontFollowXObjectForms;
    vector<string> want; std::set<char> open; expectForm(m, text, open, follow, want, true);
    PdfContentsReader r(page, a); agree(want, events(r, 200)); __sx_reach("forms");
}
// the streams of a page are read one after another, divided between tokens
static void parts()
{
    PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfRect(0, 0, 10, 10)); PdfArray a; unsigned n = pin("n", deep() ? 4 : 3); string all;
    for (unsigned i = 0; i < n; i++)
    {
        static const char* const P[] = { "1 2", "m q", "", "(a", "b)Tj", "/N" };
        unsigned k = pin("part", 6);
        if (k == 6) { a.Add(PdfObject(PdfReference(99, 0))); continue; }
        auto& o = d.GetObjects().CreateDictionaryObject(); string p = P[k]; if (k == 5) p = "/" + string(1, (char)(__sx_range("c", 'N', 'P')));
        if (pin("plain", 1)) o.GetOrCreateStream().SetData(bv(p), true); else o.GetOrCreateStream().SetData(bv(p), { PdfFilterType::FlateDecode });
        a.Add(PdfObject(o.GetIndirectReference())); if (!p.empty()) { if (!all.empty()) all += "\n"; all += p; }
    }
    page.GetObject().GetDictionary().AddKey("Contents", a);
    string got; PdfMemDocument copy(d); PdfCanvasInputDevice in(copy.GetPages().GetPageAt(0)); unsigned how = pin("how", 2); char ch; bool eof = false;
    if (how == 0) while (in.Read(ch)) got.push_back(ch);
    else if (how == 1) while (!eof) { char b[3]; size_t c = in.Read(b, 3, eof); got.append(b, c); SX_ASSERT(got.size() < 100, "reading ends"); }
    else while (in.Peek(ch)) { char c2; SX_ASSERT(in.Read(c2) && c2 == ch, "what is peeked at is read next"); got.push_back(ch); }
    SX_ASSERT(got == all || got == all + "\n", "the contents are the streams in their order, with a separator between them");
    __sx_reach("parts");
}
// any bytes: events or an error, then the end
static void bytes()
{
    string s = symBytes("s", pin("len", deep() ? 4 : 3)); if (s.size() > 2 && !deep()) { try { PdfContentsReader r(dev(s)); events(r); } catch (PdfError&) { } return; } static const char* const A[] = { "", "(", "<", "BI ", "BI/A 1 ID ", "[1 ", "/A ", "q\n" };
    s = A[pin("after", 7)] + s;
    try { PdfContentsReader r(dev(s)); events(r); } catch (PdfError&) { }
    __sx_reach("bytes");
}
// the flag makes any warning an error
static void strict()
{
    Text t; unsigned n = 3; for (unsigned i = 0; i < n; i++) { if (i) t.s += " "; if (pin("what", 1)) keyword(t, pin("kw", 9)); else operand(t, 0); }
    PdfContentReaderArgs a; a.Flags = PdfContentReaderFlags::ThrowOnWarnings; PdfContentsReader r(dev(t.s), a);
    bool warn = false; for (auto& w : t.want) if (w.find('!') != string::npos) warn = true;
    bool thrown = false; try { events(r); } catch (PdfError&) { thrown = true; }
    SX_ASSERT(thrown == warn, "warnings are errors when asked for, and nothing else is"); __sx_reach("strict");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 7))
    {
        case 0: table(); break;
        case 1: sequence(); break;
        case 2: image(); break;
        case 3: handler(); break;
        case 4: forms(); break;
        case 5: parts(); break;
        case 6: bytes(); break;
        default: strict(); break;
    }
}
