// C36: content written by the painter
#include "common.h"
#include "zmodel.h"
#include <map>
#include <set>
#include <memory>
#include <cmath>
#include <pdfmm/base/PdfExtGState.h>
#include <pdfmm/base/PdfXObjectForm.h>
using std::map;
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static bool near(double a, double b) { return a - b < 2e-3 && b - a < 2e-3; }
// ---- the graphics state in effect
struct G
{
    double w = 1, M = 10; int J = 0, j = 0; string ri, dash, fill = "g 0", stroke = "G 0";
    double ctm[6] = { 1, 0, 0, 1, 0, 0 };
    double Tz = 100, Tc = 0, Tw = 0, size = 0; int Tr = 0; string font, gs;
};
static void concat(double* ctm, const double* m)
{
    double r[6] = { m[0] * ctm[0] + m[1] * ctm[2], m[0] * ctm[1] + m[1] * ctm[3], m[2] * ctm[0] + m[3] * ctm[2], m[2] * ctm[1] + m[3] * ctm[3],
        m[4] * ctm[0] + m[5] * ctm[2] + ctm[4], m[4] * ctm[1] + m[5] * ctm[3] + ctm[5] };
    for (int i = 0; i < 6; i++) ctm[i] = r[i];
}
struct Event { string op, text; vector<double> nums; string path; G g; };
static vector<Event> Got, Want;
static G GotEnd;
static void colour(string& s, const char* op, const vector<double>& v) { s = op; for (double d : v) { s += ' '; s += std::to_string((long)(d * 4096 + (d < 0 ? -0.5 : 0.5))); } }
static bool same(const Event& a, const Event& b)
{
    if (a.op != b.op || a.text != b.text || a.path != b.path || a.nums.size() != b.nums.size()) return false;
    for (size_t i = 0; i < a.nums.size(); i++) if (!near(a.nums[i], b.nums[i])) return false;
    for (int i = 0; i < 6; i++) if (!near(a.g.ctm[i], b.g.ctm[i])) return false;
    if (!near(a.g.w, b.g.w) || !near(a.g.M, b.g.M) || a.g.J != b.g.J || a.g.j != b.g.j || a.g.ri != b.g.ri || a.g.dash != b.g.dash || a.g.fill != b.g.fill || a.g.stroke != b.g.stroke || a.g.gs != b.g.gs) return false;
    if (a.op == "Tj" && (!near(a.g.Tz, b.g.Tz) || !near(a.g.Tc, b.g.Tc) || !near(a.g.Tw, b.g.Tw) || !near(a.g.size, b.g.size) || a.g.Tr != b.g.Tr || a.g.font != b.g.font)) return false;
    return true;
}
// ---- reading content
struct Tok { char kind; string s; double n; }; // n number, / name, s string, [ array, o operator
static vector<Tok> tokens(const string& c)
{
    vector<Tok> r; size_t i = 0;
    while (i < c.size())
    {
        unsigned char ch = c[i];
        if (isWs(ch)) { i++; continue; }
        if (ch == '/')
        {
            string s; i++;
            while (i < c.size() && isRegular(c[i]))
            {
                if (c[i] == '#') { SX_ASSERT(i + 2 < c.size() && hexVal(c[i + 1]) >= 0 && hexVal(c[i + 2]) >= 0, "escapes in names are complete"); s.push_back((char)(hexVal(c[i + 1]) << 4 | hexVal(c[i + 2]))); i += 3; }
                else s.push_back(c[i++]);
            }
            r.push_back({ '/', s, 0 });
        }
        else if (ch == '<')
        {
            string s; int hi = -1; i++;
            while (i < c.size() && c[i] != '>') { int v = hexVal(c[i++]); SX_ASSERT(v >= 0, "hexadecimal strings have hexadecimal digits"); if (hi < 0) hi = v; else { s.push_back((char)(hi << 4 | v)); hi = -1; } }
            SX_ASSERT(i < c.size() && hi < 0, "strings are complete"); i++;
            r.push_back({ 's', s, 0 });
        }
        else if (ch == '[')
        {
            size_t e = c.find(']', i); SX_ASSERT(e != string::npos, "arrays are closed");
            string s = c.substr(i, e - i + 1), t;
            for (char x : s) if (!(x == ' ' && (t.size() == 0 || t.back() == ' ' || t.back() == '['))) t.push_back(x);
            r.push_back({ '[', t, 0 }); i = e + 1;
        }
        else
        {
            SX_ASSERT(isRegular(ch), "no stray delimiters in the content");
            size_t e = i; while (e < c.size() && isRegular(c[e])) e++;
            string s = c.substr(i, e - i); i = e;
            if ((ch >= '0' && ch <= '9') || ch == '-' || ch == '.')
            {
                bool neg = false, dot = false; double v = 0, f = 1; size_t k = 0, digits = 0;
                if (s[0] == '-') { neg = true; k = 1; }
                for (; k < s.size(); k++)
                {
                    if (s[k] == '.') { SX_ASSERT(!dot, "numbers have one point"); dot = true; continue; }
                    SX_ASSERT(s[k] >= '0' && s[k] <= '9', "numbers have digits only"); digits++;
                    if (dot) { f /= 10; v += (s[k] - '0') * f; } else v = v * 10 + (s[k] - '0');
                }
                SX_ASSERT(digits > 0, "numbers have digits");
                r.push_back({ 'n', s, neg ? -v : v });
            }
            else r.push_back({ 'o', s, 0 });
        }
    }
    return r;
}
static void path(string& p, const char* op, const double* v, int n, const double* ctm)
{
    p += op;
    for (int i = 0; i + 1 < n; i += 2)
    {
        double x = v[i] * ctm[0] + v[i + 1] * ctm[2] + ctm[4], y = v[i] * ctm[1] + v[i + 1] * ctm[3] + ctm[5];
        p += ' '; p += std::to_string((long)std::floor(x * 64 + 0.5)); p += ' '; p += std::to_string((long)std::floor(y * 64 + 0.5));
    }
    p += ';';
}
static const PdfDictionary* Res; static bool CheckRes;
static void resource(const char* type, const string& name)
{
    if (!CheckRes) return;
    const PdfObject* t = Res ? Res->FindKey(type) : nullptr;
    SX_ASSERT(t != nullptr && t->IsDictionary() && t->GetDictionary().FindKey(PdfName(name)) != nullptr, "everything the content names is in the resources");
}
static void interpret(const string& c)
{
    G g; vector<G> stack; vector<Tok> a; string p; bool open = false, text = false, clip = false; int mc = 0; double tx = 0, ty = 0; string csF, csS;
    auto kinds = [&](const char* k) { bool ok = a.size() == strlen(k); for (size_t i = 0; ok && i < a.size(); i++) ok = a[i].kind == k[i]; SX_ASSERT(ok, "every operator has its operands"); };
    for (auto& t : tokens(c))
    {
        if (t.kind != 'o') { a.push_back(t); continue; }
        const string& o = t.s; double v[6] = { 0 };
        for (size_t i = 0; i < a.size() && i < 6; i++) v[i] = a[i].n;
        bool isPath = o == "m" || o == "l" || o == "c" || o == "re" || o == "h", isPaint = o == "S" || o == "f" || o == "f*" || o == "B" || o == "B*" || o == "n", isClip = o == "W" || o == "W*";
        if (text) SX_ASSERT(!isPath && !isPaint && !isClip && o != "q" && o != "Q" && o != "cm" && o != "Do" && o != "BT", "no path, state nesting or XObject inside text objects");
        if (open && !isPath && !isPaint && !isClip) SX_ASSERT(false, "a path under construction is only continued or painted");
        if (clip) SX_ASSERT(isPaint, "a clipping path is ended by painting");
        if (o == "q") { kinds(""); stack.push_back(g); }
        else if (o == "Q") { kinds(""); SX_ASSERT(stack.size() > 0, "a state restored was saved before"); g = stack.back(); stack.pop_back(); }
        else if (o == "cm") { kinds("nnnnnn"); concat(g.ctm, v); }
        else if (o == "w") { kinds("n"); g.w = v[0]; }
        else if (o == "M") { kinds("n"); g.M = v[0]; }
        else if (o == "J") { kinds("n"); g.J = (int)v[0]; }
        else if (o == "j") { kinds("n"); g.j = (int)v[0]; }
        else if (o == "ri") { kinds("/"); g.ri = a[0].s; }
        else if (o == "d") { kinds("[n"); g.dash = a[0].s + " " + a[1].s; }
        else if (o == "gs") { kinds("/"); resource("ExtGState", a[0].s); g.gs = a[0].s; }
        else if (o == "g" || o == "G") { kinds("n"); colour(o == "g" ? g.fill : g.stroke, o.c_str(), { v[0] }); }
        else if (o == "rg" || o == "RG") { kinds("nnn"); colour(o == "rg" ? g.fill : g.stroke, o.c_str(), { v[0], v[1], v[2] }); }
        else if (o == "k" || o == "K") { kinds("nnnn"); colour(o == "k" ? g.fill : g.stroke, o.c_str(), { v[0], v[1], v[2], v[3] }); }
        else if (o == "cs" || o == "CS") { kinds("/"); if (a[0].s != "Pattern") resource("ColorSpace", a[0].s); (o == "cs" ? csF : csS) = a[0].s; (o == "cs" ? g.fill : g.stroke) = "unset"; }
        else if (o == "scn" || o == "SCN")
        {
            string& cs = o == "scn" ? csF : csS; string& s = o == "scn" ? g.fill : g.stroke;
            SX_ASSERT(s == "unset", "a colour follows its colour space");
            if (cs == "Pattern") { kinds("/"); resource("Pattern", a[0].s); s = "pattern " + a[0].s; }
            else { SX_ASSERT(a.size() == 1 || a.size() == 3, "colours have their components"); vector<double> l; for (auto& x : a) { SX_ASSERT(x.kind == 'n', "colours have numbers"); l.push_back(x.n); } colour(s, cs.c_str(), l); }
        }
        else if (isPath)
        {
            int n = o == "c" ? 6 : o == "re" ? 4 : o == "h" ? 0 : 2;
            kinds(n == 6 ? "nnnnnn" : n == 4 ? "nnnn" : n == 2 ? "nn" : "");
            if (o != "m" && o != "re") SX_ASSERT(open, "a path starts with a point");
            if (o == "re") { double q[4] = { v[0], v[1], v[0] + v[2], v[1] + v[3] }; path(p, "re", q, 4, g.ctm); }
            else path(p, o.c_str(), v, n, g.ctm);
            open = true;
        }
        else if (isClip) { kinds(""); SX_ASSERT(open, "clipping needs a path"); clip = true; p += o; p += ';'; }
        else if (isPaint) { kinds(""); SX_ASSERT(open, "painting needs a path"); Got.push_back({ o, "", { }, p, g }); p.clear(); open = clip = false; }
        else if (o == "Do") { kinds("/"); resource("XObject", a[0].s); Got.push_back({ o, a[0].s, { }, "", g }); }
        else if (o == "BT") { kinds(""); text = true; tx = ty = 0; }
        else if (o == "ET") { kinds(""); SX_ASSERT(text, "a text object ended was begun"); text = false; }
        else if (o == "Td") { kinds("nn"); SX_ASSERT(text, "text is positioned inside text objects"); tx += v[0]; ty += v[1]; }
        else if (o == "Tj") { kinds("s"); SX_ASSERT(text, "text is shown inside text objects"); SX_ASSERT(g.font.size() > 0, "text is shown with a font"); Got.push_back({ o, a[0].s, { tx, ty }, "", g }); }
        else if (o == "Tf") { kinds("/n"); resource("Font", a[0].s); g.font = a[0].s; g.size = v[1]; }
        else if (o == "Tz") { kinds("n"); g.Tz = v[0]; }
        else if (o == "Tc") { kinds("n"); g.Tc = v[0]; }
        else if (o == "Tw") { kinds("n"); g.Tw = v[0]; }
        else if (o == "Tr") { kinds("n"); g.Tr = (int)v[0]; }
        else if (o == "BMC") { kinds("/"); mc++; Got.push_back({ o, a[0].s, { }, "", g }); }
        else if (o == "EMC") { kinds(""); SX_ASSERT(mc > 0, "marked content ended was begun"); mc--; Got.push_back({ o, "", { }, "", g }); }
        else SX_ASSERT(false, "only the operators of the calls are written");
        a.clear();
    }
    SX_ASSERT(a.size() == 0, "no operands are left over");
    SX_ASSERT(stack.size() == 0 && !text && !open && mc == 0, "the content ends with everything closed");
    GotEnd = g;
}
static string contents(PdfDocument& doc, const PdfObject* o)
{
    string r; (void)doc;
    auto add = [&](const PdfObject& s) { const PdfObjectStream* st = s.GetStream(); if (st == nullptr) return; charbuff b; st->CopyTo(b); r.append(b.data(), b.size()); r.push_back('\n'); };
    if (o == nullptr) return r;
    if (o->IsArray()) { for (unsigned i = 0; i < o->GetArray().GetSize(); i++) add(o->GetArray().MustFindAt(i)); }
    else add(*o);
    return r;
}
// ---- driving the painter and the model together
static PdfMemDocument* Doc; static PdfPainter* P; static G g; static vector<G> Stack; static vector<int> Cms; static int Cm;
static std::unique_ptr<PdfFont> makeFont(const char* name)
{
    PdfObject& o = Doc->GetObjects().CreateDictionaryObject();
    o.GetDictionary().AddKey("Type", PdfName("Font")); o.GetDictionary().AddKey("Subtype", PdfName("Type1")); o.GetDictionary().AddKey("BaseFont", PdfName(name));
    PdfDictionary d; d.AddKey("FontName", PdfName(name)); o.GetDictionary().AddKey("FontDescriptor", d);
    o.GetDictionary().AddKey("Encoding", PdfName("WinAnsiEncoding"));
    std::unique_ptr<PdfFont> f;
    if (!PdfFont::TryCreateFromObject(o, f)) return nullptr;
    return f;
}
static double GuessX; // current point of the model
static void want(const char* op, const string& p = "", const string& text = "", vector<double> nums = { }) { Want.push_back({ op, text, nums, p, g }); }
static void probe()
{
    double v[4] = { 1, 2, 3, 4 };
    P->DrawLine(1, 2, 3, 4);
    string p; path(p, "m", v, 2, g.ctm); path(p, "l", v + 2, 2, g.ctm); want("S", p);
}
static void begin(PdfCanvas& c) { Got.clear(); Want.clear(); g = G(); Stack.clear(); Cms.clear(); Cm = 0; P->SetCanvas(c); }
static void finish(PdfPage& page)
{
    while (Stack.size()) { P->Restore(); g = Stack.back(); Stack.pop_back(); }
    P->FinishDrawing();
    Res = page.GetResources() ? &page.GetResources()->GetDictionary() : nullptr;
    CheckRes = true;
    interpret(contents(*Doc, page.getContentsObject()));
    SX_ASSERT(Got.size() == Want.size(), "each painting call paints once");
    bool all = true; for (size_t i = 0; i < Got.size(); i++) all = all & same(Got[i], Want[i]);
    SX_ASSERT(all, "everything is painted as called, in the state that was set");
}
static void save() { P->Save(); Stack.push_back(g); Cms.push_back(Cm); }
static void restore() { __sx_assume(Stack.size() > 0); P->Restore(); g = Stack.back(); Stack.pop_back(); Cm = Cms.back(); Cms.pop_back(); SX_ASSERT(P->GetGraphicsState().GetFillColor() == PdfColor(P->GetGraphicsState().GetFillColor()), "states can be read"); }
static PdfExtGState* Ext; static PdfColor Sep, Lab;
static void stateOp(unsigned op, unsigned v)
{
    auto& s = P->GetGraphicsState();
    switch (op)
    {
    case 0: save(); break;
    case 1: restore(); break;
    case 2: g.w = v ? 0.5 : 1; s.SetLineWidth(g.w); SX_ASSERT(s.GetLineWidth() == g.w, "the line width set is reported"); break;
    case 3: if (v == 0) { s.SetFillColor(PdfColor(0.0)); colour(g.fill, "g", { 0 }); } else { s.SetFillColor(PdfColor(0.25, 0.5, 1.0)); colour(g.fill, "rg", { 0.25, 0.5, 1 }); } break;
    case 4: P->SetTilingPattern(v ? "P1" : "P 2"); g.fill = v ? "pattern P1" : "pattern P 2"; break;
    case 5: if (v == 0) { s.SetStrokeColor(PdfColor(0.5)); colour(g.stroke, "G", { 0.5 }); } else { s.SetStrokeColor(PdfColor(0.25, 0.5, 0.75, 1.0)); colour(g.stroke, "K", { 0.25, 0.5, 0.75, 1 }); } break;
    case 6: s.SetLineCapStyle(v ? PdfLineCapStyle::Square : PdfLineCapStyle::Butt); g.J = v ? 2 : 0; break;
    case 7: s.SetLineJoinStyle(v ? PdfLineJoinStyle::Bevel : PdfLineJoinStyle::Round); g.j = v ? 2 : 1; break;
    case 8: s.SetMiterLevel(v ? 10 : 4.5); g.M = v ? 10 : 4.5; break;
    case 9: s.SetRenderingIntent(v ? "Perceptual" : "Saturation"); g.ri = v ? "Perceptual" : "Saturation"; break;
    case 10: if (v) { P->SetStrokeStyle(PdfStrokeStyle::Dash); g.dash = "[6 2] 0"; } else { P->SetStrokeStyle(PdfStrokeStyle::Solid); g.dash = "[] 0"; } break;
    case 11: { __sx_assume(Cm == 0); Cm = 1; double m[6] = { 2, 0.5, 0, 1, 10, v ? 20. : 30. }; s.SetCurrentMatrix(Matrix::FromArray(m)); concat(g.ctm, m); break; }
    case 12: P->SetExtGState(*Ext); g.gs = Ext->GetIdentifier().GetString(); break;
    case 13: s.SetFillColor(v ? Sep : Lab); if (v) colour(g.fill, "ColorSpaceS p", { 0.5 }); else colour(g.fill, "ColorSpaceCieLab", { 50, 1, -1 }); break;
    case 14: s.SetStrokeColor(v ? Sep : Lab); if (v) colour(g.stroke, "ColorSpaceS p", { 0.5 }); else colour(g.stroke, "ColorSpaceCieLab", { 50, 1, -1 }); break;
    default: P->SetStrokingTilingPattern(v ? "P1" : "P/3"); g.stroke = v ? "pattern P1" : "pattern P/3"; break;
    }
}
static void fixResources(PdfPage& page) // patterns used by name are provided by the caller
{
    PdfDictionary d; for (const char* n : { "P1", "P 2", "P/3" }) d.AddKey(PdfName(n), PdfObject((int64_t)1));
    page.GetOrCreateResources().GetDictionary().AddKey("Pattern", d);
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    unsigned which = __sx_range("case", 0, 9);
    PdfMemDocument doc; Doc = &doc;
    PdfPage& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    PdfPage& page2 = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    fixResources(page); fixResources(page2);
    PdfExtGState ext(doc); Ext = &ext;
    Sep = PdfColor::CreateSeparation("S p", 0.5, PdfColor(0.0, 0.0, 0.0, 1.0)); Lab = PdfColor::CreateCieLab(50, 1, -1);
    PdfPainter painter; P = &painter;
    switch (which)
    {
    case 0: // saving, restoring and setting again
    {
        begin(page);
        unsigned n = deep() ? 6 : 5;
        for (unsigned i = 0; i < n; i++) { unsigned o = pin("op", 6); static const unsigned Ops[][2] = { { 0, 0 }, { 1, 0 }, { 2, 0 }, { 2, 1 }, { 3, 0 }, { 3, 1 }, { 4, 1 } }; stateOp(Ops[o][0], Ops[o][1]); probe(); }
        finish(page);
        __sx_reach("state saved and restored");
        break;
    }
    case 1: // all state operations
    {
        begin(page);
        unsigned n = deep() ? 3 : 2;
        for (unsigned i = 0; i < n; i++) { unsigned o = pin("op", 15); stateOp(o, o > 1 && o != 12 ? pin("value", 1) : 0); probe(); }
        finish(page);
        __sx_reach("state set");
        break;
    }
    case 2: // several canvases and sessions
    {
        begin(page);
        stateOp(2 + pin("op", 13), pin("value", 1)); probe(); if (pin("saved", 1)) save();
        finish(page);
        bool again = pin("again", 1); vector<Event> first = Got;
        PdfPage& next = again ? page : page2;
        begin(next); stateOp(2 + pin("op", 13), pin("value", 1)); probe();
        if (again) Want.insert(Want.begin(), first.begin(), first.end());
        finish(next);
        __sx_reach("second canvas");
        break;
    }
    case 3: // text
    case 4:
    {
        auto f1 = makeFont("F"), f2 = makeFont("H");
        bool text = false; double tx = 0, ty = 0; unsigned n = deep() ? 4 : 3; unsigned shown = 0;
        G t; PdfPage* cur = &page; auto& ts = painter.GetTextState();
        begin(page);
        if (which == 4) { ts.SetFont(*f1, 8); g.font = f1->GetIdentifier().GetString(); g.size = 8; }
        for (unsigned i = 0; i < n; i++)
        {
            unsigned o = pin("op", 12), v = o >= 4 && o <= 9 ? pin("value", 1) : 0;
            switch (o)
            {
            case 0: __sx_assume(!text); painter.BeginText(10, 20); tx = 10; ty = 20; text = true; break;
            case 1: __sx_assume(text); painter.EndText(); text = false; break;
            case 2: case 3:
            {
                bool thrown = false, ok = g.font.size() > 0 && text == (o == 2);
                try { if (o == 2) painter.AddText("A\tb"); else painter.DrawText("A(b", 3, 4); } catch (PdfError&) { thrown = true; }
                SX_ASSERT(thrown == !ok, "text is drawn exactly with a font and in its place");
                if (ok) { if (o == 2) want("Tj", "", "A    b", { tx, ty }); else want("Tj", "", "A(b", { 3, 4 }); shown++; }
                break;
            }
            case 4: g.font = (v ? f2 : f1)->GetIdentifier().GetString(); g.size = v ? 12 : 8.5; ts.SetFont(v ? *f2 : *f1, g.size); SX_ASSERT(ts.GetFont() == (v ? f2 : f1).get() && ts.GetFontSize() == g.size, "the font set is reported"); break;
            case 5: g.Tz = v ? 100 : 50; ts.SetFontScale(v ? 1 : 0.5); break;
            case 6: g.Tc = v ? 0 : 1.5; ts.SetCharSpacing(g.Tc); break;
            case 7: g.Tw = v ? 0 : 2; ts.SetWordSpacing(g.Tw); break;
            case 8: g.Tr = v ? 0 : 3; ts.SetRenderingMode(v ? PdfTextRenderingMode::Fill : PdfTextRenderingMode::Invisible); break;
            case 9: stateOp(3, v); break;
            case 10: __sx_assume(!text); save(); break;
            case 11: __sx_assume(!text); restore(); break;
            case 12:
                if (text) { painter.MoveTextPos(5, 6); tx += 5; ty += 6; }
                else
                {
                    __sx_assume(cur == &page); t = g; finish(page); cur = &page2; begin(page2);
                    // what was set for text is kept for the next canvas
                    if (Stack.size() == 0) { const PdfFont* f = ts.GetFont(); g.font = f ? f->GetIdentifier().GetString() : string(); if (f) g.size = ts.GetFontSize(); g.Tz = ts.GetFontScale() * 100; g.Tc = ts.GetCharSpacing(); g.Tw = ts.GetWordSpacing(); g.Tr = (int)ts.GetRenderingMode() - 1; }
                }
                break;
            }
        }
        if (text) painter.EndText();
        if (g.font.size()) { painter.DrawText("z", 1, 1); want("Tj", "", "z", { 1, 1 }); }
        finish(*cur);
        if (shown) __sx_reach("text shown");
        break;
    }
    case 5: // paths
    {
        begin(page);
        if (pin("matrix", 1)) stateOp(11, 1);
        string p; double cx = 0, cy = 0, sx = 0, sy = 0, rx = 0, ry = 0, qx = 0, qy = 0; bool open = false; unsigned kind = 0; // kind of the last segment: 1 cubic, 2 quadratic
        unsigned n = deep() ? 4 : 3;
        auto line = [&](double x, double y) { double v[2] = { x, y }; path(p, "l", v, 2, g.ctm); cx = x; cy = y; kind = 0; };
        auto cubic = [&](double a, double b, double c, double d, double e, double f) { double v[6] = { a, b, c, d, e, f }; path(p, "c", v, 6, g.ctm); rx = c; ry = d; cx = e; cy = f; kind = 1; };
        auto quad = [&](double a, double b, double e, double f) { cubic((cx + 2 * a) / 3, (cy + 2 * b) / 3, (e + 2 * a) / 3, (f + 2 * b) / 3, e, f); qx = a; qy = b; kind = 2; };
        unsigned first = pin("first", 1);
        for (unsigned i = 0; i <= n; i++)
        {
            unsigned o = i == 0 ? first * 9 : pin("op", 9); double k = 3 * i;
            switch (o)
            {
            case 0: { double v[2] = { 6 + k, 9 - k }; painter.MoveTo(v[0], v[1]); path(p, "m", v, 2, g.ctm); cx = sx = v[0]; cy = sy = v[1]; kind = 0; break; }
            case 1: painter.LineTo(30 + k, 12); line(30 + k, 12); break;
            case 2: painter.HorizontalLineTo(15 - k); line(15 - k, cy); break;
            case 3: painter.VerticalLineTo(27 + k); line(cx, 27 + k); break;
            case 4: painter.CubicBezierTo(3, 6 + k, 9, 12, 15 + k, 21); cubic(3, 6 + k, 9, 12, 15 + k, 21); break;
            case 5: { __sx_assume(kind != 2); double a = kind == 1 ? 2 * cx - rx : cx, b = kind == 1 ? 2 * cy - ry : cy; painter.SmoothCurveTo(3, 9 + k, 18, 6); cubic(a, b, 3, 9 + k, 18, 6); break; }
            case 6: painter.QuadCurveTo(12 + k, 15, 30, 3 + k); quad(12 + k, 15, 30, 3 + k); break;
            case 7: { __sx_assume(kind != 1); double a = kind == 2 ? 2 * cx - qx : cx, b = kind == 2 ? 2 * cy - qy : cy; painter.SmoothQuadCurveTo(24, 6 + k); quad(a, b, 24, 6 + k); break; }
            case 8: if (k < 6) painter.Close(); else painter.ClosePath(); path(p, "h", nullptr, 0, g.ctm); cx = sx; cy = sy; kind = 0; break;
            case 9: { double v[4] = { 3 + k, 6, 3 + k + 9, 6 + 12 }; painter.Rectangle(3 + k, 6, 9, 12); path(p, "re", v, 4, g.ctm); cx = sx = v[0]; cy = sy = v[1]; kind = 0; break; }
            }
            (void)open;
        }
        switch (pin("paint", 6))
        {
        case 0: painter.Stroke(); want("S", p); break;
        case 1: painter.Fill(); want("f", p); break;
        case 2: painter.Fill(true); want("f*", p); break;
        case 3: painter.FillAndStroke(); want("B", p); break;
        case 4: painter.FillAndStroke(true); want("B*", p); break;
        case 5: painter.EndPath(); want("n", p); break;
        default: { bool eo = pin("evenodd", 1); painter.Clip(eo); want("n", p + (eo ? "W*;" : "W;")); break; }
        }
        finish(page);
        __sx_reach("path painted");
        break;
    }
    case 6: // shapes
    {
        begin(page);
        unsigned s = pin("shape", 7), m = pin("matrix", 1); string p;
        if (m) stateOp(11, 0);
        double x = 4 + 8 * pin("x", 1), y = 6, w = 16, h = 8 + 16 * pin("h", 1);
        auto seg = [&](const char* op, vector<double> v) { path(p, op, v.data(), (int)v.size(), g.ctm); };
        switch (s)
        {
        case 0: painter.Rectangle(PdfRect(x, y, w, h)); seg("re", { x, y, x + w, y + h }); painter.Fill(); want("f", p); break;
        case 1:
        case 2:
        {
            double r = 2, q = s == 1 ? 2 : 3, b = 0.4477f;
            if (s == 1) painter.Rectangle(PdfRect(x, y, w, h), r, q); else painter.Rectangle(x, y, w, h, r, q);
            seg("m", { x + r, y }); seg("l", { x + w - r, y }); seg("c", { x + w - r * b, y, x + w, y + q * b, x + w, y + q });
            seg("l", { x + w, y + h - q }); seg("c", { x + w, y + h - q * b, x + w - r * b, y + h, x + w - r, y + h });
            seg("l", { x + r, y + h }); seg("c", { x + r * b, y + h, x, y + h - q * b, x, y + h - q });
            seg("l", { x, y + q }); seg("c", { x, y + q * b, x + r * b, y, x + r, y });
            painter.Stroke(); want("S", p); break;
        }
        case 3: case 4:
        {
            double c = 0.2761423749154, X = x + w / 2, Y = y + h / 2, W = w, H = h;
            if (s == 3) { painter.Ellipse(x, y, w, h); seg("m", { x, Y }); }
            else { W = H = 2 * w; painter.Circle(x, y, w); X = x; Y = y; seg("m", { X + w, Y }); }
            double l = X - W / 2, r = X + W / 2, b = Y - H / 2, t = Y + H / 2, ox = c * W, oy = c * H;
            if (s == 3) { seg("c", { l, Y - oy, X - ox, b, X, b }); seg("c", { X + ox, b, r, Y - oy, r, Y }); seg("c", { r, Y + oy, X + ox, t, X, t }); seg("c", { X - ox, t, l, Y + oy, l, Y }); }
            else { seg("c", { r, Y + oy, X + ox, t, X, t }); seg("c", { X - ox, t, l, Y + oy, l, Y }); seg("c", { l, Y - oy, X - ox, b, X, b }); seg("c", { X + ox, b, r, Y - oy, r, Y }); seg("h", { }); }
            painter.FillAndStroke(); want("B", p); break;
        }
        case 5: if (m) painter.SetClipRect(PdfRect(x, y, w, h)); else painter.SetClipRect(x, y, w, h); seg("re", { x, y, x + w, y + h }); p += "W;"; want("n", p); break;
        case 6:
        {
            static const unsigned S[] = { 0, 1, 2, 3, 4, 5 };
            unsigned k = pin("style", 5), inv = pin("inverted", 1), scale = pin("scale", 2), sub = pin("subtract", 1);
            double f = scale == 0 ? 1 : scale == 1 ? 2 : 0.5;
            painter.SetStrokeStyle((PdfStrokeStyle)S[k], "[1 7] 2", inv, f, sub);
            // the dash arrays of the styles, in tenths
            static const char* plain[] = { "", "6 2", "2 2", "3 2 1 2", "3 1 1 1 1 1" };
            static const char* two[] = { "", "6 2", "2 2", "6 2 2 2", "6 2 2 2 2 2" }; static const char* half[] = { "", "1.5 0.5", "0.5 0.5", "1.5 0.5 0.5 0.5", "1.5 0.5 0.5 0.5 0.5 0.5" };
            static const char* two2[] = { "", "4 4", "0.001 4 0 4", "4 4 0 4", "4 4 0 4 0 4" }; static const char* half2[] = { "", "1 1", "0.001 1 0 1", "1 1 0 1", "1 1 0 1 0 1" };
            if (k == 5) g.dash = "[1 7] 2";
            else { string d = scale == 0 ? plain[k] : scale == 1 ? (sub ? two2 : two)[k] : (sub ? half2 : half)[k]; if (inv && k != 0) d = "0 " + d + " 0"; g.dash = "[" + d + "] 0"; }
            probe(); break;
        }
        default:
        {
            PdfXObjectForm form(doc, PdfRect(0, 0, 10, 10), "X"); G old = g; double t[6] = { 2, 0, 0, 0.5, x, y };
            painter.DrawXObject(form, x, y, 2, 0.5); concat(g.ctm, t); want("Do", "", form.GetIdentifier().GetString()); g = old; probe();
        }
        }
        finish(page);
        __sx_reach("shape painted");
        break;
    }
    case 7: // names of any bytes
    {
        unsigned k = pin("call", 3); string n = symStr("name", 1, deep() ? 2 : 1);
        for (unsigned char c : n) __sx_assume(((c >= 1) & (c <= 21)) | ((c >= 32) & (c <= 126)));
        begin(page);
        switch (k)
        {
        case 0: painter.SetTilingPattern(n); g.fill = "pattern " + n; break;
        case 1: painter.SetStrokingTilingPattern(n); g.stroke = "pattern " + n; break;
        case 2: painter.GetGraphicsState().SetRenderingIntent(n); g.ri = n; break;
        default: painter.BeginMarkedContext(n); want("BMC", "", n); painter.EndMarkedContext(); want("EMC"); break;
        }
        if (k != 3) probe();
        painter.FinishDrawing(); CheckRes = false;
        interpret(contents(doc, page.getContentsObject()));
        SX_ASSERT(Got.size() == Want.size(), "each painting call paints once");
        bool all = true; for (size_t i = 0; i < Got.size(); i++) all = all & same(Got[i], Want[i]);
        SX_ASSERT(all, "names are written as given");
        __sx_reach("names");
        break;
    }
    case 8: // text in rectangles and aligned, tabs
    {
        auto f1 = makeFont("F"); begin(page);
        auto& ts = painter.GetTextState(); ts.SetFont(*f1, 8); g.font = f1->GetIdentifier().GetString(); g.size = 8;
        if (pin("spaced", 1)) { ts.SetCharSpacing(0.5); g.Tc = 0.5; }
        unsigned k = pin("kind", 1), al = pin("align", 2), va = pin("vertical", 2), clip = pin("clip", 1), tabs = pin("tab", 2); painter.SetTabWidth(tabs);
        string text = "A\tB"; string shown = "A" + string(tabs, ' ') + "B";
        if (k == 0) { painter.DrawMultiLineText(text, 10, 20, 30, 40, (PdfHorizontalAlignment)al, (PdfVerticalAlignment)va, clip, false); if (clip) { string p; double v[4] = { 10, 20, 40, 60 }; path(p, "re", v, 4, g.ctm); want("n", p + "W;"); } }
        else painter.DrawTextAligned(text, 10, 20, 30, (PdfHorizontalAlignment)al);
        want("Tj", "", shown); probe();
        painter.FinishDrawing(); Res = &page.GetResources()->GetDictionary(); CheckRes = true;
        interpret(contents(doc, page.getContentsObject()));
        SX_ASSERT(Got.size() == Want.size(), "each painting call paints once");
        bool all = true;
        for (size_t i = 0; i < Got.size(); i++) { if (Got[i].op == "Tj") { if (al == 0) SX_ASSERT(near(Got[i].nums[0], 10), "text aligned to the left starts at the left"); if (k == 1) SX_ASSERT(near(Got[i].nums[1], 20), "text aligned stands on its line"); Got[i].nums.clear(); } all = all & same(Got[i], Want[i]); }
        SX_ASSERT(all, "text in rectangles is painted as called");
        __sx_reach("text in rectangles");
        break;
    }
    default: // content that is there before, on pages and forms, with all flags
    {
        unsigned fl = pin("flags", 3), onForm = pin("form", 1), sessions = 2 + pin("sessions", 1);
        PdfXObjectForm form(doc, PdfRect(0, 0, 10, 10), "X"); fixResources(page2);
        static const char* priors[] = { "", "5 w 1 1 m 2 2 l S", "0.5 g 7 M" }; unsigned pr = pin("prior", 2);
        if (pr && onForm) { form.GetObject().GetOrCreateStream().SetData(bufferview(priors[pr], strlen(priors[pr]))); }
        if (pr && !onForm) { PdfObject& st = doc.GetObjects().CreateDictionaryObject(); st.GetOrCreateStream().SetData(bufferview(priors[pr], strlen(priors[pr]))); page.GetObject().GetDictionary().AddKeyIndirect("Contents", st); }
        vector<Event> all; G start;
        PdfPage* pg = &page;
        std::unique_ptr<PdfMemDocument> held;
        if (pr && !onForm) { held.reset(new PdfMemDocument(doc)); pg = &held->GetPages().GetPageAt(0); }
        if (pr == 1) { Event e; e.op = "S"; e.g.w = 5; double v[4] = { 1, 1, 2, 2 }; path(e.path, "m", v, 2, e.g.ctm); path(e.path, "l", v + 2, 2, e.g.ctm); all.push_back(e); start.w = 5; }
        if (pr == 2) { colour(start.fill, "g", { 0.5 }); start.M = 7; }
        PdfPainter second((PdfPainterFlags)((fl & 1 ? 2 : 0) | (fl & 2 ? 4 : 0))); P = &second; // NoSaveRestorePrior, NoSaveRestore
        for (unsigned i = 0; i < sessions; i++)
        {
            if (onForm) begin(form); else begin(*pg);
            if (fl & 1) g = start; // otherwise the state before does not leak
            stateOp(i & 1 ? 5 : 2, 1); probe();
            second.FinishDrawing();
            if (fl & 2) start = g; // what is set stays in effect, otherwise the state is as before
            for (auto& e : Want) all.push_back(e);
        }
        Got.clear(); CheckRes = false;
        interpret(contents(doc, onForm ? form.getContentsObject() : pg->getContentsObject()));
        SX_ASSERT(Got.size() == all.size(), "prior content is kept exactly once and new content follows");
        bool ok = true; for (size_t i = 0; i < Got.size(); i++) ok = ok & same(Got[i], all[i]);
        SX_ASSERT(ok, "prior and new content is painted in its own state");
        __sx_reach("prior content kept");
        break;
    }
    }
}
