// C34: annotations
#include "common.h"
#include <pdfmm/base/PdfAnnotationCollection.h>
#include <pdfmm/base/PdfAnnotation_Types.h>
#include <pdfmm/base/PdfAnnotationWidget.h>
#include <pdfmm/base/PdfXObjectForm.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static double num(const char* n) { return ((int)rng(n, 0, 255) - 128) / 4.0; }
// a list of what the page shows: the object of each annotation, or none where the entry isn't a valid annotation
struct Entry { PdfReference ref; bool valid; int id; const PdfAnnotation* held; };
static int idOf(const PdfAnnotation& a) { auto t = a.GetContents(); return t.has_value() ? std::stoi(string(t->GetString())) : -1; }
static void check(PdfPage& page, vector<Entry>& m, bool iterateFirst = false)
{
    auto& c = page.GetAnnotations(); auto& cc = (const PdfAnnotationCollection&)c;
    if (!iterateFirst) SX_ASSERT(c.GetCount() == m.size() && cc.GetCount() == m.size(), "the page has as many annotations as the history implies");
    unsigned i = 0;
    for (auto a : c) { SX_ASSERT(i < m.size() && (a != nullptr) == m[i].valid && (a == nullptr || idOf(*a) == m[i].id), "iterating shows the annotations in order"); i++; }
    SX_ASSERT(i == m.size(), "iterating shows all the annotations");
    i = 0; for (auto a : cc) { SX_ASSERT((a != nullptr) == m[i].valid && (a == nullptr || idOf(*a) == m[i].id), "iterating shows the annotations in order"); i++; }
    SX_ASSERT(i == m.size() && c.GetCount() == m.size(), "iterating shows all the annotations");
    auto arr = page.GetDictionary().FindKey("Annots");
    SX_ASSERT(arr == nullptr ? m.empty() : arr->GetArray().size() == m.size(), "the page's array has the annotations");
    for (i = 0; i < m.size(); i++)
    {
        if (!m[i].valid)
        {
            try { c.GetAnnotAt(i); SX_ASSERT(false, "an entry that is no annotation can't be read as one"); } catch (PdfError&) { }
            continue;
        }
        auto& a = c.GetAnnotAt(i);
        SX_ASSERT(&a == &cc.GetAnnotAt(i) && idOf(a) == m[i].id, "annotation i is the one the history implies");
        SX_ASSERT(m[i].held == nullptr || m[i].held == &a, "annotations obtained earlier are still that annotation");
        m[i].held = &a;
        SX_ASSERT(&a.MustGetPage() == &page, "an annotation knows its page");
        auto& e = arr->GetArray()[i];
        if (m[i].ref.IsIndirect())
        {
            SX_ASSERT(&c.GetAnnot(m[i].ref) == &a && &cc.GetAnnot(m[i].ref) == &a, "an annotation is found by its reference");
            SX_ASSERT(e.IsReference() && e.GetReference() == m[i].ref, "the page's array has its reference in this place");
        }
        else SX_ASSERT(&arr->GetArray().MustFindAt(i).GetDictionary() == &a.GetDictionary(), "the page's array has the annotation in this place");
    }
    uint32_t out = symVal<uint32_t>("out"); __sx_assume(out >= m.size());
    try { c.GetAnnotAt(out); SX_ASSERT(false, "there are no more annotations"); } catch (PdfError& e) { SX_ASSERT(e.GetError() == PdfErrorCode::ValueOutOfRange, "there are no more annotations"); }
    try { c.GetAnnot(PdfReference(9999, 0)); SX_ASSERT(false, "only annotations of the page are found"); } catch (PdfError&) { }
}
static PdfAnnotationType typeAt(unsigned k) { static const PdfAnnotationType T[] = { PdfAnnotationType::Text, PdfAnnotationType::Link, PdfAnnotationType::Highlight }; return T[k]; }
static void op(PdfPage& page, vector<Entry>& m, int& next, vector<PdfReference>& gone)
{
    auto& c = page.GetAnnotations(); unsigned n = (unsigned)m.size();
    switch (pin("op", 3))
    {
    case 0:
    {
        PdfAnnotation* a;
        if (pin("how", 1)) a = &c.CreateAnnot<PdfAnnotationPopup>(PdfRect(1, 2, 3, 4)); else a = &c.CreateAnnot(typeAt(next % 3), PdfRect(1, 2, 3, 4));
        a->SetContents(PdfString(std::to_string(next)));
        m.push_back({ a->GetObject().GetIndirectReference(), true, next++, a }); break;
    }
    case 1:
    {
        unsigned at = pin("at", n);
        try { c.RemoveAnnotAt(at); SX_ASSERT(at < n, "only annotations that are there can be removed"); }
        catch (PdfError& e) { SX_ASSERT(at == n && e.GetError() == PdfErrorCode::ValueOutOfRange, "annotations that are there can be removed"); break; }
        gone.push_back(m[at].ref); m.erase(m.begin() + at); break;
    }
    case 2:
    {
        unsigned at = pin("at", n); if (at < n && !m[at].ref.IsIndirect()) break;
        if (at == n) { c.RemoveAnnot(gone.empty() ? PdfReference(9999, 0) : gone.back()); break; }
        c.RemoveAnnot(m[at].ref); gone.push_back(m[at].ref); m.erase(m.begin() + at); break;
    }
    default: break;
    }
}
static void history(PdfPage& page, vector<Entry>& m, unsigned top)
{
    int next = 50; vector<PdfReference> gone; unsigned n = pin("ops", top);
    if (n == 0) check(page, m, true);
    for (unsigned i = 0; i < n; i++) op(page, m, next, gone);
    check(page, m);
    for (auto& r : gone) if (r.IsIndirect()) try { page.GetAnnotations().GetAnnot(r); SX_ASSERT(false, "a removed annotation is not found"); } catch (PdfError&) { }
    // a document that finds the page in this state
    PdfMemDocument again((PdfMemDocument&)page.GetDocument()); for (auto& e : m) e.held = nullptr;
    check(again.GetPages().GetPageAt(0), m);
    __sx_reach("history");
}
static void fresh() { PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); vector<Entry> m; history(page, m, deep() ? 6 : 5); }
// any /Annots entry
static void loaded(unsigned top, unsigned ops)
{
    PdfMemDocument src; auto& p = src.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); vector<Entry> m;
    unsigned n = pin("n", top); PdfArray arr;
    for (unsigned i = 0; i < n; i++)
    {
        PdfDictionary d; d.AddKey("Type", PdfName("Annot")); d.AddKey("Contents", PdfString(std::to_string(i)));
        unsigned kind = pin("kind", 6);
        if (kind <= 1) d.AddKey("Subtype", PdfName(kind ? "Link" : "Square"));
        else if (kind == 2) d.AddKey("Subtype", PdfName("Curious"));
        else if (kind == 3) d.AddKey("Subtype", (int64_t)3);
        if (kind <= 3 && (kind == 0 || kind == 2 || pin("direct", 1) == 0)) { auto& o = src.GetObjects().CreateObject(d); arr.Add(o.GetIndirectReference()); m.push_back({ o.GetIndirectReference(), kind <= 1, (int)i, nullptr }); }
        else if (kind <= 3) { arr.Add(d); m.push_back({ PdfReference(), kind <= 1, (int)i, nullptr }); }
        else if (kind == 4) { arr.Add(PdfReference(4000 + i, 0)); m.push_back({ PdfReference(), false, 0, nullptr }); }
        else if (kind == 5) { arr.Add((int64_t)5); m.push_back({ PdfReference(), false, 0, nullptr }); }
        else { arr.Add(PdfObject::Null); m.push_back({ PdfReference(), false, 0, nullptr }); }
    }
    if (n || pin("empty", 1)) { if (pin("shared", 1)) p.GetDictionary().AddKeyIndirect("Annots", src.GetObjects().CreateObject(arr)); else p.GetDictionary().AddKey("Annots", arr); }
    PdfMemDocument doc(src); history(doc.GetPages().GetPageAt(0), m, ops);
}
// every type, created and found again
static void types()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& c = page.GetAnnotations();
    auto type = (PdfAnnotationType)pin("type", 30);
    try
    {
        auto& a = c.CreateAnnot(type, PdfRect(1, 2, 3, 4));
        SX_ASSERT(type != PdfAnnotationType::Unknown && a.GetType() == type, "an annotation has the type it was created with");
    }
    catch (PdfError&) { SX_ASSERT(type == PdfAnnotationType::Unknown || (unsigned)type > (unsigned)PdfAnnotationType::Projection, "annotations of all types can be created"); SX_ASSERT(c.GetCount() == 0, "nothing is left behind"); return; }
    PdfMemDocument again(doc);
    auto& a = again.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0);
    SX_ASSERT(a.GetType() == type && a.GetRect().GetLeft() == 1 && a.GetFlags() == PdfAnnotationFlags::Print, "an annotation is found with its type, rectangle and flags");
    auto text = dynamic_cast<PdfAnnotationText*>(&a); auto popup = dynamic_cast<PdfAnnotationPopup*>(&a); auto link = dynamic_cast<PdfAnnotationLink*>(&a); auto widget = dynamic_cast<PdfAnnotationWidget*>(&a);
    SX_ASSERT((text != nullptr) == (type == PdfAnnotationType::Text) && (popup != nullptr) == (type == PdfAnnotationType::Popup) && (link != nullptr) == (type == PdfAnnotationType::Link) && (widget != nullptr) == (type == PdfAnnotationType::Widget), "it is of the class of its type");
    __sx_reach("types");
}
static bool sameStr(nullable<const PdfString&> s, bool has, const string& want) { return has ? s.has_value() && s->GetString() == want : !s.has_value(); }
static PdfColor color(unsigned k) { double a = rng("ca", 0, 4) / 4.0, b = rng("cb", 0, 4) / 4.0; switch (k) { case 0: return PdfColor(a); case 1: return PdfColor(a, b, 1); case 2: return PdfColor(a, 0, b, 1); default: return PdfColor::CreateTransparent(); } }
// properties set in any order, the last value counts
static void properties(unsigned group)
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& c = page.GetAnnotations();
    auto& other = c.CreateAnnot<PdfAnnotationText>(PdfRect(5, 6, 7, 8)); other.SetContents(PdfString("o"));
    auto& a = c.CreateAnnot<PdfAnnotationText>(PdfRect(1, 2, 3, 4));
    double r[4] = { 1, 2, 3, 4 }; uint32_t flags = (uint32_t)PdfAnnotationFlags::Print; bool hasT = false, hasC = false, open = false, hasColor = false; string t, co; PdfColor col; double border[3]; bool hasBorder = false; unsigned dash = 0;
    unsigned n = deep() ? 4 : 3;
    for (unsigned i = 0; i < n; i++)
    {
        unsigned op = group == 0 ? pin("op", 3) : 4 + pin("op", 4);
        if (op == 0) { r[0] = num("l"); r[1] = num("b"); r[2] = rng("w", 0, 255) / 4.0; r[3] = rng("h", 0, 255) / 4.0; a.SetRect(PdfRect(r[0], r[1], r[2], r[3])); }
        else if (op == 1) { flags = symVal<uint32_t>("flags"); a.SetFlags((PdfAnnotationFlags)flags); }
        else if (op == 2) { for (auto& b : border) b = rng("border", 0, 255) / 4.0; dash = pin("dash", 2); hasBorder = true; PdfArray d; for (unsigned k = 0; k < dash; k++) d.Add((int64_t)k + 3); if (dash || pin("four", 1)) a.SetBorderStyle(border[0], border[1], border[2], d); else a.SetBorderStyle(border[0], border[1], border[2]); }
        else if (op == 3) { open = pin("open", 1); if (!open && pin("null", 1)) a.SetOpen(nullptr); else a.SetOpen(open); }
        else if (op == 4) { hasT = pin("has", 1); t = hasT ? string(1, "\0t("[pin("t", 2)]) + "x" : ""; if (hasT) a.SetTitle(PdfString(t)); else a.SetTitle(nullptr); }
        else if (op == 5) { hasC = pin("has", 1); co = hasC ? string(1, "\\c)"[pin("t", 2)]) : ""; if (hasC) a.SetContents(PdfString(co)); else a.SetContents(nullptr); }
        else if (op == 6) { hasColor = pin("has", 1); if (hasColor) { col = color(pin("space", 3)); a.SetColor(col); } else a.SetColor(nullptr); }
        else if (op == 7) { hasT = hasT; }
    }
    auto verify = [&](PdfAnnotationText& a)
    {
        auto q = a.GetRect();
        SX_ASSERT((q.GetLeft() == r[0]) & (q.GetBottom() == r[1]) & (q.GetWidth() == r[2]) & (q.GetHeight() == r[3]), "the rectangle is the one that was set");
        SX_ASSERT((uint32_t)a.GetFlags() == flags, "the flags are those that were set");
        SX_ASSERT(sameStr(a.GetTitle(), hasT, t) && sameStr(a.GetContents(), hasC, co), "title and contents are those that were set");
        SX_ASSERT(a.GetOpen() == open, "the open state is the one that was set");
        if (hasColor) SX_ASSERT(a.GetColor() == col, "the color is the one that was set"); else SX_ASSERT(!a.GetDictionary().HasKey("C"), "the color is removed");
        SX_ASSERT(a.GetDictionary().HasKey("Border") == hasBorder, "there is a border when one was set");
        if (hasBorder)
        {
            auto& b = a.GetDictionary().MustFindKey("Border").GetArray();
            SX_ASSERT(b.size() == (dash ? 4u : 3u), "the border has a dash pattern when it was set");
            SX_ASSERT((b[0].GetReal() == border[0]) & (b[1].GetReal() == border[1]) & (b[2].GetReal() == border[2]), "the border is the one that was set");
            if (dash) { auto& d = b[3].GetArray(); SX_ASSERT(d.size() == dash && d[0].GetNumber() == 3 && d[dash - 1].GetNumber() == dash + 2, "the border has the dash pattern that was set"); }
        }
    };
    verify(a);
    SX_ASSERT(other.GetRect().GetLeft() == 5 && other.GetFlags() == PdfAnnotationFlags::Print && other.GetContents()->GetString() == "o" && !other.GetTitle().has_value() && !other.GetOpen(), "other annotations keep their values");
    PdfMemDocument again(doc); verify(dynamic_cast<PdfAnnotationText&>(again.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(1)));
    __sx_reach("properties");
}
static void links()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& target = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& c = page.GetAnnotations();
    auto& a = c.CreateAnnot<PdfAnnotationLink>(PdfRect(1, 2, 3, 4));
    double left = num("left"), top = num("top"), zoom = rng("zoom", 0, 15) / 4.0; unsigned what = pin("what", 2); bool quads = pin("quads", 1);
    if (what == 1) a.SetDestination(std::make_shared<PdfDestination>(target, left, top, zoom));
    else if (what == 2) { auto act = std::make_shared<PdfAction>(doc, PdfActionType::URI); act->SetURI(PdfString("u:r")); a.SetAction(act); }
    double q[8]; PdfArray qa; if (quads) { for (auto& d : q) { d = num("q"); qa.Add(d); } a.SetQuadPoints(qa); if (pin("off", 1)) { a.SetQuadPoints(nullptr); quads = false; } }
    auto verify = [&](PdfAnnotationLink& l)
    {
        auto d = l.GetDestination(); auto act = l.GetAction();
        SX_ASSERT((d != nullptr) == (what == 1) && (act != nullptr) == (what == 2), "a link has the destination or action that was set");
        if (d) SX_ASSERT((d->GetType() == PdfDestinationType::XYZ) & (d->GetLeft() == left) & (d->GetTop() == top) & (d->GetZoom() == zoom), "the destination is the one that was set");
        if (d) SX_ASSERT(d->GetPage() == &l.GetDocument().GetPages().GetPageAt(1), "the destination has the page that was set");
        if (act) SX_ASSERT(act->GetType() == PdfActionType::URI && act->GetURI().GetString() == "u:r", "the action is the one that was set");
        auto g = l.GetQuadPoints(); SX_ASSERT(g.has_value() == quads && (!quads || g->size() == 8), "the quad points are those that were set");
        if (quads) { bool same = true; for (unsigned i = 0; i < 8; i++) same &= (*g)[i].GetReal() == q[i]; SX_ASSERT(same, "the quad points are those that were set"); }
    };
    verify(a);
    PdfMemDocument again(doc); verify(dynamic_cast<PdfAnnotationLink&>(again.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0)));
    __sx_reach("links");
}
// appearances by kind and state
static void appearances()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    auto& a = page.GetAnnotations().CreateAnnot<PdfAnnotationWidget>(PdfRect(1, 2, 3, 4));
    static const PdfAppearanceType T[] = { PdfAppearanceType::Normal, PdfAppearanceType::Rollover, PdfAppearanceType::Down }; static const char* S[] = { "On", "Off" };
    PdfReference plain[3], state[3][2]; int as = -1; std::vector<std::unique_ptr<PdfXObjectForm>> forms;
    unsigned n = pin("n", deep() ? 4 : 3);
    for (unsigned i = 0; i < n; i++)
    {
        forms.push_back(doc.CreateXObjectForm(PdfRect(0, 0, 1, 1))); unsigned k = pin("type", 2), s = pin("state", 2); auto ref = forms.back()->GetObject().GetIndirectReference();
        if (s == 2) { a.SetAppearanceStream(*forms.back(), T[k]); plain[k] = ref; state[k][0] = state[k][1] = PdfReference(); }
        else { a.SetAppearanceStream(*forms.back(), T[k], PdfName(S[s])); plain[k] = PdfReference(); state[k][s] = ref; if (as < 0) as = s; }
    }
    auto verify = [&](PdfAnnotation& a)
    {
        unsigned count = 0; vector<PdfAppearanceIdentity> all; a.GetAppearanceStreams(all);
        for (unsigned k = 0; k < 3; k++)
        {
            auto p = a.GetAppearanceStream(T[k]);
            if (plain[k].IsIndirect()) { SX_ASSERT(p != nullptr && p->GetIndirectReference() == plain[k], "the appearance is the one that was set"); count++; }
            for (unsigned s = 0; s < 2; s++)
            {
                auto q = a.GetAppearanceStream(T[k], PdfName(S[s]));
                SX_ASSERT((q != nullptr) == state[k][s].IsIndirect() && (q == nullptr || q->GetIndirectReference() == state[k][s]), "the appearance for a state is the one that was set");
                if (q) count++;
            }
        }
        SX_ASSERT(all.size() == count, "all the appearances are listed");
        for (auto& i : all)
        {
            unsigned k = i.Type == PdfAppearanceType::Normal ? 0 : i.Type == PdfAppearanceType::Rollover ? 1 : 2;
            auto want = i.State.IsNull() || i.State == "" ? plain[k] : state[k][i.State == "On" ? 0 : 1];
            SX_ASSERT(i.Object->GetIndirectReference() == want, "appearances are listed with their kind and state");
        }
        auto s = a.GetDictionary().FindKey("AS");
        SX_ASSERT((s != nullptr) == (as >= 0) && (s == nullptr || s->GetName() == S[as]), "the first state is selected");
    };
    verify(a);
    PdfMemDocument again(doc); verify(again.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0));
    __sx_reach("appearances");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 7))
    {
        case 0: fresh(); break;
        case 1: loaded(2, deep() ? 3 : 2); break;
        case 2: loaded(3, deep() ? 2 : 0); break;
        case 3: types(); break;
        case 4: properties(0); break;
        case 5: properties(1); break;
        case 6: links(); break;
        default: appearances(); break;
    }
}
