#include "common.h"
#include <map>
// ---- reference: the pages in order, by the object that stands for each of them
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static PdfRect sized(unsigned w) { return PdfRect(0, 0, 100 + w, 50); }
static unsigned widthOf(const PdfPage& p) { return (unsigned)p.GetMediaBox().GetWidth() - 100; }
struct Model { vector<unsigned> ids; std::map<unsigned, PdfPage*> held; unsigned next = 0; };
// counts and parents of every node below this one; gives the pages in order
static unsigned walk(PdfDocument& doc, PdfObject& node, vector<PdfReference>& leaves)
{
    unsigned n = 0;
    auto kids = node.GetDictionary().FindKey("Kids");
    SX_ASSERT(kids != nullptr && kids->IsArray(), "every node of the tree has its children");
    for (auto& k : kids->GetArray())
    {
        SX_ASSERT(k.IsReference(), "children are references");
        auto& o = doc.GetObjects().MustGetObject(k.GetReference());
        auto parent = o.GetDictionary().GetKey("Parent");
        SX_ASSERT(parent != nullptr && parent->IsReference() && parent->GetReference() == node.GetIndirectReference(), "every node links to its parent");
        if (o.GetDictionary().MustFindKey("Type").GetName() == "Pages") n += walk(doc, o, leaves);
        else { n++; leaves.push_back(k.GetReference()); }
    }
    SX_ASSERT(node.GetDictionary().MustFindKey("Count").GetNumber() == (int64_t)n, "every count equals the pages below the node");
    return n;
}
static void check(PdfDocument& doc, Model& m)
{
    auto& pages = doc.GetPages(); auto& cpages = (const PdfPageCollection&)pages;
    vector<PdfReference> leaves;
    SX_ASSERT(pages.GetCount() == m.ids.size(), "the number of pages is the one the history implies");
    unsigned n = walk(doc, doc.GetCatalog().GetDictionary().MustFindKey("Pages"), leaves);
    SX_ASSERT(n == m.ids.size(), "the tree has all the pages");
    for (unsigned i = 0; i < n; i++)
    {
        auto& p = pages.GetPageAt(i);
        SX_ASSERT(widthOf(p) == m.ids[i], "page i is the page the history implies");
        SX_ASSERT(p.GetObject().GetIndirectReference() == leaves[i], "page i is the i-th page of the tree");
        SX_ASSERT(p.GetPageNumber() == i + 1 && p.GetIndex() == i, "each page reports its own number");
        SX_ASSERT(&cpages.GetPageAt(i) == &p && &pages.GetPage(leaves[i]) == &p, "a page is found by its reference");
        auto h = m.held.find(m.ids[i]);
        if (h != m.held.end() && m.ids[i] != 77) SX_ASSERT(h->second->GetIndex() == i && h->second->GetPageNumber() == i + 1 && widthOf(*h->second) == m.ids[i], "pages obtained earlier are still that page");
    }
    unsigned out = symVal<unsigned>("out"); __sx_assume(out >= n);
    try { pages.GetPageAt(out); SX_ASSERT(false, "there are no more pages"); }
    catch (PdfError& e) { SX_ASSERT(e.GetError() == PdfErrorCode::PageNotFound, "there are no more pages"); }
}
static void op(PdfDocument& doc, Model& m)
{
    auto& pages = doc.GetPages(); unsigned n = (unsigned)m.ids.size();
    switch (pin("op", 3))
    {
        case 0:
        {
            unsigned at = pin("at", n + 1), id = m.next++;
            auto& p = pages.CreatePageAt(at, sized(id)); m.held[id] = &p;
            m.ids.insert(m.ids.begin() + (at > n ? n : at), id); break;
        }
        case 1: { unsigned id = m.next++; m.held[id] = &pages.CreatePage(sized(id)); m.ids.push_back(id); break; }
        case 2:
        {
            unsigned at = pin("at", n);
            if (at == n) { at += (unsigned)(pin("far", 1) * 1000); try { pages.RemovePageAt(at); SX_ASSERT(false, "only pages that are there can be removed"); } catch (PdfError&) { } break; }
            pages.RemovePageAt(at); m.held.erase(m.ids[at]); m.ids.erase(m.ids.begin() + at); break;
        }
        default: { if (!n) break; unsigned at = pin("at", n - 1); m.held[m.ids[at]] = &pages.GetPageAt(at); }
    }
}
static void history(PdfDocument& doc, Model& m, unsigned top)
{
    unsigned n = pin("ops", top);
    for (unsigned i = 0; i < n; i++) op(doc, m);
    check(doc, m);
    __sx_reach("history");
}
// a page tree of any shape
static unsigned grow(PdfDocument& doc, PdfObject& node, unsigned depth, unsigned kids, Model& m, bool shared = false)
{
    PdfArray arr; unsigned n = 0, k = pin("kids", kids);
    for (unsigned i = 0; i < k; i++)
    {
        bool leaf = depth == 0 || pin("leaf", 1);
        auto& o = doc.GetObjects().CreateDictionaryObject(leaf ? "Page" : "Pages");
        o.GetDictionary().AddKey("Parent", node.GetIndirectReference());
        arr.Add(o.GetIndirectReference());
        if (leaf) { PdfArray box; sized(m.next).ToArray(box); o.GetDictionary().AddKey("MediaBox", box); m.ids.push_back(m.next++); n++; }
        else n += grow(doc, o, depth - 1, kids, m, shared);
    }
    if (shared) node.GetDictionary().AddKeyIndirect("Kids", doc.GetObjects().CreateObject(arr)); else node.GetDictionary().AddKey("Kids", arr);
    node.GetDictionary().AddKey("Count", (int64_t)n);
    return n;
}
static void shaped(unsigned depth, unsigned kids, unsigned ops, bool shared = false)
{
    PdfMemDocument src; Model m;
    grow(src, src.GetCatalog().GetDictionary().MustFindKey("Pages"), depth, kids, m, shared);
    PdfMemDocument doc(src);        // a document that finds this tree in its objects
    if (!m.ids.empty() && (depth < 2 || deep()) && pin("warm", 1)) for (unsigned i = 0; i < m.ids.size(); i++) m.held[m.ids[i]] = &doc.GetPages().GetPageAt(i);
    history(doc, m, ops);
}
static void fresh() { PdfMemDocument doc; Model m; history(doc, m, deep() ? 5 : 4); }
// pages of another document, whose attributes may be inherited
static void import()
{
    PdfMemDocument a, b; Model m, mb; mb.next = 50;
    unsigned n = pin("n", 2); for (unsigned i = 0; i < n; i++) { unsigned id = m.next++; m.held[id] = &a.GetPages().CreatePage(sized(id)); m.ids.push_back(id); }
    auto& root = b.GetCatalog().GetDictionary().MustFindKey("Pages");
    grow(b, root, 1, deep() ? 3 : 2, mb);
    // the attributes move from the pages of a node to the node
    bool inherit = pin("inherit", 1);
    if (inherit)
    {
        PdfArray box; sized(77).ToArray(box);
        root.GetDictionary().AddKey("MediaBox", box); root.GetDictionary().AddKey("Rotate", (int64_t)90); root.GetDictionary().AddKey("CropBox", box);
        PdfDictionary res; res.AddKey("Font", PdfDictionary()); root.GetDictionary().AddKey("Resources", res);
        for (unsigned i = 0; i < mb.ids.size(); i++) { b.GetPages().GetPageAt(i).GetDictionary().RemoveKey("MediaBox"); mb.ids[i] = 77; }
    }
    PdfMemDocument from(b);
    unsigned how = pin("how", 2), nb = (unsigned)mb.ids.size(), at = n, first = 0, cnt = nb;
    if (how == 0) a.GetPages().AppendDocumentPages(from);
    else if (how == 1) { first = pin("first", nb); cnt = pin("cnt", nb - first); a.GetPages().AppendDocumentPages(from, first, cnt); }
    else { if (nb == 0) return; first = pin("first", nb - 1); cnt = 1; at = pin("at", n); a.GetPages().InsertDocumentPageAt(at, from, first); }
    m.ids.insert(m.ids.begin() + at, mb.ids.begin() + first, mb.ids.begin() + first + cnt);
    check(a, m);
    if (inherit) for (unsigned i = 0; i < cnt; i++)
    {
        auto& p = a.GetPages().GetPageAt(at + i);
        SX_ASSERT(p.GetRotationRaw() == 90 && p.GetCropBox().GetWidth() == 177 && p.GetResources() != nullptr && p.GetResources()->GetDictionary().HasKey("Font"), "an imported page keeps the attributes it inherited");
    }
    __sx_reach("import");
    if (deep() && pin("more", 1)) { op(a, m); check(a, m); }
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 4))
    {
        case 0: fresh(); break;
        case 1: shaped(1, 2, deep() ? 3 : 2); break;
        case 2: shaped(2, 2, deep() ? 2 : 1); break;
        case 3: shaped(1, deep() ? 3 : 2, deep() ? 2 : 1, true); break;
        default: import(); break;
    }
}
