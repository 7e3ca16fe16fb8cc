#include "common.h"
#include <map>
// ---- reference: a tree of titles
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
struct Node { int id = -1; vector<Node*> kids; Node* parent = nullptr; PdfOutlineItem* item = nullptr; };
struct Model
{
    vector<std::unique_ptr<Node>> all; Node* root; int next = 0;
    Model() { root = make(nullptr, 0); root->id = -1; }
    Node* make(Node* parent, size_t at) { all.push_back(std::unique_ptr<Node>(new Node)); auto n = all.back().get(); n->id = next++; n->parent = parent; if (parent) parent->kids.insert(parent->kids.begin() + at, n); return n; }
    void list(Node* n, vector<Node*>& out) { out.push_back(n); for (auto k : n->kids) list(k, out); }
    vector<Node*> nodes() { vector<Node*> v; list(root, v); return v; }
};
static string title(int id) { return "t" + std::to_string(id); }
static std::shared_ptr<PdfDestination> dest(PdfDocument& doc) { return std::make_shared<PdfDestination>(doc); }
// links of the items
static void items(const PdfOutlineItem& it, const Node* n, bool deep = false)
{
    SX_ASSERT((it.First() == nullptr) == n->kids.empty() && (it.Last() == nullptr) == n->kids.empty(), "first and last child are there exactly when there are children");
    const PdfOutlineItem* prev = nullptr; const PdfOutlineItem* c = it.First();
    for (auto k : n->kids)
    {
        SX_ASSERT(c != nullptr && c->GetTitle().GetString() == title(k->id), "the children are those the history implies, in order");
        SX_ASSERT(c->Prev() == prev && c->GetParentOutline() == &it, "previous items and parents are linked");
        if (k->item) SX_ASSERT(c == k->item, "items stay the same");
        items(*c, k); prev = c; c = c->Next();
    }
    SX_ASSERT(c == nullptr && it.Last() == prev, "the last child is the last one");
}
// links of the objects
static void objects(PdfDocument& doc, const PdfObject& o, const Node* n)
{
    auto ref = [&](const PdfObject& x, const char* k) { auto v = x.GetDictionary().GetKey(k); return v == nullptr ? PdfReference() : v->GetReference(); };
    PdfReference prev, at = ref(o, "First");
    for (auto k : n->kids)
    {
        auto c = doc.GetObjects().GetObject(at);
        SX_ASSERT(c != nullptr && c->GetDictionary().MustFindKey("Title").GetString().GetString() == title(k->id), "the objects have the children in order");
        SX_ASSERT(ref(*c, "Prev") == prev && ref(*c, "Parent") == o.GetIndirectReference(), "objects link to the previous item and the parent");
        objects(doc, *c, k); prev = at; at = ref(*c, "Next");
    }
    SX_ASSERT(at == PdfReference() && ref(o, "Last") == prev, "the object of the last child is linked as such");
}
static void check(PdfDocument& doc, Model& m)
{
    auto o = doc.GetOutlines();
    if (o == nullptr) { SX_ASSERT(m.root->kids.empty(), "there is a tree"); return; }
    items(*o, m.root); objects(doc, o->GetObject(), m.root);
    PdfOutlines again(o->GetObject());
    Model none; vector<Node*> v = m.nodes(); vector<PdfOutlineItem*> keep; for (auto n : v) { keep.push_back(n->item); n->item = nullptr; }
    items(again, m.root);
    for (size_t i = 0; i < v.size(); i++) v[i]->item = keep[i];
}
// a stand-alone chain of items, as objects
static PdfObject& chain(PdfDocument& doc, Node* n, Model& m)
{
    unsigned k = 1 + pin("chain", 1); PdfObject* first = nullptr; PdfObject* prev = nullptr; bool kid = pin("kid", 1);
    for (unsigned i = 0; i < k; i++)
    {
        auto& o = doc.GetObjects().CreateDictionaryObject(); auto c = m.make(n, n->kids.size());
        o.GetDictionary().AddKey("Title", PdfString(title(c->id)));
        if (prev) { prev->GetDictionary().AddKeyIndirect("Next", o); o.GetDictionary().AddKeyIndirect("Prev", *prev); }
        if (kid && i == 0)
        {
            auto& ko = doc.GetObjects().CreateDictionaryObject(); auto kc = m.make(c, 0);
            ko.GetDictionary().AddKey("Title", PdfString(title(kc->id))); ko.GetDictionary().AddKeyIndirect("Parent", o);
            o.GetDictionary().AddKeyIndirect("First", ko); o.GetDictionary().AddKeyIndirect("Last", ko);
        }
        if (!first) first = &o; prev = &o;
    }
    return *first;
}
static void bind(const PdfOutlineItem& it, Node* n) { auto c = it.First(); for (auto k : n->kids) { SX_ASSERT(c != nullptr, "the tree is there"); k->item = const_cast<PdfOutlineItem*>(c); bind(*c, k); c = c->Next(); } }
static void op(PdfDocument& doc, Model& m, unsigned kinds)
{
    auto v = m.nodes(); auto& o = doc.GetOrCreateOutlines(); m.root->item = nullptr;
    auto item = [&](Node* n) -> PdfOutlineItem& { return n == m.root ? (PdfOutlineItem&)o : *n->item; };
    switch (pin("op", kinds))
    {
        case 0:
        {
            auto n = v[pin("at", v.size() - 1)]; auto c = m.make(n, n->kids.size());
            c->item = n == m.root ? o.CreateRoot(PdfString(title(c->id))) : item(n).CreateChild(PdfString(title(c->id)), dest(doc)); break;
        }
        case 1:
        {
            if (v.size() < 2) break;
            auto n = v[1 + pin("at", v.size() - 2)]; size_t i = 0; while (n->parent->kids[i] != n) i++;
            auto c = m.make(n->parent, i + 1);
            c->item = c->id % 2 ? item(n).CreateNext(PdfString(title(c->id)), dest(doc)) : item(n).CreateNext(PdfString(title(c->id)), std::make_shared<PdfAction>(doc, PdfActionType::URI)); break;
        }
        case 2:
        {
            if (v.size() < 2) break;
            auto n = v[1 + pin("at", v.size() - 2)]; item(n).Erase();
            auto& k = n->parent->kids; for (size_t i = 0; i < k.size(); i++) if (k[i] == n) { k.erase(k.begin() + i); break; }
            break;
        }
        case 3:     // items of the tree cannot be inserted into it
        {
            if (v.size() < 2) break;
            auto n = v[1 + pin("at", v.size() - 2)], to = v[pin("to", v.size() - 1)];
            try { item(to).InsertChild(&item(n)); SX_ASSERT(false, "items of the same tree cannot be inserted"); }
            catch (PdfError& e) { SX_ASSERT(e.GetError() == PdfErrorCode::OutlineItemAlreadyPresent, "items of the same tree cannot be inserted"); }
            break;
        }
        default:
        {
            auto n = v[pin("at", v.size() - 1)]; size_t was = n->kids.size();
            auto& first = chain(doc, n, m); item(n).InsertChild(new PdfOutlines(first));
            auto c = was ? n->kids[was - 1]->item->Next() : item(n).First();
            for (size_t i = was; i < n->kids.size(); i++) { SX_ASSERT(c != nullptr, "the inserted items are there"); n->kids[i]->item = c; bind(*c, n->kids[i]); c = c->Next(); }
        }
    }
}
static void history(PdfDocument& doc, Model& m, unsigned top, unsigned kinds)
{
    unsigned n = pin("ops", top);
    for (unsigned i = 0; i < n; i++) op(doc, m, kinds);
    check(doc, m);
    __sx_reach("history");
}
// a tree of any shape, loaded from its objects
static void loaded()
{
    PdfMemDocument src; Model m; auto& o = src.GetOrCreateOutlines();
    unsigned n = pin("top", 3);
    for (unsigned i = 0; i < n; i++)
    {
        auto c = m.make(m.root, i); auto it = o.CreateRoot(PdfString(title(c->id)));
        unsigned k = pin("sub", 2);
        for (unsigned j = 0; j < k; j++)
        {
            auto d = m.make(c, j); auto jt = it->CreateChild(PdfString(title(d->id)), dest(src));
            if (i == 0 && j == 0 && pin("third", 1)) { auto e = m.make(d, 0); jt->CreateChild(PdfString(title(e->id)), dest(src)); }
        }
    }
    PdfMemDocument doc(src);
    bind(*doc.GetOutlines(), m.root);
    __sx_reach("loaded");
    history(doc, m, deep() ? 2 : 1, 4);
}
// more items than recursion could follow
static void wide()
{
    PdfMemDocument src; Model m; auto& o = src.GetOrCreateOutlines();
    unsigned n = pin("n", 1) ? 300 : 256;
    for (unsigned i = 0; i < n; i++) { auto c = m.make(m.root, i); o.CreateRoot(PdfString(title(c->id))); }
    PdfMemDocument doc(src);
    bind(*doc.GetOutlines(), m.root);
    check(doc, m);
    __sx_reach("wide");
}
// attributes of items
static void attributes()
{
    PdfMemDocument doc; auto& o = doc.GetOrCreateOutlines(); auto it = o.CreateRoot(PdfString("a"));
    SX_ASSERT(it->GetTextFormat() == PdfOutlineFormat::Default && it->GetTextColorRed() == 0 && it->GetTextColorGreen() == 0 && it->GetTextColorBlue() == 0, "defaults");
    auto f = (PdfOutlineFormat)pin("f", 3); double c[3] = { 0.25, 0.5, 1 }; c[pin("which", 2)] = pin("c", 4) / 4.0;
    string t = symBytes("t", 1); for (char ch : t) __sx_assume(((unsigned char)ch >= 0x20) & ((unsigned char)ch < 0x7F));
    it->SetTitle(PdfString(t)); it->SetTextFormat(f); it->SetTextColor(c[0], c[1], c[2]);
    PdfOutlines again(o.GetObject()); const PdfOutlineItem* v[] = { it, again.First() };
    for (auto x : v) SX_ASSERT(x->GetTitle().GetString() == t && x->GetTextFormat() == f && x->GetTextColorRed() == c[0] && x->GetTextColorGreen() == c[1] && x->GetTextColorBlue() == c[2], "title, format and colour read back as set");
    __sx_reach("attributes");
}
// outlines of another document
static void merged()
{
    PdfMemDocument a, b; Model m; 
    auto fill = [&](PdfDocument& d, const char* what) { unsigned n = pin(what, 3); if (n) d.GetOrCreateOutlines(); for (unsigned i = 0; i + 1 < n; i++) { auto c = m.make(m.root, m.root->kids.size()); auto it = d.GetOutlines()->CreateRoot(PdfString(title(c->id))); if (i == 0) { auto k = m.make(c, 0); it->CreateChild(PdfString(title(k->id)), dest(d)); } } };
    fill(a, "a"); fill(b, "b"); b.GetPages().CreatePage(PdfRect(0, 0, 9, 9));
    if (pin("how", 1)) a.GetPages().InsertDocumentPageAt(0, b, 0); else a.GetPages().AppendDocumentPages(b);
    SX_ASSERT(a.GetOutlines() != nullptr || m.root->kids.empty(), "appending gives the outlines of both documents");
    check(a, m);
    __sx_reach("merged");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 5))
    {
        case 0: { PdfMemDocument doc; Model m; history(doc, m, deep() ? 6 : 5, 2); break; }
        case 1: { PdfMemDocument doc; Model m; history(doc, m, deep() ? 4 : 3, 4); break; }
        case 2: loaded(); break;
        case 3: wide(); break;
        case 4: attributes(); break;
        default: merged(); break;
    }
}
