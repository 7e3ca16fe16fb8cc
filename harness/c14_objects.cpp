#include "common.h"
#include <map>
#include <set>
// ---- reference: the live objects of a document by number, with every generation a number ever had
struct Model
{
    struct Live { unsigned gen; const PdfObject* ptr; int tag; };
    std::map<unsigned, Live> live; std::map<unsigned, long> last;      // last generation used (or reserved) per number
    void add(const PdfObject& o, int tag)
    {
        auto r = o.GetIndirectReference();
        SX_ASSERT(r.ObjectNumber() > 0, "a new object has a number");
        SX_ASSERT(!live.count(r.ObjectNumber()), "no two live objects share a number");
        auto l = last.find(r.ObjectNumber());
        if (l != last.end()) SX_ASSERT((long)r.GenerationNumber() > l->second && l->second < 65534, "a number is reused only with a higher generation, never once it is exhausted");
        live[r.ObjectNumber()] = Live{ r.GenerationNumber(), &o, tag }; last[r.ObjectNumber()] = r.GenerationNumber();
    }
};
static int tagOf(const PdfObject& o) { return (int)o.GetDictionary().FindKeyAs<int64_t>("T", -1); }
static PdfObject tagged(int t) { PdfObject o; o.GetDictionary().AddKey("T", (int64_t)t); return o; }
static void check(PdfDocument& doc, Model& m)
{
    auto& objs = doc.GetObjects();
    SX_ASSERT(objs.GetSize() == m.live.size(), "exactly the live objects are listed");
    auto it = m.live.begin();
    for (auto o : objs)
    {
        SX_ASSERT(it != m.live.end() && o->GetIndirectReference() == PdfReference(it->first, it->second.gen) && o == it->second.ptr, "iteration is in ascending order over the live objects");
        ++it;
    }
    for (auto& l : m.live)
    {
        PdfReference r(l.first, l.second.gen);
        SX_ASSERT(objs.GetObject(r) == l.second.ptr, "a live reference resolves to the object stored under it");
        SX_ASSERT(objs.GetObject(PdfReference(l.first, l.second.gen + 1)) == nullptr, "other generations resolve to nothing");
        if (l.second.tag >= 0) SX_ASSERT(tagOf(*l.second.ptr) == l.second.tag && l.second.ptr->GetDocument() == &doc, "the object has the contents given to it and belongs to the document");
    }
    std::set<unsigned> seen;
    for (auto& f : objs.GetFreeObjects())
    {
        SX_ASSERT(!m.live.count(f.ObjectNumber()), "no free number is held by an object");
        SX_ASSERT(seen.insert(f.ObjectNumber()).second, "a number is free once");
        SX_ASSERT(f.GenerationNumber() < 65535, "an exhausted number is not free");
    }
}
static void start(PdfDocument& doc, Model& m) { for (auto o : doc.GetObjects()) m.add(*o, -1); }
static void op(PdfDocument& doc, Model& m, int k)
{
    auto& objs = doc.GetObjects();
    auto pick = [&]() { auto it = m.live.begin(); std::advance(it, __sx_pin(rng("which", 0, m.live.size() - 1))); return it; };
    // only objects of our own are removed: the catalog and the root of the pages stay
    auto ours = [&](unsigned& num) { vector<unsigned> v; for (auto& l : m.live) if (l.second.tag >= 0) v.push_back(l.first); if (v.empty()) return false; num = v[__sx_pin(rng("ours", 0, v.size() - 1))]; return true; };
    unsigned num;
    switch (__sx_pin(rng("op", 0, 6)))
    {
        case 0: { auto& o = objs.CreateObject(tagged(k)); SX_ASSERT(o.IsDirty(), "a new object is modified"); m.add(o, k); break; }
        case 1:
        {
            auto& o = objs.CreateDictionaryObject("X"); o.GetDictionary().AddKey("T", (int64_t)k);
            m.add(o, k); break;
        }
        case 2:
        {
            if (!ours(num)) break;
            auto l = m.live[num]; auto gone = objs.RemoveObject(PdfReference(num, l.gen));
            SX_ASSERT(gone.get() == l.ptr && tagOf(*gone) == l.tag, "removing gives the object back");
            m.live.erase(num);
            SX_ASSERT(objs.GetObject(PdfReference(num, l.gen)) == nullptr, "a removed object is gone");
            break;
        }
        case 3:
        {
            if (!ours(num)) break;
            auto it = objs.begin(); while ((*it)->GetIndirectReference().ObjectNumber() != num) ++it;
            auto gone = objs.RemoveObject(it);
            SX_ASSERT(gone.get() == m.live[num].ptr, "removing gives the object back");
            m.live.erase(num); break;
        }
        case 4:     // replace an object, or one that is not there
        {
            auto* n = new PdfObject(tagged(k));
            bool there = __sx_pin(rng("there", 0, 1)) != 0; PdfReference r;
            if (there) { if (!ours(num)) { delete n; break; } r = PdfReference(num, m.live[num].gen); }
            else { auto it = pick(); r = PdfReference(it->first, it->second.gen + 1); }
            try
            {
                auto gone = objs.ReplaceObject(r, n);
                SX_ASSERT(there, "replacing an object that does not exist fails");
                SX_ASSERT(gone.get() == m.live[num].ptr && tagOf(*gone) == m.live[num].tag, "replacing gives the previous object back");
                m.live[num].ptr = n; m.live[num].tag = k;
            }
            catch (PdfError&) { SX_ASSERT(!there, "an existing object can be replaced"); delete n; }
            break;
        }
        case 5:     // any reference that is not live
        {
            PdfReference r(rng("num", 0, 0xFFFFFFFF), (uint16_t)rng("gen", 0, 65535));
            for (auto& l : m.live) __sx_assume((r.ObjectNumber() != l.first) | (r.GenerationNumber() != l.second.gen));
            SX_ASSERT(objs.GetObject(r) == nullptr && objs.RemoveObject(r) == nullptr, "other references resolve to nothing");
            __sx_reach("absent"); check(doc, m); __sx_end(); break;     // the history ends here
        }
        case 6: objs.SetCanReuseObjectNumbers(__sx_pin(rng("reuse", 0, 1)) != 0); break;
    }
}
static void history()
{
    PdfMemDocument doc; Model m; start(doc, m);
    unsigned n = __sx_pin(rng("ops", 3, deep() ? 5 : 4));
    for (unsigned i = 0; i < n; i++) op(doc, m, i);
    check(doc, m);
    __sx_reach("history");
}
// a document read from a file: any mix of used, freed and missing numbers of any generation
static string table(const vector<std::pair<unsigned, string>>& rows)
{
    string s = "%PDF-1.4\n"; char b[24]; string x = "xref\n0 1\n0000000000 65535 f \n1 2\n";
    for (auto t : { "1 0 obj<</Type/Catalog/Pages 2 0 R>>endobj\n", "2 0 obj<</Type/Pages/Kids[]/Count 0>>endobj\n" }) { snprintf(b, sizeof b, "%010u 00000 n", (unsigned)s.size()); x += string(b) + " \n"; s += t; }
    size_t at = s.size(); s += x;
    for (auto& r : rows) s += std::to_string(r.first) + " 1\n" + r.second + " \n";
    return s + "trailer<</Size 20/Root 1 0 R>>startxref\n" + std::to_string(at) + "\n%%EOF\n";
}
static void loaded()
{
    static const unsigned G[] = { 0, 1, 3, 65533, 65534, 65535 };
    PdfMemDocument doc; Model m;
    vector<std::pair<unsigned, string>> rows; vector<std::pair<unsigned, unsigned>> used, freed;
    unsigned n = __sx_pin(rng("rows", 1, 2));
    for (unsigned i = 0; i < n; i++)
    {
        unsigned num = 5 + 2 * i, kind = __sx_pin(rng("kind", 0, 2)), g = G[__sx_pin(rng("gen", 0, 5))];
        char b[24]; snprintf(b, sizeof b, "%010u %05u %c", kind == 0 ? 9 : 0, g, kind == 1 ? 'f' : 'n');
        if (kind == 2 && g != 0) __sx_end();
        rows.push_back({ num, b });
        if (kind == 0) used.push_back({ num, g }); else freed.push_back({ num, kind == 2 ? 1 : g });
    }
    string t = table(rows);
    doc.LoadFromBuffer(t);
    m.add(doc.GetObjects().MustGetObject(PdfReference(1, 0)), -1); m.add(doc.GetObjects().MustGetObject(PdfReference(2, 0)), -1);
    for (auto& u : used)
    {
        auto o = doc.GetObjects().GetObject(PdfReference(u.first, u.second));
        SX_ASSERT(o != nullptr, "a used number has its object");
        m.add(*o, -1);
    }
    // a free entry names the generation to use the next time
    for (auto& f : freed) m.last[f.first] = f.second == 65535 ? 65535 : (long)f.second - 1;
    __sx_reach("loaded");
    check(doc, m);
    auto& objs = doc.GetObjects();
    if (!used.empty() && __sx_pin(rng("remove", 0, 1))) { objs.RemoveObject(PdfReference(used[0].first, used[0].second)); m.live.erase(used[0].first); check(doc, m); }
    unsigned k = __sx_pin(rng("ops", 0, deep() ? 2 : 1));
    for (unsigned i = 0; i < k; i++) op(doc, m, i);
    // exhaust the free list
    for (unsigned i = 0; i < 6; i++) { auto& o = objs.CreateObject(tagged(50 + i)); m.add(o, 50 + i); }
    check(doc, m);
}
// near the limits of numbers
static void limits()
{
    static const unsigned L[] = { 254, 65533, 65534, 65535, 65536, 131071, 8388604, 8388605, 8388606 };
    unsigned top = L[__sx_pin(rng("top", 0, 8))];
    PdfMemDocument doc; Model m; start(doc, m);
    auto& objs = doc.GetObjects();
    objs.TryIncrementObjectCount(PdfReference(top, 0));
    unsigned n = 0;
    __sx_reach("limits");
    for (unsigned i = 0; i < 4; i++)
    {
        try { auto& o = objs.CreateObject(tagged(i)); SX_ASSERT(o.GetIndirectReference().ObjectNumber() > top, "new numbers are above all used ones"); m.add(o, i); n++; }
        catch (PdfError&) { SX_ASSERT(top + n + 2 >= 8388607, "numbers are available up to the limit"); break; }
    }
    check(doc, m);
}
// another document, or one page of it, copied into this one
static void append()
{
    PdfMemDocument a, b; Model m; start(a, m);
    auto build = [&](PdfDocument& d, int base, Model* mm)
    {
        auto& objs = d.GetObjects(); vector<PdfReference> refs;
        for (int i = 0; i < 3; i++) { auto& o = objs.CreateObject(tagged(base + i)); refs.push_back(o.GetIndirectReference()); if (mm) mm->add(o, base + i); }
        unsigned gone = __sx_pin(rng("gone", 0, 3));
        bool noReuse = __sx_pin(rng("noreuse", 0, 1));
        if (gone < 3) { objs.RemoveObject(refs[gone]); if (mm) mm->live.erase(refs[gone].ObjectNumber()); }
        if (noReuse) objs.SetCanReuseObjectNumbers(false);
        for (int i = 0; i < 2; i++) if ((unsigned)i != gone && (unsigned)i + 1 != gone) objs.MustGetObject(refs[i]).GetDictionary().AddKey("Ref", refs[i + 1]);
        return refs;
    };
    build(a, 10, &m);
    auto rb = build(b, 20, nullptr);
    b.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); b.GetPages().GetPageAt(0).GetDictionary().AddKey("Ours", rb[2]);
    unsigned how = __sx_pin(rng("how", 0, 1));
    bool page = __sx_pin(rng("page", 0, 1)) != 0;
    if (page) { a.GetPages().CreatePage(PdfRect(0, 0, 50, 50)); m.live.clear(); m.last.clear(); for (auto o : a.GetObjects()) m.add(*o, tagOf(*o)); }
    for (auto& l : m.live) if (l.second.ptr->GetDictionary().GetKey("T") == nullptr) l.second.tag = -1;
    if (how == 0) a.GetPages().AppendDocumentPages(b); else a.GetPages().InsertDocumentPageAt(0, b, 0);
    __sx_reach("append");
    // the objects that were there are untouched, the others have numbers of their own
    for (auto& l : m.live)
        SX_ASSERT(a.GetObjects().GetObject(PdfReference(l.first, l.second.gen)) == l.second.ptr && (l.second.tag < 0 || tagOf(*l.second.ptr) == l.second.tag), "appending leaves the objects of the document alone");
    std::set<unsigned> nums; std::map<int, const PdfObject*> copies; unsigned last = 0;
    for (auto o : a.GetObjects())
    {
        auto r = o->GetIndirectReference();
        SX_ASSERT(r.ObjectNumber() > last, "no two live objects share a number"); last = r.ObjectNumber();
        if (!m.live.count(r.ObjectNumber())) { SX_ASSERT(o->GetDocument() == &a, "a copied object belongs to its document"); if (o->IsDictionary() && tagOf(*o) >= 20) copies[tagOf(*o)] = o; }
    }
    for (auto o : b.GetObjects())
    {
        int t = o->IsDictionary() ? tagOf(*o) : -1; if (t < 0) continue;
        SX_ASSERT(copies.count(t), "every object of the other document is copied");
        auto f = o->GetDictionary().GetKey("Ref");
        if (f != nullptr)
        {
            auto g = copies[t]->GetDictionary().FindKey("Ref");
            SX_ASSERT(g != nullptr && tagOf(*g) == t + 1, "references of copied objects lead to the copies");
        }
    }
    SX_ASSERT(a.GetPages().GetCount() == 1u + page, "the page is there");
    auto& p = a.GetPages().GetPageAt(how == 0 ? a.GetPages().GetCount() - 1 : 0);
    SX_ASSERT(p.GetMediaBox().GetWidth() == 100, "the page is that of the other document");
    if (auto o = b.GetObjects().GetObject(rb[2])) { auto q = p.GetDictionary().FindKey("Ours"); SX_ASSERT(q != nullptr && tagOf(*q) == tagOf(*o), "its references lead to the copies"); }
    for (unsigned i = 0; i < 4; i++) { auto& o = a.GetObjects().CreateObject(tagged(90)); SX_ASSERT(o.GetIndirectReference().ObjectNumber() > 0, "new numbers are available"); (void)o; }
    last = 0; for (auto o : a.GetObjects()) { SX_ASSERT(o->GetIndirectReference().ObjectNumber() > last, "no two live objects share a number"); last = o->GetIndirectReference().ObjectNumber(); }
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 3)) { case 0: history(); break; case 1: loaded(); break; case 2: limits(); break; default: append(); break; }
}
