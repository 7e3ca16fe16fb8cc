#include "filescan.h"
#include <pdfmm/base/PdfWriter.h>
#include <pdfmm/base/PdfParser.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
// objects a reader starting at the trailer can reach
static void reach(const PdfDocument& d, const PdfObject& o, std::set<unsigned>& seen)
{
    PdfReference r;
    if (o.TryGetReference(r)) { auto t = d.GetObjects().GetObject(r); if (t != nullptr && seen.insert(r.ObjectNumber()).second) reach(d, *t, seen); }
    else if (o.IsArray()) for (auto& e : o.GetArray()) reach(d, e, seen);
    else if (o.IsDictionary()) for (auto& e : o.GetDictionary()) reach(d, e.second, seen);
}
static std::map<unsigned, Content> expected(const PdfDocument& d, PdfSaveOptions o)
{
    auto m = contents(d);
    if ((o & PdfSaveOptions::NoCollectGarbage) != PdfSaveOptions::None) return m;
    std::set<unsigned> seen; reach(d, d.GetTrailer().GetObject(), seen);
    for (auto it = m.begin(); it != m.end();) if (seen.count(it->first)) ++it; else it = m.erase(it);
    return m;
}
static PdfSaveOptions options(unsigned k)
{
    PdfSaveOptions o = PdfSaveOptions::NoModifyDateUpdate;
    if (k & 1) o = o | PdfSaveOptions::NoFlateCompress;
    if (k & 2) o = o | PdfSaveOptions::Clean;
    if (k & 4) o = o | PdfSaveOptions::NoCollectGarbage;
    return o;
}
// a choice of options: all of them in the thorough tier
static unsigned opts() { static const unsigned Q[] = { 0, 3, 5, 6 }; return deep() ? pin("options", 7) : Q[pin("options", 3)]; }
static string save(PdfMemDocument& d, PdfSaveOptions o, bool xrefStream)
{
    std::string s; StringStreamDevice dev(s);
    if (xrefStream)
    {
        PdfWriter w(d.GetObjects(), d.GetTrailer().GetObject());
        w.SetPdfVersion(d.GetPdfVersion()); w.SetSaveOptions(o); w.SetUseXRefStream(true); w.Write(dev);
    }
    else d.Save(dev, o);
    return s;
}
static string idOf(const PdfDocument& d) { return show(d.GetTrailer().GetObject().GetDictionary().MustGetKey("ID").GetVariant()); }
static void roundTrip(PdfMemDocument& d, PdfSaveOptions o, bool xs, bool again)
{
    if (xs) o = o | PdfSaveOptions::NoCollectGarbage;       // the writer alone does not collect
    auto want = expected(d, o);
    string s = save(d, o, xs), root = show(d.GetTrailer().GetObject().GetDictionary().MustGetKey("Root").GetVariant()), info = show(d.GetTrailer().GetObject().GetDictionary().MustGetKey("Info").GetVariant());
    string v(mm::GetPdfVersionName(xs && d.GetPdfVersion() < PdfVersion::V1_5 ? PdfVersion::V1_5 : d.GetPdfVersion()));
    SX_ASSERT(s.compare(0, 7 + v.size(), "%PDF-" + v + "\n%") == 0, "the header names the version");
    for (unsigned i = 0; i < 4; i++) SX_ASSERT((unsigned char)s[7 + v.size() + i] >= 128, "the second line marks the file as binary");
    auto f = scan(s);
    SX_ASSERT(f.stream == xs && f.prev == -1, "the cross-reference data has the form asked for, and no previous section");
    size_t used = 0; for (auto& r : f.rows) used += r.second.used;
    SX_ASSERT(used == want.size() + xs, "every object has an entry");
    PdfMemDocument l;
    try { l.LoadFromBuffer(bv(s)); } catch (PdfError&) { SX_ASSERT(false, "a saved document loads"); return; }
    auto got = contents(l);
    if (xs) { SX_ASSERT(got.size() == want.size() + 1, "the cross-reference stream is the one further object"); for (auto it = got.begin(); it != got.end(); ++it) if (!want.count(it->first)) { SX_ASSERT(it->second.stream && it->second.value.find("Type=/XRef ") != string::npos, "the cross-reference stream is the one further object"); got.erase(it); break; } }
    same(want, got);
    auto& t = l.GetTrailer().GetObject().GetDictionary();
    SX_ASSERT(show(t.MustGetKey("Root").GetVariant()) == root && show(t.MustGetKey("Info").GetVariant()) == info, "the trailer names the catalog and the information dictionary");
    auto& id = t.MustGetKey("ID").GetArray();
    SX_ASSERT(id.size() == 2 && stored(id[0].GetString()) == stored(id[1].GetString()) && stored(id[0].GetString()).size() == 16, "a new file has twice the same identifier");
    SX_ASSERT(l.GetPdfVersion() == (xs && d.GetPdfVersion() < PdfVersion::V1_5 ? PdfVersion::V1_5 : d.GetPdfVersion()), "the version is read back");
    SX_ASSERT(l.GetPages().GetCount() == d.GetPages().GetCount(), "the pages are read back");
    for (unsigned i = 0; i < l.GetPages().GetCount(); i++) SX_ASSERT(l.GetPages().GetPageAt(i).GetObject().GetIndirectReference() == d.GetPages().GetPageAt(i).GetObject().GetIndirectReference(), "in their order");
    // a number is free in the loaded document, too, with the generation to use next, or it was free for good
    for (auto& fr : l.GetObjects().GetFreeObjects()) SX_ASSERT(!got.count(fr.ObjectNumber()), "no free number is in use");
    if (!xs) for (auto& r : f.rows) if (r.first && !r.second.used)
    {
        bool found = false; for (auto& fr : l.GetObjects().GetFreeObjects()) found |= fr.ObjectNumber() == r.first && fr.GenerationNumber() == r.second.gen;
        SX_ASSERT(found, "a free entry is free in the loaded document, with its generation");
    }
    if (again)
    {
        // what was loaded can be saved in turn, to the same effect
        auto w2 = expected(l, o); string s2 = save(l, o, false); scan(s2);
        PdfMemDocument l2; try { l2.LoadFromBuffer(bv(s2)); } catch (PdfError&) { SX_ASSERT(false, "a document saved again loads"); return; }
        same(w2, contents(l2));
        if (!xs) same(want, w2);
    }
}
static PdfObject& add(PdfMemDocument& d, const char* key, const PdfVariant& v) { auto& o = d.GetObjects().CreateObject(PdfObject(v)); d.GetCatalog().GetDictionary().AddKey(key, o.GetIndirectReference()); return o; }
// values of every kind, as objects of their own or within one
static void values()
{
    PdfMemDocument d; unsigned o = opts(); bool xs = pin("xs", 1);
    unsigned n = pin("n", deep() ? 2 : 1);
    for (unsigned i = 0; i <= n; i++)
    {
        static const char* const keys[] = { "A0", "A1", "A2" };
        PdfVariant v = i == 0 ? value(deep() ? 2 : 1, LEAVES, 1) : leaf(deep() ? pin("leaf", 12) : 3 + 2 * pin("leaf", 1));
        if (pin("how", 1)) d.GetCatalog().GetDictionary().AddKey(keys[i], PdfObject(v)); else add(d, keys[i], v);
    }
    roundTrip(d, options(o), xs, false); __sx_reach("values");
}
// streams with any contents
static void streams()
{
    PdfMemDocument d; unsigned o = opts(); bool xs = pin("xs", 1);
    unsigned n = pin("n", deep() ? 2 : 1);
    for (unsigned i = 0; i <= n; i++)
    {
        auto& obj = add(d, i == 0 ? "S0" : i == 1 ? "S1" : "S2", PdfVariant(PdfDictionary()));
        string data = symBytes("data", pin("len", deep() ? 5 : 3));
        switch (deep() || i == 0 ? pin("around", 3) : 1) { case 1: data += "\nendstream\nendobj\n"; break; case 2: data = "\r\n" + data + "\n"; break; case 3: data = "stream\n" + data + "endstream"; break; }
        switch (i == 0 ? pin("filter", data.size() <= 20 ? 2 : 1) : 0)
        {
            case 0: obj.GetOrCreateStream().SetData(bv(data), { }); break;
            case 1: obj.GetOrCreateStream().SetData(bv(data), { PdfFilterType::FlateDecode }); break;
            default: obj.GetOrCreateStream().SetData(bv(data), { PdfFilterType::ASCIIHexDecode }); break;
        }
        if (i == 0 && pin("meta", 1)) { obj.GetDictionary().AddKey("Type", PdfName("Metadata")); d.GetCatalog().GetDictionary().AddKey("Metadata", obj.GetIndirectReference()); }
    }
    roundTrip(d, options(o), xs, deep() ? pin("again", 1) : n == 1); __sx_reach("streams");
}
// objects added and removed, with the numbers of removed ones taken again
static void history()
{
    PdfMemDocument d; auto& objs = d.GetObjects(); vector<PdfReference> mine;
    unsigned o = pin("options", 1) * 4 + 1, steps = deep() ? 6 : 5; bool xs = pin("xs", 1);
    for (unsigned i = 0; i < steps; i++)
    {
        switch (pin("op", 3))
        {
            case 0: { auto& x = add(d, i == 0 ? "H0" : i == 1 ? "H1" : i == 2 ? "H2" : i == 3 ? "H3" : i == 4 ? "H4" : "H5", PdfVariant((int64_t)i)); mine.push_back(x.GetIndirectReference()); break; }
            case 1: { auto& x = objs.CreateDictionaryObject("T"); x.GetDictionary().AddKey("N", (int64_t)i); mine.push_back(x.GetIndirectReference()); break; }
            case 2:
            {
                if (mine.empty()) break;
                unsigned k = pin("which", mine.size() - 1);
                objs.RemoveObject(mine[k]); mine.erase(mine.begin() + k); break;
            }
            default: i = steps; break;
        }
    }
    roundTrip(d, options(o), xs, pin("again", 1)); __sx_reach("history");
}
// an object with any number and generation
static void numbers()
{
    PdfMemDocument d; static const unsigned NUM[] = { 5, 6, 7, 9, 12, 99, 255, 256, 1000 }, GEN[] = { 0, 1, 255, 256, 65534 };
    unsigned n = deep() ? 3 : 2; std::set<unsigned> used; unsigned top = d.GetObjects().GetSize();
    for (unsigned i = 0; i < n; i++)
    {
        unsigned num = NUM[deep() ? pin("num", 8) : 2 * pin("num", 3)], gen = GEN[deep() ? pin("gen", 4) : 2 * pin("gen", 2)];
        if (num <= top || !used.insert(num).second) continue;
        auto obj = new PdfObject(PdfVariant((int64_t)(100 + i))); obj->SetIndirectReference(PdfReference(num, (uint16_t)gen));
        d.GetObjects().PushObject(obj); d.GetCatalog().GetDictionary().AddKey(i == 0 ? "N0" : i == 1 ? "N1" : "N2", PdfReference(num, (uint16_t)gen));
    }
    roundTrip(d, options(5), pin("xs", 1), pin("again", 1)); __sx_reach("numbers");
}
// pages and information entries
static void pages()
{
    PdfMemDocument d; unsigned o = opts(); unsigned n = pin("n", 3);
    for (unsigned i = 0; i < n; i++)
    {
        auto& p = d.GetPages().CreatePage(PdfRect(0, 0, 100 + i, 200));
        if (i == 1 && pin("rot", 1)) p.SetRotationRaw(90);
        if (i == 0 && pin("content", 1)) p.GetOrCreateContents().GetStreamForAppending().SetData(bv("q " + symBytes("c", deep() ? 2 : 1) + " Q"));
    }
    if (n > 1 && pin("remove", 1)) d.GetPages().RemovePageAt(pin("at", n - 1));
    auto& m = d.GetMetadata();
    string title; unsigned kind = pin("title", 3);
    if (kind == 1) title = string(1, (char)__sx_range("t", deep() ? 32 : 39, deep() ? 126 : 42)); else if (kind == 2) { uint64_t c = __sx_range("t", deep() ? 0x391 : 0x3a6, 0x3a9); putUtf8(title, (uint32_t)c); } else if (kind == 3) title = "(\\)";
    if (kind) m.SetTitle(PdfString(title));
    if (kind & 1) m.SetAuthor(PdfString("Me"));
    static const PdfVersion V[] = { PdfVersion::V1_0, PdfVersion::V1_3, PdfVersion::V1_4, PdfVersion::V1_5, PdfVersion::V1_7, PdfVersion::V2_0 };
    d.SetPdfVersion(V[deep() ? pin("version", 5) : kind]);
    roundTrip(d, options(o), false, false);
    PdfMemDocument l; string s = save(d, options(o), false); l.LoadFromBuffer(bv(s));
    SX_ASSERT(l.GetMetadata().GetTitle().has_value() == (kind != 0) && (kind == 0 || l.GetMetadata().GetTitle()->GetString() == title), "the information entries are read back");
    SX_ASSERT(l.GetMetadata().GetProducer() == d.GetMetadata().GetProducer() && l.GetMetadata().GetAuthor().has_value() == d.GetMetadata().GetAuthor().has_value(), "the information entries are read back");
    for (unsigned i = 0; i < l.GetPages().GetCount(); i++)
    {
        auto& a = l.GetPages().GetPageAt(i); auto& b = d.GetPages().GetPageAt(i);
        SX_ASSERT(a.GetMediaBox().GetWidth() == b.GetMediaBox().GetWidth() && a.GetRotationRaw() == b.GetRotationRaw(), "the pages keep their boxes and rotation");
    }
    __sx_reach("pages");
}
void sx_harness()
{
    fewNames = true; PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 4))
    {
        case 0: values(); break;
        case 1: streams(); break;
        case 2: history(); break;
        case 3: numbers(); break;
        default: pages(); break;
    }
}
