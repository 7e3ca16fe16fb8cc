#include "filescan.h"
#include <pdfmm/base/PdfWriter.h>
#include <pdfmm/base/PdfParser.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static const PdfSaveOptions KEEP = PdfSaveOptions::NoModifyDateUpdate | PdfSaveOptions::NoCollectGarbage;
static string n2s(size_t v) { return std::to_string(v); }
// ---- the original files: number 4 a dictionary with nested values, 5 an array, 6 a stream, 7 a number, 8 a string, 9 not referenced, two pages
static void fill(PdfMemDocument& d)
{
    auto& o = d.GetObjects(); auto& cat = d.GetCatalog().GetDictionary();
    auto& dict = o.CreateDictionaryObject("Thing"); auto& arr = o.CreateArrayObject(); auto& st = o.CreateDictionaryObject("S");
    auto& num = o.CreateObject(PdfObject(PdfVariant((int64_t)7))); auto& str = o.CreateObject(PdfObject(PdfVariant(PdfString("text")))); auto& lone = o.CreateDictionaryObject("Lone");
    PdfArray in; in.Add(PdfObject(PdfVariant((int64_t)1))); PdfDictionary id; id.AddKey("Deep", PdfObject(PdfVariant((int64_t)2))); in.Add(PdfObject(id));
    dict.GetDictionary().AddKey("In", in); dict.GetDictionary().AddKey("Sub", id); dict.GetDictionary().AddKey("Ref", num.GetIndirectReference());
    arr.GetArray().Add(PdfObject(PdfVariant((int64_t)3))); arr.GetArray().Add(PdfObject(PdfName("N"))); arr.GetArray().Add(PdfObject(in));
    st.GetOrCreateStream().SetData(bv(string("stream data")), true);
    lone.GetDictionary().AddKey("K", (int64_t)1);
    static const char* const K[] = { "Dict", "Arr", "St", "Num", "Str" }; PdfObject* v[] = { &dict, &arr, &st, &num, &str };
    for (unsigned i = 0; i < 5; i++) cat.AddKey(K[i], v[i]->GetIndirectReference());
}
static string original(unsigned kind)
{
    if (kind < 2)
    {
        PdfMemDocument d; fill(d); d.GetPages().CreatePage(PdfRect(0, 0, 100, 200)); d.GetPages().CreatePage(PdfRect(0, 0, 300, 400));
        std::string s; StringStreamDevice dev(s);
        if (kind == 0) { d.Save(dev, KEEP); return s; }
        PdfWriter w(d.GetObjects(), d.GetTrailer().GetObject()); w.SetSaveOptions(KEEP); w.SetUseXRefStream(true); w.Write(dev);
        return s;
    }
    // a file with most objects in an object stream
    static const char* const OBJ[] = { "<</Type/Catalog/Pages 3 0 R/Dict 4 0 R/Arr 5 0 R/St 6 0 R/Num 7 0 R/Str 8 0 R>>", "<</Title(T)>>", "<</Type/Pages/Count 2/Kids[10 0 R 11 0 R]>>",
        "<</Type/Thing/In[1<</Deep 2>>]/Sub<</Deep 2>>/Ref 7 0 R>>", "[3/N[1<</Deep 2>>]]", "", " 7", "(text)", "<</Type/Lone/K 1>>", "<</Type/Page/Parent 3 0 R/MediaBox[0 0 100 200]>>", "<</Type/Page/Parent 3 0 R/MediaBox[0 0 300 400]>>" };
    string head, data, s = "%PDF-1.5\n"; unsigned n = 0; string rows(4, '\0'); rows[3] = (char)255;
    auto row = [&](unsigned t, size_t a, unsigned b) { rows.push_back((char)t); rows.push_back((char)(a >> 8)); rows.push_back((char)a); rows.push_back((char)b); };
    size_t stAt = s.size(); s += "6 0 obj\n<</Type/S/Length 11>>stream\nstream data\nendstream\nendobj\n";
    for (unsigned i = 0; i < 11; i++) if (i + 1 != 6) { head += n2s(i + 1) + " " + n2s(data.size()) + " "; data += string(OBJ[i]) + "\n"; row(2, 12, n++); } else row(1, stAt, 0);
    row(1, s.size(), 0);
    s += "12 0 obj\n<</Type/ObjStm/N " + n2s(n) + "/First " + n2s(head.size()) + "/Length " + n2s(head.size() + data.size()) + ">>stream\n" + head + data + "\nendstream\nendobj\n";
    size_t at = s.size(); row(1, at, 0);
    s += "13 0 obj\n<</Type/XRef/Size 14/W[1 2 1]/Root 1 0 R/Info 2 0 R/Length " + n2s(rows.size()) + ">>stream\n" + rows + "\nendstream\nendobj\nstartxref\n" + n2s(at) + "\n%%EOF\n";
    return s;
}
static PdfObject* named(PdfMemDocument& d, const char* key) { return d.GetCatalog().GetDictionary().FindKey(key); }
static const unsigned OPS = 22;
static void op(PdfMemDocument& d, unsigned k, unsigned step)
{
    auto& cat = d.GetCatalog().GetDictionary(); int64_t v = 100 + step;
    auto dict = named(d, "Dict"), arr = named(d, "Arr"), st = named(d, "St"), num = named(d, "Num"), str = named(d, "Str");
    PdfDictionary* D = dict && dict->IsDictionary() ? &dict->GetDictionary() : nullptr; PdfArray* A = arr && arr->IsArray() ? &arr->GetArray() : nullptr;
    switch (k)
    {
        case 0: if (D) D->AddKey("New", v); break;
        case 1: if (D && D->HasKey("In") && D->MustFindKey("In").GetArray().size()) D->MustFindKey("In").GetArray()[0] = PdfObject(PdfVariant(v)); break;
        case 2: if (D && D->HasKey("In") && D->MustFindKey("In").GetArray().size() > 1) D->MustFindKey("In").GetArray()[1].GetDictionary().AddKey("Deep", v); break;
        case 3: if (D && D->HasKey("Sub")) D->MustFindKey("Sub").GetDictionary().RemoveKey("Deep"); break;
        case 4: if (D && D->HasKey("Sub")) D->RemoveKey("Sub"); break;
        case 5: if (A) A->Add(PdfObject(PdfVariant(v))); break;
        case 6: if (A && A->size()) A->RemoveAt(0); break;
        case 7: if (A && A->size() > 2 && (*A)[2].IsArray()) (*A)[2].GetArray().Clear(); break;
        case 8: if (A && A->size()) A->SetAt(0, PdfObject(PdfName("Other"))); break;
        case 9: if (st && st->IsDictionary()) st->GetOrCreateStream().SetData(bv("new" + symBytes("data", 1)), { PdfFilterType::ASCIIHexDecode }); break;
        case 10: if (st && st->HasStream()) { auto out = st->MustGetStream().GetOutputStreamRaw(true); out.Write("more", 4); } break;
        case 11: if (num && num->IsNumber()) num->SetNumber(v); break;
        case 12: if (str && str->IsString()) { if (pin("str", 1)) str->SetString(PdfString("changed")); else *str = PdfObject(PdfVariant(PdfReference(1, 0))); } break;
        case 13: cat.AddKey(step == 0 ? "Add0" : step == 1 ? "Add1" : "Add2", d.GetObjects().CreateDictionaryObject("X").GetIndirectReference()); break;
        case 14: if (num) { cat.RemoveKey("Num"); if (D) D->RemoveKey("Ref"); d.GetObjects().RemoveObject(num->GetIndirectReference()); } break;
        case 15: if (dict) { auto& m = *dict; m = PdfObject(PdfVariant(v)); } break;
        case 16: if (d.GetPages().GetCount()) d.GetPages().GetPageAt(0).SetRotationRaw(90); break;
        case 17: d.GetPages().CreatePage(PdfRect(0, 0, 10, 20)); break;
        case 18: if (d.GetPages().GetCount() > 1) d.GetPages().RemovePageAt(1); break;
        case 19: d.GetMetadata().SetTitle(PdfString("t" + n2s(step))); break;
        case 20: if (st && st->IsDictionary()) st->GetDictionary().AddKey("Extra", v); break;
        default:    // looking changes nothing
            if (D) { D->FindKey("Ref"); for (auto& e : *D) (void)e; }
            if (A) for (auto e : A->GetIndirectIterator()) (void)e;
            if (st && st->HasStream()) st->MustGetStream().GetCopy();
            break;
    }
}
static std::map<unsigned, Content> without(std::map<unsigned, Content> m, const PdfMemDocument& d)
{
    for (auto it = m.begin(); it != m.end();) if (it->second.value.find("Type=/XRef ") != string::npos) it = m.erase(it); else ++it;
    (void)d; return m;
}
// the updated file against the document it was written from
static void check(const string& before, const string& s, PdfMemDocument& d, const std::map<unsigned, Content>& want, PdfMemDocument& l, const string& id0)
{
    SX_ASSERT(s.size() > before.size() && s.compare(0, before.size(), before) == 0, "all original bytes stay in place");
    size_t t; size_t old = startxref(before, t); auto f = scan(s);
    SX_ASSERT(f.start >= before.size() && f.prev == (long)old, "the new section lies behind the original bytes and links to the previous one");
    for (auto& r : f.rows) if (r.second.used) SX_ASSERT(r.second.off >= before.size(), "what the new section names was written with it");
    try { l.LoadFromBuffer(bv(s)); } catch (PdfError&) { SX_ASSERT(false, "an updated file loads"); return; }
    same(without(want, d), without(contents(l), l));
    SX_ASSERT(f.size > (want.empty() ? 0 : want.rbegin()->first), "the size covers the objects of all sections");
    auto& id = l.GetTrailer().GetObject().GetDictionary().MustGetKey("ID").GetArray();
    if (!id0.empty()) SX_ASSERT(id.size() == 2 && stored(id[0].GetString()) == id0, "the first part of the identifier stays");
    SX_ASSERT(l.GetPages().GetCount() == d.GetPages().GetCount() && l.GetPdfVersion() == d.GetPdfVersion(), "pages and version are those of the document");
}
static string idOf(PdfMemDocument& d) { auto id = d.GetTrailer().GetObject().GetDictionary().GetKey("ID"); return id ? stored(id->GetArray()[0].GetString()) : ""; }
static std::map<unsigned, Content> reachable(const PdfDocument& d, bool keep);
static void reach(const PdfDocument& d, const PdfObject& o, std::set<unsigned>& seen)
{
    PdfReference r;
    if (o.TryGetReference(r)) { auto t = d.GetObjects().GetObject(r); if (t != nullptr && seen.insert(r.ObjectNumber()).second) reach(d, *t, seen); }
    else if (o.IsArray()) for (auto& e : o.GetArray()) reach(d, e, seen);
    else if (o.IsDictionary()) for (auto& e : o.GetDictionary()) reach(d, e.second, seen);
}
static std::map<unsigned, Content> reachable(const PdfDocument& d, bool keep)
{
    auto m = contents(d); if (keep) return m;
    std::set<unsigned> seen; reach(d, d.GetTrailer().GetObject(), seen);
    for (auto it = m.begin(); it != m.end();) if (seen.count(it->first) || it->second.value.find("/ObjStm ") != string::npos) ++it; else it = m.erase(it);
    return m;
}
static void sequence()
{
    string orig = original(pin("original", 2)); PdfMemDocument d; d.LoadFromBuffer(bv(orig)); string id0 = idOf(d);
    unsigned n = pin("n", deep() ? 3 : 2); bool keep = pin("keep", 1);
    for (unsigned i = 0; i < n; i++) op(d, pin("op", OPS - 1), i);
    auto want = reachable(d, keep);
    std::string s = orig; StringStreamDevice dev(s, DeviceAccess::ReadWrite, true);
    d.SaveUpdate(dev, keep ? KEEP : PdfSaveOptions::NoModifyDateUpdate);
    PdfMemDocument l; check(orig, s, d, want, l, id0);
    __sx_reach("sequence");
}
// several updates, by one document or by loading the file again in between
static void repeated()
{
    string cur = original(pin("original", 2)); std::unique_ptr<PdfMemDocument> d(new PdfMemDocument()); d->LoadFromBuffer(bv(cur)); string id0 = idOf(*d);
    unsigned n = 1 + (deep() ? pin("n", 1) : 0); vector<std::unique_ptr<string>> hold;
    for (unsigned i = 0; i <= n; i++)
    {
        op(*d, deep() ? pin("op", OPS - 1) : i == 0 ? pin("op", OPS - 1) : 3 * pin("op", 6), i);
        auto want = contents(*d);
        hold.emplace_back(new string(cur)); std::string& s = *hold.back(); StringStreamDevice dev(s, DeviceAccess::ReadWrite, true);
        d->SaveUpdate(dev, KEEP);
        std::unique_ptr<PdfMemDocument> l(new PdfMemDocument()); check(cur, s, *d, want, *l, id0);
        cur = s; if (pin("reload", 1)) d = std::move(l);
    }
    __sx_reach("repeated");
}
// a version change is recorded in the catalog
static void version()
{
    string orig = original(pin("original", 2)); PdfMemDocument d; d.LoadFromBuffer(bv(orig)); auto v0 = d.GetPdfVersion();
    static const PdfVersion V[] = { PdfVersion::V1_5, PdfVersion::V1_6, PdfVersion::V1_7 }; PdfVersion v = V[pin("v", 2)];
    d.SetPdfVersion(v); op(d, pin("op", OPS - 1), 0);
    std::string s = orig; StringStreamDevice dev(s, DeviceAccess::ReadWrite, true); d.SaveUpdate(dev, KEEP);
    PdfMemDocument l; l.LoadFromBuffer(bv(s));
    SX_ASSERT(l.GetPdfVersion() == (v > v0 ? v : v0), "a raised version is read back, and it is not lowered");
    __sx_reach("version");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 2))
    {
        case 0: sequence(); break;
        case 1: repeated(); break;
        default: version(); break;
    }
}
