// C37: signing a document
#include "filescan.h"
#include <memory>
#include <pdfmm/base/PdfSigner.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static const PdfSaveOptions KEEP = PdfSaveOptions::NoModifyDateUpdate | PdfSaveOptions::NoCollectGarbage;
struct Signer : PdfSigner
{
    size_t reserved; string value, seen; unsigned resets = 0, dry = 0, real = 0; bool early = false, small = false;
    Signer(size_t r, string v) : reserved(r), value(std::move(v)) { }
    void Reset() override { resets++; seen.clear(); if (dry == 0) early = true; }
    void AppendData(const bufferview& d) override { if (resets == 0) early = true; if (real) early = true; seen.append(d.data(), d.size()); }
    void ComputeSignature(charbuff& b, bool dryrun) override
    {
        if (dryrun) { dry++; b.assign(string(reserved, 'x')); }
        else { real++; b.assign(value); }
    }
    string GetSignatureFilter() const override { return "Fil.ter"; }
    string GetSignatureSubFilter() const override { return "Sub Filter"; }
    string GetSignatureType() const override { return "Sig"; }
};
static string original(unsigned kind, size_t pad)
{
    PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 100, 200));
    if (pad) { auto& o = d.GetObjects().CreateDictionaryObject(); string data(pad, 'p'); o.GetOrCreateStream().SetData(bv(data), true); d.GetCatalog().GetDictionary().AddKey("Pad", o.GetIndirectReference()); }
    if (kind & 1) d.GetOrCreateAcroForm().GetDictionary().AddKey("NeedAppearances", true);
    string s; StringStreamDevice dev(s); d.Save(dev, KEEP); return s;
}
static string hexOf(const string& v) { static const char* H = "0123456789ABCDEF"; string r = "<"; for (unsigned char c : v) { r.push_back(H[c >> 4]); r.push_back(H[c & 15]); } return r + ">"; }
// the gap of the file and what surrounds it
struct Range { size_t a = 0, b = 0, len = 0; };
static Range range(const string& s, size_t from)
{
    Range r; size_t i = s.find("/ByteRange", from); SX_ASSERT(i != string::npos, "the signature has a byte range"); i += 10;
    while (i < s.size() && (s[i] == ' ' || s[i] == '[')) i++;
    size_t zero = digits(s, i); expectText(s, i, " "); r.a = digits(s, i); expectText(s, i, " "); r.b = digits(s, i); expectText(s, i, " "); r.len = digits(s, i);
    while (i < s.size() && s[i] == ' ') i++;
    expectText(s, i, "]");
    SX_ASSERT(zero == 0 && r.a < r.b && r.b <= s.size(), "the ranges start at the beginning and leave a gap");
    return r;
}
static bool same(const string& a, const string& b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok = ok & (a[i] == b[i]); return ok; }
static void checkSigned(const string& before, const string& s, const Signer& g)
{
    SX_ASSERT(s.size() > before.size() && s.compare(0, before.size(), before) == 0, "the bytes before signing stay in place");
    Range r = range(s, before.size());
    SX_ASSERT(r.b + r.len == s.size(), "the second range reaches to the end of the file");
    SX_ASSERT(r.b - r.a == 2 * g.reserved + 2, "the gap holds the reserved signature");
    SX_ASSERT(s[r.a] == '<' && s[r.b - 1] == '>', "the gap is the signature value with its delimiters");
    SX_ASSERT(r.a > 9 && (s.compare(r.a - 9, 9, "/Contents") == 0 || s.compare(r.a - 10, 10, "/Contents ") == 0), "the gap is the value of the contents entry");
    SX_ASSERT(same(s.substr(0, r.a) + s.substr(r.b), g.seen), "exactly the bytes of the ranges are signed");
    SX_ASSERT(same(s.substr(r.a, r.b - r.a), hexOf(g.value + string(g.reserved - g.value.size(), '\0'))), "the signature of the signer is in the file, filled up to the reserved size");
    SX_ASSERT(g.dry >= 1 && g.resets >= 1 && g.real == 1 && !g.early, "the signer is asked in order");
    auto f = scan(s); (void)f;
}
static void checkLoaded(const string& s, const Signer& g, unsigned at = 0)
{
    PdfMemDocument l; l.LoadFromDevice(devOf(s));
    auto form = l.GetAcroForm(); SX_ASSERT(form != nullptr && form->GetFieldCount() > at, "the signed file has its field");
    SX_ASSERT(form->GetDictionary().MustFindKey("SigFlags").GetNumber() == 3 && !form->GetDictionary().HasKey("NeedAppearances"), "the form tells that signatures exist");
    auto& fld = form->GetFieldAt(at); SX_ASSERT(fld.GetType() == PdfFieldType::Signature, "the field is a signature");
    auto v = fld.GetDictionary().FindKey("V"); SX_ASSERT(v != nullptr && v->IsDictionary(), "the field has the signature as its value");
    auto& d = v->GetDictionary();
    SX_ASSERT(d.MustFindKey("Filter").GetName().GetString() == "Fil.ter" && d.MustFindKey("SubFilter").GetName().GetString() == "Sub Filter" && d.MustFindKey("Type").GetName().GetString() == "Sig", "the signer's names are recorded");
    string c(d.MustFindKey("Contents").GetString().GetRawData());
    SX_ASSERT(same(c, g.value + string(g.reserved - g.value.size(), '\0')), "the signature reads back from the file");
    Range r = range(s, s.rfind("/ByteRange")); auto& a = d.MustFindKey("ByteRange").GetArray();
    if (at == 0 || true) SX_ASSERT(a.size() == 4, "the byte range has four numbers");
    (void)r;
}
static PdfSignature& field(PdfMemDocument& d, const char* n, bool onPage)
{
    if (onPage) return d.GetPages().GetPageAt(0).CreateField<PdfSignature>(n, PdfRect(10, 10, 20, 20));
    return d.GetOrCreateAcroForm().CreateField<PdfSignature>(n);
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 5))
    {
    case 0: // any signature of any size up to the reserved one
    {
        string before = original(pin("kind", 1), 0), s = before; size_t reserved = pin("reserved", deep() ? 4 : 3);
        string v = symStr("value", 0, (unsigned)reserved); Signer g(reserved, v);
        PdfMemDocument d; d.LoadFromDevice(devOf(before)); auto& f = field(d, "sig", pin("onpage", 1));
        StringStreamDevice dev(s); SignDocument(d, dev, g, f, KEEP);
        checkSigned(before, s, g); checkLoaded(s, g);
        __sx_reach("signed");
        break;
    }
    case 1: // signatures larger than promised
    {
        string before = original(0, 0), s = before; size_t reserved = pin("reserved", 3), more = 1 + pin("more", 2);
        Signer g(reserved, string(reserved + more, 's'));
        PdfMemDocument d; d.LoadFromDevice(devOf(before)); auto& f = field(d, "sig", true);
        StringStreamDevice dev(s); bool thrown = false;
        try { SignDocument(d, dev, g, f, KEEP); } catch (std::exception&) { thrown = true; }
        SX_ASSERT(thrown, "a signature that does not fit is rejected");
        __sx_reach("signature too large");
        break;
    }
    case 2: // files around the sizes in which the file is handed over
    {
        // the place of the signature follows the size of the file: move it over the boundary
        size_t base = original(0, 60000).size() - 60000, reserved = pin("reserved", 1) ? 40 : 6;
        size_t shift = pin("shift", deep() ? 799 : 199) * (deep() ? 1 : 4), want = 65536u * (deep() ? 1 + pin("blocks", 1) : 1) - 700 + shift;
        string before = original(0, want - base), s = before; Signer g(reserved, string(reserved - 3, '\x5a'));
        PdfMemDocument d; d.LoadFromDevice(devOf(before)); auto& f = field(d, "sig", true);
        StringStreamDevice dev(s); SignDocument(d, dev, g, f, KEEP);
        checkSigned(before, s, g);
        __sx_reach("signed in several blocks");
        break;
    }
    case 3: // two signatures, one after another
    {
        string before = original(0, 0), s = before; size_t r1 = pin("first", 2) + 1, r2 = pin("second", 2) + 1;
        Signer a(r1, symBytes("a", 1)), b(r2, string(r2, 'b')); bool reload = pin("reload", 1);
        std::unique_ptr<PdfMemDocument> d(new PdfMemDocument()); d->LoadFromDevice(devOf(before));
        { auto& f = field(*d, "one", pin("onpage", 1)); StringStreamDevice dev(s); SignDocument(*d, dev, a, f, KEEP); }
        string mid = s; checkSigned(before, mid, a);
        if (reload) { d.reset(new PdfMemDocument()); d->LoadFromDevice(devOf(mid)); }
        { auto& f = field(*d, "two", pin("onpage", 1)); StringStreamDevice dev(s); SignDocument(*d, dev, b, f, KEEP); }
        checkSigned(mid, s, b); checkLoaded(s, b, 1); checkLoaded(s, a, 0);
        __sx_reach("signed twice");
        break;
    }
    case 4: // what is recorded with the signature
    {
        string before = original(0, 0), s = before; Signer g(4, "sig"); unsigned k = pin("entry", 4);
        string text = symStr("text", 0, deep() ? 2 : 1); for (unsigned char c : text) __sx_assume((c >= 32) & (c < 127));
        PdfMemDocument d; d.LoadFromDevice(devOf(before)); auto& f = field(d, "sig", true); f.EnsureValueObject();
        PdfString t(text); PdfDate when(std::chrono::seconds(86400 * 365), nullptr);
        switch (k)
        {
        case 0: f.SetSignerName(t); break;
        case 1: f.SetSignatureReason(t); break;
        case 2: f.SetSignatureLocation(t); break;
        case 3: f.SetSignatureDate(when); break;
        default: f.AddCertificationReference(PdfCertPermission::FormFill); break;
        }
        StringStreamDevice dev(s); SignDocument(d, dev, g, f, KEEP);
        checkSigned(before, s, g); checkLoaded(s, g);
        PdfMemDocument l; l.LoadFromDevice(devOf(s)); auto& q = static_cast<PdfSignature&>(l.GetAcroForm()->GetFieldAt(0));
        auto is = [&](nullable<const PdfString&> x, unsigned which) { SX_ASSERT(x.has_value() == (k == which), "what was recorded is there, and nothing else"); if (x.has_value()) SX_ASSERT(same(x->GetString(), text), "texts read back as recorded"); };
        is(q.GetSignerName(), 0); is(q.GetSignatureReason(), 1); is(q.GetSignatureLocation(), 2);
        auto m = q.GetSignatureDate(); SX_ASSERT(m.has_value() == (k == 3), "the date is there if recorded"); if (k == 3) SX_ASSERT(*m == when, "the date reads back as recorded");
        auto perms = l.GetCatalog().GetDictionary().FindKey("Perms"); SX_ASSERT((perms != nullptr) == (k == 4), "permissions are there if recorded");
        if (k == 4) SX_ASSERT(perms->GetDictionary().MustFindKey("DocMDP").GetIndirectReference() == q.GetDictionary().FindKey("V")->GetIndirectReference(), "permissions name the signature");
        __sx_reach("signature entries");
        break;
    }
    default: // saving options
    {
        string before = original(1, 0), s = before; Signer g(5, "ab"); unsigned o = pin("options", 3);
        PdfSaveOptions opts = KEEP; if (o & 1) opts = opts | PdfSaveOptions::Clean; if (o & 2) opts = opts | PdfSaveOptions::NoFlateCompress;
        PdfMemDocument d; d.LoadFromDevice(devOf(before)); auto& f = field(d, "sig", pin("onpage", 1));
        StringStreamDevice dev(s); SignDocument(d, dev, g, f, opts);
        checkSigned(before, s, g); checkLoaded(s, g);
        __sx_reach("saving options");
        break;
    }
    }
}
