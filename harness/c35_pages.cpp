// C35: page attributes, resources and contents
#include "common.h"
#include "zmodel.h"
#include <map>
#include <pdfmm/base/PdfXObjectForm.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static string bstr(const charbuff& b) { return string(b.data(), b.size()); }
static int64_t num(const char* n) { return (int64_t)rng(n, 0, 31) - 15; }
struct Box { double x1, y1, x2, y2; };
static bool same(const PdfRect& r, const Box& b)
{
    double l = b.x1 < b.x2 ? b.x1 : b.x2, h = b.x1 < b.x2 ? b.x2 : b.x1, t = b.y1 < b.y2 ? b.y1 : b.y2, u = b.y1 < b.y2 ? b.y2 : b.y1;
    return (r.GetLeft() == l) & (r.GetBottom() == t) & (r.GetWidth() == h - l) & (r.GetHeight() == u - t);
}
static PdfRect rectOf(const Box& b) { return PdfRect(b.x1, b.y1, b.x2 - b.x1, b.y2 - b.y1); }
// a chain of nodes from the root of the pages to one page, which has a sibling
struct Tree { PdfMemDocument src; PdfObject* node[4]; PdfObject* sibling; unsigned n; };
static void plant(Tree& t, unsigned mids)
{
    t.node[0] = &t.src.GetCatalog().GetDictionary().MustFindKey("Pages"); t.n = 1;
    for (unsigned i = 0; i <= mids; i++)
    {
        bool leaf = i == mids;
        auto& o = t.src.GetObjects().CreateDictionaryObject(leaf ? "Page" : "Pages");
        PdfArray kids;
        if (leaf)
        {
            t.sibling = &t.src.GetObjects().CreateDictionaryObject("Page");
            t.sibling->GetDictionary().AddKey("Parent", t.node[t.n - 1]->GetIndirectReference());
            kids.Add(t.sibling->GetIndirectReference());
        }
        kids.Add(o.GetIndirectReference());
        t.node[t.n - 1]->GetDictionary().AddKey("Kids", kids); t.node[t.n - 1]->GetDictionary().AddKey("Count", (int64_t)2);
        o.GetDictionary().AddKey("Parent", t.node[t.n - 1]->GetIndirectReference());
        t.node[t.n++] = &o;
    }
}
static void put(Tree& t, PdfObject& node, const char* key, const PdfObject& value, bool shared)
{
    if (shared) node.GetDictionary().AddKeyIndirect(key, t.src.GetObjects().CreateObject(value.GetVariant())); else node.GetDictionary().AddKey(key, value);
}
static PdfArray arrayOf(const Box& b, bool real)
{
    PdfArray a; for (double d : { b.x1, b.y1, b.x2, b.y2 }) a.Add(real ? PdfObject(d / 4) : PdfObject((int64_t)d));
    return a;
}
static const char* Names[] = { "MediaBox", "CropBox", "TrimBox", "BleedBox", "ArtBox" };
static PdfRect get(const PdfPage& p, unsigned which)
{
    switch (which) { case 0: return p.GetMediaBox(); case 1: return p.GetCropBox(); case 2: return p.GetTrimBox(); case 3: return p.GetBleedBox(); default: return p.GetArtBox(); }
}
// boxes at any levels, with the defaults of those that are not there
static void boxes()
{
    Tree t; plant(t, pin("mids", 2)); unsigned which = pin("which", 4);
    Box best[3]; bool have[3] = { false, false, false };
    unsigned kinds = which == 0 ? 1 : which == 1 ? 2 : 3; bool real = pin("real", 1);
    for (unsigned k = 0; k < kinds; k++)
    {
        unsigned kind = k == 2 ? which : k;     // MediaBox, CropBox, other
        for (unsigned i = 0; i < t.n; i++)
        {
            // the levels of a kind: all subsets when there is one, nearest and farthest otherwise
            if (kinds == 3 && !deep() && i + 2 < t.n && i > 0) continue;
            if (!pin("has", 1)) continue;
            Box b { (double)num("x1"), (double)num("y1"), (double)num("x2"), (double)num("y2") };
            put(t, *t.node[i], Names[kind], PdfObject(arrayOf(b, real)), (i + k) & 1);
            if (real) { b.x1 /= 4; b.y1 /= 4; b.x2 /= 4; b.y2 /= 4; }
            best[k] = b; have[k] = true;
        }
    }
    PdfMemDocument doc(t.src); auto& page = doc.GetPages().GetPageAt(doc.GetPages().GetCount() - 1);
    SX_ASSERT(page.GetObject().GetIndirectReference() == t.node[t.n - 1]->GetIndirectReference(), "the last page is the page");
    Box zero { 0, 0, 0, 0 };
    for (unsigned w = 0; w < 5; w++)
    {
        // a box that is nowhere on the path is the crop box, which is the media box by default
        unsigned k = w == 0 ? 0 : w == 1 ? 1 : 2; bool other = k == 2 && (kinds < 3 || w != which);
        if (other) k = 1;
        if (k >= kinds) k = kinds - 1;
        while (k > 0 && !have[k]) k--;
        SX_ASSERT(same(get(page, w), have[k] ? best[k] : zero), "a box is the nearest one on the path to the root, or its default");
    }
    SX_ASSERT(same(page.GetRect(), have[0] ? best[0] : zero), "the page has the size of its media box");
    __sx_reach("boxes");
}
static void rotation()
{
    Tree t; plant(t, pin("mids", 2)); int64_t want = 0; bool turned = false;
    unsigned mode = pin("mode", 2);
    for (unsigned i = 0; i < t.n; i++)
    {
        if (!pin("has", 1)) continue;
        PdfObject v;
        if (mode == 0) { int32_t r = symVal<int32_t>("r"); want = r; v = PdfObject((int64_t)r); }
        else if (mode == 1) { want = ((int64_t)pin("q", i + 1 == t.n ? 16 : deep() ? 4 : 1) - 8) * 90; v = pin("real", 1) ? PdfObject((double)want) : PdfObject(want); turned = true; }
        else { want = 0; v = pin("kind", 1) ? PdfObject(PdfName("Ninety")) : PdfObject(PdfArray()); }
        put(t, *t.node[i], "Rotate", v, i & 1);
    }
    PdfMemDocument doc(t.src); auto& page = doc.GetPages().GetPageAt(doc.GetPages().GetCount() - 1);
    SX_ASSERT(page.GetRotationRaw() == want, "the rotation is the nearest one on the path to the root, 0 by default");
    if (turned)
    {
        double teta = 1; bool rot = page.HasRotation(teta); int64_t q = want % 360;
        SX_ASSERT(rot == (q != 0), "a page is rotated when its rotation isn't a full turn");
        int64_t got = (int64_t)(teta * 180 / 3.14159265358979323846 + (teta < 0 ? -0.5 : 0.5));
        SX_ASSERT((got + q) % 360 == 0, "the angle is the rotation, counterclockwise");
    }
    __sx_reach("rotation");
}
static void resources()
{
    Tree t; plant(t, pin("mids", 2)); int want = -1;
    for (unsigned i = 0; i < t.n; i++)
    {
        if (!pin("has", 1)) continue;
        PdfDictionary res, fonts; fonts.AddKey("F", (int64_t)i); fonts.AddKey(PdfName("F" + std::to_string(i)), true); res.AddKey("Font", fonts);
        put(t, *t.node[i], "Resources", PdfObject(res), pin("shared", 1)); want = (int)i;
    }
    PdfMemDocument doc(t.src); auto& page = doc.GetPages().GetPageAt(doc.GetPages().GetCount() - 1);
    auto& cpage = (const PdfPage&)page;
    SX_ASSERT((page.GetResources() != nullptr) == (want >= 0) && (cpage.GetResources() != nullptr) == (want >= 0), "a page has resources when a node on the path to the root has");
    if (want >= 0)
    {
        auto f = page.GetResources()->GetResource("Font", "F");
        SX_ASSERT(f != nullptr && f->GetNumber() == want, "the resources are the nearest ones");
        for (int i = 0; i < (int)t.n; i++) SX_ASSERT((cpage.GetResources()->GetResource("Font", "F" + std::to_string(i)) != nullptr) == (i == want), "the resources are the nearest ones only");
    }
    else
    {
        page.GetOrCreateResources().AddResource("Font", "F", PdfObject((int64_t)7));
        auto f = page.GetResources()->GetResource("Font", "F");
        SX_ASSERT(f != nullptr && f->GetNumber() == 7 && page.GetDictionary().HasKey("Resources"), "resources are created in the page");
        SX_ASSERT(doc.GetPages().GetPageAt(0).GetResources() == nullptr || &page == &doc.GetPages().GetPageAt(0), "and in no other page");
    }
    __sx_reach("resources");
}
// setting attributes of a page that inherits them
static void setters()
{
    Tree t; plant(t, deep() ? pin("mids", 1) : 0); unsigned at = pin("at", t.n); Box in { 0, 0, 0, 0 }, crop = in;
    bool hasCrop = false, shared = deep() ? pin("shared", 1) : at & 1;
    if (at < t.n)
    {
        in = Box { (double)num("x1"), (double)num("y1"), (double)num("x2"), (double)num("y2") };
        put(t, *t.node[at], "MediaBox", PdfObject(arrayOf(in, false)), shared);
        if (pin("crop", 1)) { hasCrop = true; crop = in; crop.x1 += 8; crop.y2 -= 3; put(t, *t.node[at], "CropBox", PdfObject(arrayOf(crop, false)), shared); }
        put(t, *t.node[at], "Rotate", PdfObject((int64_t)180), false);
    }
    Box media = in; if (!hasCrop) crop = in;
    Box sib = at + 1 < t.n ? in : Box { 0, 0, 0, 0 }, sibCrop = at + 1 < t.n ? crop : Box { 0, 0, 0, 0 };
    Box trim = crop; bool hasTrim = false; int64_t rot = at < t.n ? 180 : 0, sibRot = at + 1 < t.n ? 180 : 0;
    PdfMemDocument doc(t.src); auto& pages = doc.GetPages();
    auto& page = pages.GetPageAt(1); auto& other = pages.GetPageAt(0);
    unsigned n = deep() ? 3 : 2;
    for (unsigned i = 0; i < n; i++) switch (pin("op", 4))
    {
        case 0: { media = Box { (double)num("a"), (double)num("b"), (double)num("c"), (double)num("d") }; if (media.x2 < media.x1) std::swap(media.x1, media.x2); if (media.y2 < media.y1) std::swap(media.y1, media.y2); page.SetMediaBox(rectOf(media)); at = 0; break; }
        case 1: { trim = Box { (double)num("a"), (double)num("b"), (double)num("c"), (double)num("d") }; if (trim.x2 < trim.x1) std::swap(trim.x1, trim.x2); if (trim.y2 < trim.y1) std::swap(trim.y1, trim.y2); page.SetTrimBox(rectOf(trim)); hasTrim = true; break; }
        case 2:
        {
            int32_t r = symVal<int32_t>("rot"); bool ok = (r == 0) | (r == 90) | (r == 180) | (r == 270);
            try { page.SetRotationRaw(r); SX_ASSERT(ok, "only quarter turns can be set"); rot = r; }
            catch (PdfError& e) { SX_ASSERT(!ok && e.GetError() == PdfErrorCode::ValueOutOfRange, "all quarter turns can be set"); }
            break;
        }
        case 3:
        {
            bool width = pin("width", 1); int w = (int)rng("w", 0, 31);
            bool has = at < t.n;
            bool ret = width ? page.SetPageWidth(w) : page.SetPageHeight(w);
            SX_ASSERT(ret == (has && hasCrop), "both boxes are set when both are there");
            if (has) for (Box* b : { &media, &crop })
            {
                if (b == &crop && !hasCrop) continue;
                if (b->x2 < b->x1) std::swap(b->x1, b->x2);
                if (b->y2 < b->y1) std::swap(b->y1, b->y2);
                if (width) b->x2 = b->x1 + w; else b->y2 = b->y1 + w;
            }
            break;
        }
        default: break;
    }
    if (!hasCrop) crop = media;
    if (!hasTrim) trim = crop;
    SX_ASSERT(same(page.GetMediaBox(), media) && same(page.GetRect(), media), "the media box is the one that was set");
    SX_ASSERT(same(page.GetCropBox(), crop), "the crop box is the one that was set or the media box");
    SX_ASSERT(same(page.GetTrimBox(), trim), "the trim box is the one that was set or the crop box");
    SX_ASSERT(page.GetRotationRaw() == rot, "the rotation is the one that was set");
    SX_ASSERT(same(other.GetMediaBox(), sib) && same(other.GetCropBox(), sibCrop) && other.GetRotationRaw() == sibRot, "other pages keep theirs");
    __sx_reach("setters");
}
// resource dictionaries
static void resourceHistory()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    auto& res = page.GetOrCreateResources(); auto& cres = (const PdfResources&)res;
    static const char* Types[] = { "Font", "ColorSpace" }; static const char* Keys[] = { "A", "B", "ColorSpaceCieLab", "ColorSpaceSpot" };
    std::map<std::pair<unsigned, unsigned>, int> m; // -1: any value
    unsigned n = pin("n", deep() ? 4 : 3);
    for (unsigned i = 0; i < n; i++) switch (pin("op", 5))
    {
        case 0: { unsigned ty = pin("type", 1), k = pin("key", 1); res.AddResource(Types[ty], Keys[k], PdfObject((int64_t)i)); m[{ ty, k }] = (int)i; break; }
        case 1: { unsigned ty = pin("type", 1), k = pin("key", 1); auto& o = doc.GetObjects().CreateObject(PdfVariant((int64_t)i)); res.AddResource(Types[ty], Keys[k], &o); m[{ ty, k }] = (int)i; break; }
        case 2: { unsigned ty = pin("type", 1), k = pin("key", 1); if (pin("null", 1)) res.AddResource(Types[ty], Keys[k], (const PdfObject*)nullptr); else res.RemoveResource(Types[ty], Keys[k]); m.erase({ ty, k }); break; }
        case 3: { unsigned ty = pin("type", 1); res.RemoveResources(Types[ty]); for (auto it = m.begin(); it != m.end();) if (it->first.first == ty) it = m.erase(it); else it++; break; }
        case 4: { unsigned before = doc.GetObjects().GetSize(); bool had = m.count({ 1, 2 }); res.AddColorResource(PdfColor::CreateCieLab(50, 0, 0)); m[{ 1, 2 }] = -1; if (had) SX_ASSERT(doc.GetObjects().GetSize() == before, "a color space is added once"); break; }
        case 5: { unsigned before = doc.GetObjects().GetSize(); bool had = m.count({ 1, 3 }); res.AddColorResource(PdfColor::CreateSeparation("Spot", 1, PdfColor(0.5, 0.5, 0.5, 0.5))); m[{ 1, 3 }] = -1; if (had) SX_ASSERT(doc.GetObjects().GetSize() == before, "a color space is added once"); break; }
        default: break;
    }
    for (unsigned ty = 0; ty < 2; ty++)
    {
        unsigned count = 0;
        for (unsigned k = 0; k < 4; k++)
        {
            auto o = res.GetResource(Types[ty], Keys[k]); auto it = m.find({ ty, k });
            SX_ASSERT((o != nullptr) == (it != m.end()) && o == cres.GetResource(Types[ty], Keys[k]) && o == page.GetFromResources(Types[ty], Keys[k]), "the resources are those that were added");
            if (o != nullptr) { count++; if (it->second >= 0) SX_ASSERT(o->GetNumber() == it->second, "each name stands for the resource added last"); else SX_ASSERT(o->IsArray(), "a color space is an array"); }
        }
        unsigned seen = 0; for (auto& pair : cres.GetResourceIterator(Types[ty])) { SX_ASSERT(pair.second != nullptr, "resources exist"); seen++; }
        SX_ASSERT(seen == count, "the iterator shows exactly these resources");
    }
    __sx_reach("resource history");
}
static void profile()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    bool other = pin("other", 1); if (other) page.GetOrCreateResources().AddResource("ColorSpace", "A", PdfObject((int64_t)5));
    string data = symStr("data", 1, 4); int64_t n = symVal<int8_t>("n"); bool ok = (n == 1) | (n == 3) | (n == 4);
    SpanStreamDevice in(data);
    try { page.SetICCProfile("P", in, n, PdfColorSpace::DeviceRGB); SX_ASSERT(ok, "profiles have 1, 3 or 4 components"); }
    catch (PdfError& e) { SX_ASSERT(!ok && e.GetError() == PdfErrorCode::ValueOutOfRange, "profiles have 1, 3 or 4 components"); return; }
    auto p = page.GetResources()->GetResource("ColorSpace", "P");
    SX_ASSERT(p != nullptr && p->IsArray() && p->GetArray().size() == 2 && p->GetArray()[0].GetName() == "ICCBased", "the profile is a color space of the page");
    auto& icc = p->GetArray().MustFindAt(1);
    SX_ASSERT(icc.GetDictionary().MustFindKey("N").GetNumber() == n && bstr(icc.MustGetStream().GetCopy()) == data, "with its data and number of components");
    if (other) { auto a = page.GetResources()->GetResource("ColorSpace", "A"); SX_ASSERT(a != nullptr && a->GetNumber() == 5, "other color spaces stay"); }
    __sx_reach("profile");
}
// contents: streams in order, separated
static string word(const char* n) { string s = symStr(n, 1, 2); for (char c : s) __sx_assume(isRegular((unsigned char)c)); return s; }
static bool wordsAre(const string& got, const vector<string>& want)
{
    unsigned at = 0;
    for (auto& w : want)
    {
        while (at < got.size() && isWs((unsigned char)got[at])) at++;
        if (at + w.size() > got.size()) return false;
        for (char c : w) if (got[at++] != c) return false;
        if (at < got.size() && !isWs((unsigned char)got[at])) return false;
    }
    while (at < got.size()) if (!isWs((unsigned char)got[at++])) return false;
    return true;
}
static void streamOf(PdfObject& o, const string& s) { o.GetOrCreateStream().SetData(bufferview(s.data(), s.size()), true); }
static PdfMemDocument* withContents(vector<string>& words, bool& had, unsigned top, bool empties = true)
{
    auto src = new PdfMemDocument();
    auto& page = src->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    unsigned kind = pin("kind", 3); had = kind != 0;
    if (kind == 1) { auto& o = src->GetObjects().CreateDictionaryObject(); words.push_back(word("w")); streamOf(o, words.back()); page.GetDictionary().AddKeyIndirect("Contents", o); }
    else if (kind >= 2)
    {
        PdfArray a; unsigned n = pin("streams", top);
        for (unsigned i = 0; i < n; i++)
        {
            auto& o = src->GetObjects().CreateDictionaryObject();
            a.Add(o.GetIndirectReference());
            if (empties && pin("empty", 1)) continue;  // a dictionary without a stream
            words.push_back(word("w")); streamOf(o, words.back());
        }
        if (kind == 2) page.GetDictionary().AddKey("Contents", a); else page.GetDictionary().AddKeyIndirect("Contents", src->GetObjects().CreateObject(a));
    }
    return src;
}
static void contents()
{
    vector<string> words; bool had; std::unique_ptr<PdfMemDocument> src(withContents(words, had, deep() ? 3 : 2));
    PdfMemDocument doc(*src); auto& page = doc.GetPages().GetPageAt(0);
    SX_ASSERT((page.GetContents() != nullptr) == had, "a page has contents when it has the entry");
    if (had) SX_ASSERT(wordsAre(bstr(page.GetContents()->GetCopy()), words), "the contents are those of the streams in order");
    unsigned appends = pin("appends", 2);
    for (unsigned i = 0; i < appends; i++)
    {
        unsigned flags = pin("flags", 3);
        auto& s = page.GetOrCreateContents().GetStreamForAppending((PdfStreamAppendFlags)flags);
        if (!words.empty() && !(flags & 2)) { words.insert(words.begin(), "q"); words.push_back("Q"); }
        string w = i == 0 ? word("new") : "n";
        s.SetData(bufferview(w.data(), w.size()), true);
        words.insert(flags & 1 ? words.begin() : words.end(), w);
        SX_ASSERT(wordsAre(bstr(page.GetContents()->GetCopy()), words), "text is added before or after the contents there are, which are guarded by a saved state");
    }
    PdfMemDocument again(doc);
    auto c = again.GetPages().GetPageAt(0).GetContents();
    if (c != nullptr) SX_ASSERT(wordsAre(bstr(c->GetCopy()), words), "the page finds these contents again");
    else SX_ASSERT(words.empty(), "the page finds its contents again");
    __sx_reach("contents");
}
// a form made from a page shows the same
static void form()
{
    vector<string> words; bool had; std::unique_ptr<PdfMemDocument> src(withContents(words, had, 2, false));
    auto& root = src->GetCatalog().GetDictionary().MustFindKey("Pages");
    auto& first = src->GetPages().GetPageAt(0);
    unsigned res = pin("resources", 3);   // none, own, inherited, own indirect
    PdfDictionary dict; dict.AddKey("Mark", (int64_t)res);
    if (res == 1) first.GetDictionary().AddKey("Resources", dict);
    else if (res == 2) root.GetDictionary().AddKey("Resources", dict);
    else if (res == 3) first.GetDictionary().AddKeyIndirect("Resources", src->GetObjects().CreateObject(dict));
    static const int Rot[] = { 0, 90, 180, 270, -90 };
    int rot = Rot[pin("rot", deep() ? 4 : 2)]; first.GetDictionary().AddKey("Rotate", (int64_t)rot);
    Box box { 8, 16, 64, 48 }; PdfArray media = arrayOf(box, false); first.GetDictionary().AddKey("MediaBox", media);
    unsigned crop = pin("crop", 1), trim = pin("trim", 1), useTrim = pin("usetrim", 1);
    if (crop) { Box c { 12, 0, 100, 40 }; first.GetDictionary().AddKey("CropBox", arrayOf(c, false)); box = Box { 12, 16, 64, 40 }; }
    if (trim) { Box c { 20, 20, 60, 60 }; first.GetDictionary().AddKey("TrimBox", arrayOf(c, false)); if (useTrim) { box.x1 = 20; box.y1 = 20; box.x2 = 60; } }
    PdfMemDocument doc(*src); auto& page = doc.GetPages().GetPageAt(0);
    auto form = doc.CreateXObjectForm(PdfRect(0, 0, 1, 1)); form->FillFromPage(page, useTrim);
    auto& d = form->GetDictionary();
    SX_ASSERT(same(PdfRect(d.MustFindKey("BBox").GetArray()), box), "the form has the box of the page");
    double m[6]; for (unsigned i = 0; i < 6; i++) m[i] = d.MustFindKey("Matrix").GetArray()[i].GetReal();
    double x[2] = { box.x1, box.x2 }, y[2] = { box.y1, box.y2 }, lo[2] = { 1e9, 1e9 }, hi[2] = { -1e9, -1e9 };
    for (double px : x) for (double py : y)
    {
        double q[2] = { m[0] * px + m[2] * py + m[4], m[1] * px + m[3] * py + m[5] };
        for (unsigned i = 0; i < 2; i++) { if (q[i] < lo[i]) lo[i] = q[i]; if (q[i] > hi[i]) hi[i] = q[i]; }
    }
    double w = box.x2 - box.x1, h = box.y2 - box.y1; if (rot % 180) std::swap(w, h);
    auto near = [](double a, double b) { return a - b < 1e-6 && b - a < 1e-6; };
    SX_ASSERT(near(lo[0], 0) && near(lo[1], 0) && near(hi[0], w) && near(hi[1], h), "the matrix moves the rotated box to the origin");
    auto corner = [&](double px, double py, double ex, double ey) { return near(m[0] * px + m[2] * py + m[4], ex) && near(m[1] * px + m[3] * py + m[5], ey); };
    int turn = ((rot % 360) + 360) % 360;   // where the lower left corner goes, clockwise
    SX_ASSERT(corner(box.x1, box.y1, turn == 180 || turn == 270 ? w : 0, turn == 90 || turn == 180 ? h : 0), "the matrix turns the page clockwise");
    SX_ASSERT(d.HasKey("Resources") == (res != 0), "the form has the resources of the page");
    if (res) SX_ASSERT(d.MustFindKey("Resources").GetDictionary().MustFindKey("Mark").GetNumber() == (int64_t)res, "the form has the resources of the page");
    string got = form->GetObject().HasStream() ? bstr(form->GetObject().MustGetStream().GetCopy()) : "";
    SX_ASSERT(wordsAre(got, words), "the form has the contents of the page");
    __sx_reach("form");
}
static void loops()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 16, 16));
    unsigned len = pin("len", 2); PdfObject* prev = &page.GetObject(); vector<PdfObject*> chain = { prev };
    for (unsigned i = 0; i < len; i++) { auto& o = doc.GetObjects().CreateDictionaryObject(); prev->GetDictionary().AddKey("Parent", o.GetIndirectReference()); prev = &o; chain.push_back(prev); }
    prev->GetDictionary().AddKey("Parent", chain[pin("back", len)]->GetIndirectReference());
    SX_ASSERT(page.GetRotationRaw() == 0 && page.GetCropBox().GetWidth() == 16 && page.GetDictionary().FindKeyParent("Nowhere") == nullptr, "a loop of parents has no further entries");
    unsigned at = pin("at", len); chain[at]->GetDictionary().AddKey("Rotate", (int64_t)270);
    SX_ASSERT(page.GetRotationRaw() == 270, "entries in a loop are found");
    __sx_reach("loops");
}
static void sizes()
{
    unsigned k = pin("size", (unsigned)PdfPageSize::Tabloid);
    auto p = PdfPage::CreateStandardPageSize((PdfPageSize)k), l = PdfPage::CreateStandardPageSize((PdfPageSize)k, true);
    SX_ASSERT(p.GetWidth() == l.GetHeight() && p.GetHeight() == l.GetWidth() && p.GetLeft() == 0 && p.GetBottom() == 0 && l.GetLeft() == 0 && l.GetBottom() == 0, "landscape exchanges width and height");
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(p);
    SX_ASSERT(page.GetMediaBox().GetWidth() == p.GetWidth() && page.GetMediaBox().GetHeight() == p.GetHeight(), "a page has the size it was created with");
    __sx_reach("sizes");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 9))
    {
        case 0: boxes(); break;
        case 1: rotation(); break;
        case 2: resources(); break;
        case 3: setters(); break;
        case 4: resourceHistory(); break;
        case 5: profile(); break;
        case 6: contents(); break;
        case 7: form(); break;
        case 8: loops(); break;
        default: sizes(); break;
    }
}
