#include "common.h"
// ---- reference: a list of keys and values
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
struct Model { vector<std::pair<string, int64_t>> kv; };
static const char* const T = "Dests";
static int64_t val(const PdfObject& o) { return o.IsNumber() ? o.GetNumber() : o.GetDictionary().FindKeyAs<int64_t>("V", -1); }
// in order: the keys below a node, with the checks on limits
static void walk(PdfDocument& doc, PdfObject& node, bool root, vector<std::pair<string, const PdfObject*>>& out)
{
    auto& d = node.GetDictionary(); size_t first = out.size();
    SX_ASSERT(d.HasKey("Kids") != d.HasKey("Names"), "a node has either children or names");
    if (d.HasKey("Kids"))
    {
        auto& kids = d.MustFindKey("Kids").GetArray();
        for (auto& k : kids) walk(doc, doc.GetObjects().MustGetObject(k.GetReference()), false, out);
    }
    else
    {
        auto& names = d.MustFindKey("Names").GetArray();
        SX_ASSERT(names.GetSize() % 2 == 0, "names are pairs");
        for (unsigned i = 0; i < names.GetSize(); i += 2) out.push_back({ names[i].GetString().GetString(), &names[i + 1] });
    }
    auto limits = d.FindKey("Limits");
    if (root) SX_ASSERT(limits == nullptr, "the root has no limits");
    else SX_ASSERT(out.size() > first && limits != nullptr && limits->GetArray().GetSize() == 2 && limits->GetArray()[0].GetString().GetString() == out[first].first && limits->GetArray()[1].GetString().GetString() == out.back().first, "limits are the smallest and largest key below the node");
}
static string few(const char* n, unsigned maxlen) { string k = symStr(n, 1, maxlen); for (char& c : k) __sx_assume((c >= 'a') & (c < (deep() ? 'g' : 'e'))); return k; }
static void check(PdfDocument& doc, PdfNameTree& t, Model& m, bool probe = true, bool names = true)
{
    auto root = t.GetDestsNode(false);
    vector<std::pair<string, const PdfObject*>> all;
    if (root != nullptr && (root->GetDictionary().HasKey("Kids") || root->GetDictionary().HasKey("Names"))) walk(doc, *root, true, all);
    SX_ASSERT(all.size() == m.kv.size(), "a traversal gives exactly the keys");
    for (size_t i = 1; i < all.size(); i++) SX_ASSERT(all[i - 1].first < all[i].first, "keys are sorted, each once");
    PdfDictionary dict;
    if (names) { t.ToDictionary(T, dict); SX_ASSERT(dict.GetSize() == m.kv.size(), "the dictionary has the keys"); }
    for (auto& e : m.kv)
    {
        auto v = t.GetValue(T, PdfString(e.first));
        SX_ASSERT(v != nullptr && val(*v) == e.second && t.HasValue(T, PdfString(e.first)), "every key is found with its last value");
        if (!names) continue;
        auto dv = dict.GetKey(PdfName(e.first));
        if (dv != nullptr && dv->IsReference()) dv = &doc.GetObjects().MustGetObject(dv->GetReference());
        if (dv != nullptr) SX_ASSERT(val(*dv) == e.second, "the dictionary has the values"); else SX_ASSERT(false, "the dictionary has the keys");
    }
    if (probe)
    {
        string p = few("p", 2);
        bool in = false; for (auto& e : m.kv) in |= e.first == p;
        SX_ASSERT(t.HasValue(T, PdfString(p)) == in && (t.GetValue(T, PdfString(p)) != nullptr) == in, "absent keys are not found");
    }
}
static string key(unsigned maxlen)
{
    string k = symStr("k", 1, maxlen);
    for (char c : k) __sx_assume(((unsigned char)c >= 0x20) & ((unsigned char)c < 0x7F));
    return k;
}
static int64_t tag;
static void put(PdfDocument& doc, PdfNameTree& t, Model& m, const string& k, bool ref)
{
    int64_t v = ++tag;
    if (ref) { auto& o = doc.GetObjects().CreateDictionaryObject(); o.GetDictionary().AddKey("V", v); t.AddValue(T, PdfString(k), o.GetIndirectReference()); }
    else t.AddValue(T, PdfString(k), PdfObject(v));
    for (auto& e : m.kv) if (e.first == k) { e.second = v; return; }
    m.kv.push_back({ k, v });
}
// a tree on its own, small enough for all keys
static void small()
{
    PdfMemDocument doc; auto& t = doc.GetOrCreateNameTree(); Model m; tag = 0;
    unsigned how = pin("how", 3);
    if (how == 1) t.GetDestsNode(true);      // an empty tree
    else if (how >= 2)      // a tree whose root has the names
    {
        PdfArray a; unsigned n = how == 2 ? 1 : 2; for (unsigned i = 0; i < n; i++) { string k = i ? "c" : "bc"; a.Add(PdfString(k)); a.Add((int64_t)++tag); m.kv.push_back({ k, tag }); }
        t.GetDestsNode(true)->GetDictionary().AddKey("Names", a);
    }
    unsigned n = pin("n", how < 2 ? (deep() ? 3 : 2) : deep() ? 2 : 1);
    for (unsigned i = 0; i < n; i++) put(doc, t, m, few("k", i < 2 ? 2 : 1), pin("ref", i == 0));
    check(doc, t, m, n < 2 + deep());
    __sx_reach("small");
}
// texts that are not ASCII
static void text()
{
    PdfMemDocument doc; auto& t = doc.GetOrCreateNameTree(); Model m; tag = 0;
    unsigned n = 2;
    for (unsigned i = 0; i < n; i++)
    {
        string k; uint32_t c = (uint32_t)rng("c", (i ? 0x3B1 : 0xE9), (i ? 0x3B1 : 0xE9) + (deep() ? 15 : 3)); putUtf8(k, c); if (pin("more", 1)) k += "x";
        put(doc, t, m, k, false);
    }
    check(doc, t, m, false, false);
    __sx_reach("text");
}
// ---- trees about to split
static string nth(unsigned i) { return { (char)('!' + 2 + i / 40), (char)('!' + 1 + 2 * (i % 40)) }; }   // gaps between all of them
static PdfObject& leaf(PdfDocument& doc, Model& m, unsigned& next, unsigned n)
{
    auto& o = doc.GetObjects().CreateDictionaryObject(); PdfArray a, l;
    for (unsigned i = 0; i < n; i++)
    {
        string k = nth(next++); a.Add(PdfString(k)); a.Add((int64_t)++tag); m.kv.push_back({ k, tag });
        if (i == 0) l.Add(PdfString(k)); if (i + 1 == n) l.Add(PdfString(k));
    }
    o.GetDictionary().AddKey("Names", a); o.GetDictionary().AddKey("Limits", l);
    return o;
}
static PdfArray limitsOf(PdfDocument& doc, const PdfArray& kids)
{
    PdfArray l; l.Add(doc.GetObjects().MustGetObject(kids[0].GetReference()).GetDictionary().MustFindKey("Limits").GetArray()[0]);
    l.Add(doc.GetObjects().MustGetObject(kids[kids.GetSize() - 1].GetReference()).GetDictionary().MustFindKey("Limits").GetArray()[1]); return l;
}
static void splits(unsigned kind)
{
    PdfMemDocument doc; auto& t = doc.GetOrCreateNameTree(); Model m; tag = 0; unsigned next = 0;
    auto& root = *t.GetDestsNode(true);
    if (kind == 0)          // names in the root
    {
        unsigned full = 64 + pin("full", 1); PdfArray a;
        for (unsigned i = 0; i < full; i++) { string k = nth(next++); a.Add(PdfString(k)); a.Add((int64_t)++tag); m.kv.push_back({ k, tag }); }
        root.GetDictionary().AddKey("Names", a);
    }
    else if (kind == 1)     // one to three leaves, one of them full
    {
        unsigned n = 1 + pin("leaves", 2), at = pin("at", n - 1); PdfArray kids;
        for (unsigned i = 0; i < n; i++) kids.Add(leaf(doc, m, next, i == at ? 65 : 2).GetIndirectReference());
        root.GetDictionary().AddKey("Kids", kids);
    }
    else if (kind == 2)     // as many leaves as a node can have
    {
        static const unsigned A[] = { 0, 64, 32, 33 }; unsigned at = A[pin("at", deep() ? 3 : 2)]; PdfArray kids;
        for (unsigned i = 0; i < 65; i++) kids.Add(leaf(doc, m, next, i == at ? 65 : 1).GetIndirectReference());
        root.GetDictionary().AddKey("Kids", kids);
    }
    else                    // the same one level below
    {
        static const unsigned A[] = { 0, 32, 64 }; unsigned at = A[deep() ? pin("at", 2) : 2], mid = pin("mid", 1); PdfArray mids;
        for (unsigned j = 0; j < 2; j++)
        {
            PdfArray kids; auto& o = doc.GetObjects().CreateDictionaryObject();
            for (unsigned i = 0; i < (j == mid ? 65 : 2); i++) kids.Add(leaf(doc, m, next, j == mid && i == at ? 65 : 1).GetIndirectReference());
            o.GetDictionary().AddKey("Kids", kids); o.GetDictionary().AddKey("Limits", limitsOf(doc, kids)); mids.Add(o.GetIndirectReference());
        }
        root.GetDictionary().AddKey("Kids", mids);
    }
    if (kind < 2 || deep()) { string k = key(1); if (pin("two", 1)) k = nth(40 * pin("g", (next - 1) / 40)).substr(0, 1) + k; put(doc, t, m, k, false); }
    else { unsigned i = pin("i", next), before = pin("before", 1); string k = i == next ? string("!") : nth(i); if (before && i < next) k[1]--; put(doc, t, m, k, false); }
    __sx_reach("splits");
    if (kind != 3 && deep()) put(doc, t, m, key(1), false);
    check(doc, t, m, false);
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 5))
    {
        case 0: small(); break;
        case 1: text(); break;
        case 2: splits(0); break;
        case 3: splits(1); break;
        case 4: splits(2); break;
        default: splits(3); break;
    }
}
