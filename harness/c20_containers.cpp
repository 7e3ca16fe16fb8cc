#include "common.h"
#include <map>
#include <optional>
// ---- reference values: a number, a reference to one of the objects of the document, an array or a dictionary of such
struct V { int kind = 0; int64_t n = 0; vector<V> kids; };      // 0 number, 1 reference, 2 array, 3 dictionary (keys A, B, ...)
static PdfMemDocument* g_doc; static vector<PdfReference> g_refs;
static V num(int64_t n) { V v; v.n = n; return v; }
static PdfObject make(const V& v)
{
    if (v.kind == 0) return PdfObject(v.n);
    if (v.kind == 1) return PdfObject(g_refs[v.n]);
    if (v.kind == 2) { PdfArray a; for (auto& k : v.kids) a.Add(make(k)); return PdfObject(a); }
    PdfDictionary d; char c[2] = "A"; for (auto& k : v.kids) { d.AddKey(c, make(k)); c[0]++; } return PdfObject(d);
}
static bool same(const PdfObject& o, const V& v);
static bool resolves(const PdfObject* o, const V& v)
{
    if (v.kind == 1) return o != nullptr && o->GetIndirectReference() == g_refs[v.n] && o->GetDocument() == g_doc;
    return o != nullptr && same(*o, v);
}
// equal, with every element owned by the document, and references found through it
static bool same(const PdfObject& o, const V& v)
{
    if (o.GetDocument() != g_doc) return false;
    switch (v.kind)
    {
        case 0: return o.IsNumber() && o.GetNumber() == v.n;
        case 1: return o.IsReference() && o.GetReference() == g_refs[v.n];
        case 2:
        {
            if (!o.IsArray()) return false;
            auto& a = o.GetArray(); if (a.GetSize() != v.kids.size() || a.size() != v.kids.size() || a.IsEmpty() != v.kids.empty() || a.GetOwner() != &o) return false;
            auto it = a.begin(); auto ind = a.GetIndirectIterator().begin();
            for (unsigned i = 0; i < v.kids.size(); i++, ++it, ++ind)
            {
                if (a[i].GetParent() != &a || &*it != &a[i] || !same(a[i], v.kids[i])) return false;
                if (!resolves(a.FindAt(i), v.kids[i]) || !resolves(&a.MustFindAt(i), v.kids[i]) || *ind != a.FindAt(i)) return false;
            }
            if (it != a.end() || ind != a.GetIndirectIterator().end()) return false;
            if (!v.kids.empty() && (&a.front() != &a[0] || &a.back() != &a[a.GetSize() - 1] || &*a.rbegin() != &a.back())) return false;
            try { (void)a[a.size()]; return false; } catch (PdfError& e) { if (e.GetError() != PdfErrorCode::ValueOutOfRange) return false; }
            try { (void)a.FindAt(a.GetSize()); return false; } catch (PdfError& e) { if (e.GetError() != PdfErrorCode::ValueOutOfRange) return false; }
            return true;
        }
        default:
        {
            if (!o.IsDictionary()) return false;
            auto& d = o.GetDictionary(); if (d.GetSize() != v.kids.size() || d.GetOwner() != &o) return false;
            auto it = d.begin(); char c[2] = "A";
            for (unsigned i = 0; i < v.kids.size(); i++, ++it, c[0]++)
            {
                auto f = d.GetKey(c);
                if (it->first != c || f != &it->second || f->GetParent() != &d || !same(*f, v.kids[i]) || !d.HasKey(c)) return false;
                if (!resolves(d.FindKey(c), v.kids[i])) return false;
            }
            return !d.HasKey(c) && d.GetKey(c) == nullptr && d.FindKey(c) == nullptr;
        }
    }
}
static bool g_few;      // fewer kinds of values, for longer histories
static V pickV(int k, bool nested = true)
{
    V v; v.n = k;
    switch (g_few ? nested * 3 * __sx_pin(rng("value", 0, 1)) : __sx_pin(rng("value", 0, nested ? 3 : 1)))
    {
        case 0: v.kind = 0; break;
        case 1: v.kind = 1; v.n = 0; break;
        case 2: v.kind = 2; v.kids = { num(k + 100), num(k + 200) }; { V r; r.kind = 1; r.n = 1; v.kids.push_back(r); } break;
        default: v.kind = 3; v.kids = { num(k + 300) }; { V a; a.kind = 2; V r; r.kind = 1; r.n = 1; a.kids.push_back(r); v.kids.push_back(a); } break;
    }
    return v;
}
static void clean(PdfObject& o) { string s; StringStreamDevice dev(s); charbuff b; o.Write(dev, PdfWriteFlags::None, nullptr, b); SX_ASSERT(!o.IsDirty(), "a written object is not modified"); }
static PdfObject& setup(PdfMemDocument& doc, const PdfObject& init)
{
    g_doc = &doc; g_refs.clear();
    for (int i = 0; i < 2; i++) g_refs.push_back(doc.GetObjects().CreateObject(PdfObject((int64_t)(50 + i))).GetIndirectReference());
    return doc.GetObjects().CreateObject(init);
}
static PdfObject& setup(PdfMemDocument& doc, const V& v) { auto& o = setup(doc, PdfObject()); o = make(v); return o; }
// any innermost number changed through the tree marks the object: choose one and change it
static bool poke(PdfObject& o, V& v)
{
    switch (v.kind)
    {
        case 0: o.SetNumber(v.n = 999); return true;
        case 1: o = PdfObject((int64_t)998); v.n = 998; v.kind = 0; return true;
        case 2: if (v.kids.empty()) return false; { unsigned i = g_few ? v.kids.size() - 1 : __sx_pin(rng("poke", 0, v.kids.size() - 1)); return poke(o.GetArray()[i], v.kids[i]); }
        default: if (v.kids.empty()) return false; { unsigned i = g_few ? v.kids.size() - 1 : __sx_pin(rng("poke", 0, v.kids.size() - 1)); char c[2] = { (char)('A' + i), 0 }; return poke(o.GetDictionary().MustGetKey(c), v.kids[i]); }
    }
}
static void finish(PdfObject& o, V& m)
{
    SX_ASSERT(same(o, m), "the container holds the sequence or map of the history, all of it owned by the document");
    clean(o);
    SX_ASSERT(same(o, m) && !o.IsDirty(), "reading does not modify");
    if (poke(o, m)) SX_ASSERT(o.IsDirty() && same(o, m), "changing an element modifies the object");
}
enum { ARR_OPS = 17 };
// returns whether the sequence changed
static bool arrayOp(PdfObject& o, V& m, int k, unsigned op)
{
    auto& a = o.GetArray(); auto& s = m.kids; auto at = s.begin();
    auto idx = [&](unsigned top) { return __sx_pin(rng("idx", 0, top)); };
    auto range = [&](unsigned i) { return i < s.size(); };
    auto fails = [&](auto f, bool bad) { try { f(); SX_ASSERT(!bad, "an index out of range is refused"); } catch (PdfError& e) { SX_ASSERT(bad, "an index in range is accepted"); } };
    auto& ind = g_doc->GetObjects().MustGetObject(g_refs[0]); V ref; ref.kind = 1;
    unsigned i, j; V v;
    switch (op)
    {
        case 0: v = pickV(k); a.Add(make(v)); s.push_back(v); return true;
        case 1: { v = pickV(k); PdfObject x = make(v); auto& r = a.Add(x); SX_ASSERT(&r == &a[a.size() - 1], "the added element is returned"); s.push_back(v); return true; }
        case 2: { v = pickV(k); i = idx(s.size()); PdfObject x = make(v); auto it = a.insert(a.begin() + i, x); SX_ASSERT(it == a.begin() + i, "the inserted element is returned"); s.insert(at + i, v); return true; }
        case 3: v = pickV(k); i = idx(s.size()); a.insert(a.begin() + i, make(v)); s.insert(at + i, v); return true;
        case 4: { V w = num(k); v = pickV(k); vector<PdfObject> xs{ make(v), make(w) }; i = idx(s.size()); a.insert(a.begin() + i, xs.begin(), xs.end()); s.insert(at + i, { v, w }); return true; }
        case 5: i = idx(s.size()); { bool ok = range(i); fails([&] { a.RemoveAt(i); }, !ok); if (ok) s.erase(at + i); return ok; }
        case 6: if (s.empty()) return false; i = idx(s.size() - 1); a.erase(a.begin() + i); s.erase(at + i); return true;
        case 7: i = idx(s.size()); j = i + __sx_pin(rng("count", 1, 2)); if (j > s.size()) return false; a.erase(a.begin() + i, a.begin() + j); s.erase(at + i, at + j); return true;
        case 8: v = pickV(k); i = idx(s.size()); { bool ok = range(i); PdfObject x = make(v); fails([&] { a.SetAt(i, x); }, !ok); if (ok) s[i] = v; return ok; }
        case 9: v = pickV(k); i = idx(s.size()); { bool ok = range(i); fails([&] { a.SetAt(i, make(v)); }, !ok); if (ok) s[i] = v; return ok; }
        case 10: i = idx(s.size()); { bool ok = range(i); if (idx(1)) fails([&] { a.SetAtIndirect(i, &ind); }, !ok); else fails([&] { a.SetAtIndirectSafe(i, ind); }, !ok); if (ok) s[i] = ref; return ok; }
        case 11: if (idx(1)) a.AddIndirect(ind); else a.AddIndirectSafe(ind); s.push_back(ref); return true;
        case 12:     // objects that can't be referred to
        {
            PdfObject x = make(num(k)); bool e = false;
            try { a.AddIndirect(x); } catch (PdfError&) { e = true; }
            SX_ASSERT(e, "an object that is not indirect can't be added indirectly");
            a.AddIndirectSafe(x); s.push_back(num(k)); return true;
        }
        case 13: { i = idx(s.size() + 2); v = pickV(k); unsigned was = s.size(); a.Resize(i, make(v)); s.resize(i, v); return was != i; }
        case 14: { bool had = !s.empty(); a.Clear(); s.clear(); return had; }
        case 15:    // assigned from a copy that was changed, copied or moved
        {
            PdfArray c(a); v = pickV(k); c.Add(make(v)); s.push_back(v);
            if (idx(1)) a = c; else a = std::move(c);
            return true;
        }
        default:    // an element given the value of another one, or of its own contents
        {
            if (s.empty()) return false;
            i = idx(s.size() - 1); j = idx(s.size() - 1);
            if (s[j].kind >= 2 && !s[j].kids.empty() && idx(1)) { V w = s[j].kids[0]; if (s[j].kind == 2) a[i] = a[j].GetArray()[0]; else a[i] = a[j].GetDictionary().MustGetKey("A"); s[i] = w; return true; }
            V w = s[j]; if (idx(1)) a.SetAt(i, a[j]); else a[i] = a[j];
            s[i] = w; return i != j;
        }
    }
}
static void array()
{
    PdfMemDocument doc; V m; m.kind = 2;
    unsigned n = __sx_pin(rng("ops", 1, deep() ? 3 : 2)); g_few = n > (deep() ? 2u : 1u);
    unsigned pre = g_few ? 2 : __sx_pin(rng("pre", 0, 3));
    V inner; inner.kind = 2; inner.kids = { num(5) };
    for (unsigned i = 0; i < pre; i++) m.kids.push_back(i == 1 ? inner : num(i));
    auto& o = setup(doc, m);
    if (__sx_pin(rng("reserve", 0, 1))) o.GetArray().Reserve(8);
    for (unsigned i = 0; i < n; i++)
    {
        clean(o);
        unsigned op = __sx_pin(rng("op", 0, ARR_OPS - 1));
        bool ch = arrayOp(o, m, 10 * (i + 1), op);
        if (ch) SX_ASSERT(o.IsDirty(), "a changed sequence is modified");
        if (n == 1) SX_ASSERT(ch || op == 16 || !o.IsDirty(), "an unchanged sequence is not modified");
    }
    __sx_reach("array");
    finish(o, m);
}
// growth through many reallocations
static void grow()
{
    PdfMemDocument doc; V m; m.kind = 2;
    auto& o = setup(doc, m);
    unsigned n = __sx_pin(rng("n", 1, deep() ? 34 : 18));
    for (unsigned i = 0; i < n; i++) { V v = num(i); if (i % 3 == 1) { v.kind = 3; v.kids = { num(i) }; V r; r.kind = 1; r.n = 1; v.kids.push_back(r); } if (i & 1) o.GetArray().Add(make(v)); else o.GetArray().insert(o.GetArray().begin() + i, make(v)); m.kids.push_back(v); }
    clean(o); __sx_reach("grow");
    SX_ASSERT(same(o, m), "the container holds the sequence of the history, all of it owned by the document");
    unsigned i = __sx_pin(rng("i", 0, n - 1));
    if (i % 3 == 1) o.GetArray()[i].GetDictionary().MustGetKey("A").SetNumber(7); else o.GetArray()[i].SetNumber(7);
    SX_ASSERT(o.IsDirty(), "changing an element modifies the object");
}
// ---- dictionaries: keys are any strings of up to two bytes
struct M { vector<std::pair<string, V>> e; V* find(const string& k) { for (auto& p : e) if (p.first == k) return &p.second; return nullptr; } void del(const string& k) { for (auto it = e.begin(); it != e.end(); ++it) if (it->first == k) { e.erase(it); return; } } };
static PdfName nameOf(const string& k) { return PdfName::FromRaw(bufferview(k.data(), k.size())); }
static bool sameD(const PdfObject& o, M& m, const string& probe)
{
    auto& d = o.GetDictionary();
    if (d.GetSize() != m.e.size() || d.size() != m.e.size() || d.GetOwner() != &o) return false;
    unsigned n = 0; const PdfName* last = nullptr; auto ind = d.GetIndirectIterator().begin();
    for (auto& p : d)
    {
        auto v = m.find(string(p.first.GetRawData())); if (v == nullptr || !same(p.second, *v) || p.second.GetParent() != &d) return false;
        if (ind->first != p.first || !resolves(ind->second, *v)) return false;
        if (last != nullptr && !(*last < p.first)) return false;
        last = &p.first; ++n; ++ind;
    }
    auto v = m.find(probe);
    if (d.HasKey(probe) != (v != nullptr) || (d.GetKey(probe) != nullptr) != (v != nullptr)) return false;
    if (v != nullptr && (!resolves(d.FindKey(probe), *v) || !resolves(&d.MustFindKey(probe), *v) || &d.MustGetKey(probe) != d.GetKey(probe))) return false;
    if (v == nullptr)
    {
        if (d.FindKey(probe) != nullptr) return false;
        try { (void)d.MustGetKey(probe); return false; } catch (PdfError& e) { if (e.GetError() != PdfErrorCode::NoObject) return false; }
        try { (void)d.MustFindKey(probe); return false; } catch (PdfError& e) { if (e.GetError() != PdfErrorCode::NoObject) return false; }
    }
    return n == m.e.size();
}
static void dict()
{
    PdfMemDocument doc; M m;
    auto& o = setup(doc, PdfObject(PdfDictionary()));
    auto& d = o.GetDictionary(); auto& ind = doc.GetObjects().MustGetObject(g_refs[0]); V ref; ref.kind = 1;
    unsigned n = __sx_pin(rng("ops", 1, deep() ? 3 : 2)); g_few = n > 1;
    static const char* const K[] = { "", "b", "a", "bc" };
    auto key = [&]() { return string(K[__sx_pin(rng("key", 0, deep() ? 3 : 2))]); };
    for (unsigned i = 0; i < n; i++)
    {
        clean(o); int kk = 10 * (i + 1); bool ch = true; V v;
        unsigned op = __sx_pin(rng("op", 0, 7));
        switch (op)
        {
            case 0: { string k = key(); v = pickV(kk); auto& r = d.AddKey(nameOf(k), make(v)); SX_ASSERT(&r == d.GetKey(k), "the added value is returned"); m.del(k); m.e.push_back({ k, v }); break; }
            case 1: { string k = key(); v = pickV(kk, false); PdfObject x = make(v); auto& r = d.AddKey(nameOf(k), x); SX_ASSERT(&r == d.GetKey(k), "the added value is returned"); m.del(k); m.e.push_back({ k, v }); break; }
            case 2: { string k = key(); if (__sx_pin(rng("safe", 0, 1))) d.AddKeyIndirectSafe(nameOf(k), ind); else d.AddKeyIndirect(nameOf(k), ind); m.del(k); m.e.push_back({ k, ref }); break; }
            case 3: { string k = key(); ch = m.find(k) != nullptr; SX_ASSERT(d.RemoveKey(k) == ch, "removing tells whether the key was there"); m.del(k); break; }
            case 4: ch = !m.e.empty(); d.Clear(); m.e.clear(); break;
            case 5: { PdfDictionary c(d); string k = key(); v = num(kk); c.AddKey(nameOf(k), make(v)); m.del(k); m.e.push_back({ k, v }); if (__sx_pin(rng("move", 0, 1))) d = std::move(c); else d = c; break; }
            case 6:
            {
                string k = key(); PdfObject x = make(num(kk)); bool e = false;
                try { d.AddKeyIndirect(nameOf(k), x); } catch (PdfError&) { e = true; }
                SX_ASSERT(e && !o.IsDirty(), "an object that is not indirect can't be added indirectly");
                d.AddKeyIndirectSafe(nameOf(k), x); m.del(k); m.e.push_back({ k, num(kk) }); break;
            }
            default:   // a value given to another key
            {
                if (m.e.empty()) { ch = false; break; }
                string k = key(); auto s = m.e[0]; d.AddKey(nameOf(k), *d.GetKey(s.first)); m.del(k); m.e.push_back({ k, s.second }); break;
            }
        }
        if (ch) SX_ASSERT(o.IsDirty(), "a changed map is modified"); else SX_ASSERT(!o.IsDirty(), "an unchanged map is not modified");
    }
    __sx_reach("dict");
    clean(o);
    SX_ASSERT(sameD(o, m, key()), "the dictionary is the map of the history, all of it owned by the document");
    SX_ASSERT(!o.IsDirty(), "reading does not modify");
    if (m.e.empty()) return;
    auto& last = m.e.back(); auto p = d.GetKey(last.first);
    if (poke(*p, last.second)) SX_ASSERT(o.IsDirty() && sameD(o, m, last.first), "changing a value modifies the object");
}
// any keys of up to two bytes
static void keys()
{
    PdfMemDocument doc; M m;
    auto& o = setup(doc, PdfObject(PdfDictionary())); auto& d = o.GetDictionary();
    unsigned n = __sx_pin(rng("ops", 2, deep() ? 4 : 3));
    for (unsigned i = 0; i < n; i++)
    {
        string k = symStr("key", 0, 2);
        if (i > 0 && i == n - 1 && __sx_pin(rng("remove", 0, 1))) { SX_ASSERT(d.RemoveKey(k) == (m.find(k) != nullptr), "removing tells whether the key was there"); m.del(k); }
        else { d.AddKey(nameOf(k), (int64_t)i); m.del(k); m.e.push_back({ k, num(i) }); }
    }
    __sx_reach("keys");
    SX_ASSERT(sameD(o, m, symStr("probe", 0, 2)), "the dictionary is the map of the history, all of it owned by the document");
}
// ---- typed accessors over values of every kind, present or absent, direct, referred to or dangling
template <typename T, typename F> static void typed(PdfDictionary& d, PdfArray& a, bool present, bool dangling, std::optional<T> want, std::optional<T> strictGet, T def, F eq)
{
    bool got = present && !dangling;
    T v{};
    bool ok = d.TryFindKeyAs<T>("K", v);
    SX_ASSERT(ok == (got && want.has_value()) && eq(v, ok ? *want : T{}), "TryFindKeyAs gives the value when it has the type");
    SX_ASSERT(eq(d.FindKeyAsSafe<T>("K", def), got && want ? *want : def), "FindKeyAsSafe gives the value, or the default");
    SX_ASSERT(eq(d.FindKeyParentAsSafe<T>("K", def), got && want ? *want : def), "FindKeyParentAsSafe gives the value, or the default");
    try { T r = d.FindKeyAs<T>("K", def); SX_ASSERT(!got || strictGet, "another type is an error"); SX_ASSERT(eq(r, got ? *strictGet : def), "FindKeyAs gives the value, or the default for none"); }
    catch (PdfError& e) { SX_ASSERT(got && !strictGet && e.GetError() == PdfErrorCode::InvalidDataType, "the right type is no error"); }
    try { T r = d.FindKeyParentAs<T>("K", def); SX_ASSERT(!got || strictGet, "another type is an error"); SX_ASSERT(eq(r, got ? *strictGet : def), "FindKeyParentAs gives the value, or the default for none"); }
    catch (PdfError& e) { SX_ASSERT(got && !strictGet && e.GetError() == PdfErrorCode::InvalidDataType, "the right type is no error"); }
    if (!present) return;
    T w{};
    bool ok2 = a.TryFindAtAs<T>(0, w);
    SX_ASSERT(ok2 == (got && want.has_value()) && eq(w, ok2 ? *want : T{}), "TryFindAtAs gives the value when it has the type");
    SX_ASSERT(eq(a.FindAtAsSafe<T>(0, def), got && want ? *want : def), "FindAtAsSafe gives the value, or the default");
    try { T r = a.FindAtAs<T>(0, def); SX_ASSERT(!got || strictGet, "another type is an error"); SX_ASSERT(eq(r, got ? *strictGet : def), "FindAtAs gives the value, or the default for none"); }
    catch (PdfError& e) { SX_ASSERT(got && !strictGet && e.GetError() == PdfErrorCode::InvalidDataType, "the right type is no error"); }
}
static void access()
{
    PdfMemDocument doc; PdfObject init{ PdfDictionary() };
    auto& o = setup(doc, init); auto& p = doc.GetObjects().CreateArrayObject();
    unsigned kind = __sx_pin(rng("kind", 0, 7)); unsigned where = __sx_pin(rng("where", 0, 4));    // direct, referred to, dangling, absent, inherited
    PdfVariant v; int64_t n = symVal<int64_t>("n"); bool b = rng("b", 0, 1) != 0;
    std::optional<int64_t> wn; std::optional<bool> wb; std::optional<double> wd; std::optional<PdfName> wname; std::optional<PdfString> ws; std::optional<PdfReference> wr;
    switch (kind)
    {
        case 0: v = PdfVariant(n); wn = n; n = __sx_pin((n & 15) - 8); v = PdfVariant(n); wn = n; wd = (double)n; break;
        case 1: v = PdfVariant(b); wb = b; break;
        case 2: v = PdfVariant(2.5); wd = 2.5; break;
        case 3: { string s = symBytes("name", 2); auto x = nameOf(s); v = PdfVariant(x); wname = x; break; }
        case 4: { string s = symBytes("str", 2); for (char c : s) __sx_assume(c >= 'a' && c <= 'z'); auto x = PdfString::FromRaw(bufferview(s.data(), s.size()), false); v = PdfVariant(x); ws = x; break; }
        case 5: v = PdfVariant(); break;
        case 6: v = PdfVariant(PdfArray()); break;
        default: v = PdfVariant(PdfDictionary()); break;
    }
    auto& d = o.GetDictionary(); auto& a = p.GetArray(); auto& parent = doc.GetObjects().CreateDictionaryObject();
    bool inherited = where == 4;
    PdfObject val = PdfObject(v);
    if (where == 1) val = PdfObject(doc.GetObjects().CreateObject(PdfObject(v)).GetIndirectReference());
    if (where == 2) val = PdfObject(PdfReference(99, 0));
    if (where != 3 && !inherited) { d.AddKey("K", val); a.Add(val); }
    if (inherited)
    {
        parent.GetDictionary().AddKey("K", val); d.AddKeyIndirect("Parent", parent);
        auto f = d.FindKeyParent("K"); SX_ASSERT(f == parent.GetDictionary().GetKey("K") && d.FindKey("K") == nullptr, "a value of the parent is inherited");
        SX_ASSERT(d.FindKeyParent("L") == nullptr, "no ancestor has the key");
        if (wn) SX_ASSERT(d.FindKeyParentAs<int64_t>("K", -99) == n && d.FindKeyParentAsSafe<int64_t>("K", -99) == n, "inherited values are read");
        __sx_reach("inherited"); return;
    }
    bool present = where != 3, dangling = where == 2;
    __sx_reach("access");
    // GetKey and operator[] do not follow references
    if (present) { auto k = d.GetKey("K"); SX_ASSERT(k != nullptr && k->IsReference() == (where == 1 || where == 2) && a[0].IsReference() == k->IsReference(), "GetKey gives the value itself"); }
    auto eq = [](auto& x, const auto& y) { return x == y; };
    typed<int64_t>(d, a, present, dangling, wn, wn, (int64_t)-99, [](int64_t x, int64_t y) { return x == y; });
    typed<bool>(d, a, present, dangling, wb, wb, true, [](bool x, bool y) { return x == y; });
    typed<double>(d, a, present, dangling, wd, wd, -9.5, [](double x, double y) { return x == y; });
    typed<PdfName>(d, a, present, dangling, wname, wname, PdfName("Def"), [](const PdfName& x, const PdfName& y) { return x == y; });
    typed<PdfString>(d, a, present, dangling, ws, ws, PdfString("Def"), [](const PdfString& x, const PdfString& y) { return x.GetString() == y.GetString(); });
    (void)eq; (void)wr;
}
// ---- whole objects: assignment, copies, streams
static void objects()
{
    PdfMemDocument doc; V m = pickV(10);
    auto& o = setup(doc, m); auto& other = doc.GetObjects().CreateDictionaryObject();
    auto ref = o.GetIndirectReference();
    clean(o); clean(other);
    V w = pickV(20);
    unsigned how = __sx_pin(rng("how", 0, 6));
    switch (how)
    {
        case 0: { PdfObject x = make(w); o = x; SX_ASSERT(o.IsDirty(), "assigning modifies"); break; }
        case 1: o = make(w); SX_ASSERT(o.IsDirty(), "assigning modifies"); break;
        case 2: { PdfObject& self = o; o = self; w = m; break; }
        case 3: { PdfObject copy(o); SX_ASSERT(!copy.IsIndirect() && copy.GetDocument() == nullptr && !copy.IsDirty() && !o.IsDirty(), "a copy is on its own"); o = copy; w = m; break; }
        case 4: if (m.kind == 2) { w = m.kids[0]; o = o.GetArray()[0]; } else if (m.kind == 3) { w = m.kids[1]; o = o.GetDictionary().MustGetKey("B"); } else __sx_end(); SX_ASSERT(o.IsDirty(), "assigning modifies"); break;
        case 5: if (m.kind == 2) { w = m.kids[0]; o = std::move(o.GetArray()[0]); } else if (m.kind == 3) { w = m.kids[1]; o = std::move(o.GetDictionary().MustGetKey("B")); } else __sx_end(); SX_ASSERT(o.IsDirty(), "assigning modifies"); break;
        default: { PdfObject tmp(std::move(o)); o = std::move(tmp); w = m; break; }
    }
    __sx_reach("objects");
    SX_ASSERT(o.GetIndirectReference() == ref && &doc.GetObjects().MustGetObject(ref) == &o, "an assigned object keeps its place");
    SX_ASSERT(same(o, w), "the object has the value assigned, all of it owned by the document");
    clean(o); if (poke(o, w)) SX_ASSERT(o.IsDirty() && same(o, w), "changing an element modifies the object");
}
static void streams()
{
    PdfMemDocument doc; auto& o = doc.GetObjects().CreateDictionaryObject(); auto& o2 = doc.GetObjects().CreateDictionaryObject();
    string data = symBytes("data", 2), more = symBytes("more", 1);
    unsigned first = __sx_pin(rng("first", 0, 2));
    if (first == 1) o.GetOrCreateStream().SetData(bv(data), true);
    if (first == 2) o.GetOrCreateStream().SetData(bv(data), PdfFilterList{ PdfFilterType::ASCIIHexDecode });
    string s; StringStreamDevice dev(s); charbuff b;
    o.Write(dev, PdfWriteFlags::NoFlateCompress, nullptr, b); SX_ASSERT(!o.IsDirty(), "a written object is not modified");
    string want;
    unsigned how = __sx_pin(rng("how", 0, 7));
    switch (how)
    {
        case 0: o.GetOrCreateStream().SetData(bv(more), true); want = more; break;
        case 1: o.GetOrCreateStream().SetData(bv(more), PdfFilterList{ PdfFilterType::ASCIIHexDecode }); want = more; break;
        case 2: { auto out = o.GetOrCreateStream().GetOutputStreamRaw(); out.Write(more); want = more; break; }
        case 3: if (first == 2) __sx_end(); { auto out = o.GetOrCreateStream().GetOutputStreamRaw(true); out.Write(more); want = (first ? data : "") + more; break; }
        case 4: { auto out = o.GetOrCreateStream().GetOutputStream(PdfFilterList{ PdfFilterType::ASCIIHexDecode }); out.Write(more); want = more; break; }
        case 5: { o2.GetOrCreateStream().SetData(bv(more), true); o.GetOrCreateStream() = o2.GetOrCreateStream(); want = more; break; }
        case 6: { o2.GetOrCreateStream().SetData(bv(more), true); o.GetOrCreateStream() = std::move(o2.GetOrCreateStream()); want = more; break; }
        default:
            if (first == 0) __sx_end();
            SX_ASSERT(o.MustGetStream().GetCopy() == charbuff(data) && !o.IsDirty(), "reading does not modify"); __sx_reach("read"); return;
    }
    __sx_reach("streams");
    SX_ASSERT(o.IsDirty(), "a changed stream modifies its object");
    charbuff c = o.MustGetStream().GetCopy();
    SX_ASSERT(string(c.data(), c.size()) == want, "the stream has its new contents");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 6)) { case 0: array(); break; case 1: grow(); break; case 2: dict(); break; case 3: access(); break; case 4: objects(); break; case 5: keys(); break; default: streams(); break; }
}
