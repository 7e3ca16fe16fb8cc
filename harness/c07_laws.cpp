#include "values.h"
template <typename T> static void laws(const T& a, const T& b, bool same)
{
    SX_ASSERT(a == a && b == b, "equality is reflexive");
    SX_ASSERT(!(a != a), "nothing is unequal to itself");
    SX_ASSERT((a == b) == same, "equality agrees with the contents");
    SX_ASSERT((b == a) == same, "equality is symmetric");
    SX_ASSERT((a != b) == !same && (b != a) == !same, "inequality negates equality");
    T c(a);
    SX_ASSERT(c == a && a == c && !(c != a), "a copy equals the original");
    SX_ASSERT((c == b) == same && (c != b) == !same, "a copy compares like the original");
    T m(std::move(c));
    SX_ASSERT(m == a && a == m, "a moved value equals the original");
    T as; as = b; SX_ASSERT(as == b && !(as != b), "an assigned value equals the original");
    __sx_reach("laws");
}
template <typename T> static void total(const T& a, const T& b, const T& c)
{
    SX_ASSERT((a < b) + (b < a) + (a == b) == 1, "the order is total and agrees with equality");
    SX_ASSERT(!(a < a), "the order is strict");
    SX_ASSERT(!(a < b && b < c) || a < c, "the order is transitive");
    __sx_reach("order");
}
static PdfReference ref(const char* n) { uint32_t o; uint16_t g; __sx_make(&o, 4, n); __sx_make(&g, 2, n); return PdfReference(o, g); }
static PdfName nam(const char* n, unsigned k) { string s = symBytes(n, k); return PdfName::FromRaw(bufferview(s.data(), s.size())); }
// a reference's identity, whatever the class does
static bool refSame(const PdfReference& a, const PdfReference& b) { return a.ObjectNumber() == b.ObjectNumber() && a.GenerationNumber() == b.GenerationNumber(); }
static PdfVariant scalar(unsigned k)
{
    switch (k)
    {
        case 0: return PdfVariant();
        case 1: return PdfVariant(sx_bool("b"));
        case 2: return PdfVariant(symVal<int64_t>("i"));
        case 3: return PdfVariant((double)(int)rng("r", 0, 3) / 2);
        case 4: return PdfVariant(nam("n", 1));
        case 5: { string s = symBytes("s", 1); return PdfVariant(PdfString::FromRaw(bufferview(s.data(), 1), sx_bool("hex"))); }
        default: return PdfVariant(ref("R"));
    }
}
static bool sameScalar(const PdfVariant& a, const PdfVariant& b)
{
    if (a.GetDataType() != b.GetDataType()) return false;
    switch (a.GetDataType())
    {
        case PdfDataType::Bool: return a.GetBool() == b.GetBool();
        case PdfDataType::Number: return a.GetNumber() == b.GetNumber();
        case PdfDataType::Real: return a.GetReal() == b.GetReal();
        case PdfDataType::Name: return a.GetName().GetRawData() == b.GetName().GetRawData();
        case PdfDataType::String: return a.GetString().GetRawData() == b.GetString().GetRawData();
        case PdfDataType::Reference: return refSame(a.GetReference(), b.GetReference());
        default: return true;
    }
}
static PdfVariant pick(const char* n) { return scalar((unsigned)__sx_pin(rng(n, 0, 6))); }
static PdfArray arr(unsigned n) { PdfArray a; for (unsigned i = 0; i < n; i++) a.Add(PdfObject(scalar(i ? 4 : (unsigned)__sx_pin(rng("t", 0, 6))))); return a; }
static bool sameArr(const PdfArray& a, const PdfArray& b)
{
    if (a.GetSize() != b.GetSize()) return false;
    for (unsigned i = 0; i < a.GetSize(); i++) if (!sameScalar(a[i].GetVariant(), b[i].GetVariant())) return false;
    return true;
}
static PdfDictionary dic(unsigned mask)
{
    PdfDictionary d;
    if (mask & 1) d.AddKey("A", PdfObject(scalar((unsigned)__sx_pin(rng("t", 0, 4)))));
    if (mask & 2) d.AddKey("B", PdfObject(scalar(2)));
    return d;
}
static bool sameDic(const PdfDictionary& a, const PdfDictionary& b)
{
    for (const char* k : { "A", "B" })
    {
        auto x = a.GetKey(k); auto y = b.GetKey(k);
        if (!x != !y) return false;
        if (x && !sameScalar(x->GetVariant(), y->GetVariant())) return false;
    }
    return true;
}
static void strings()
{
    // raw bytes against texts: equal exactly if the texts are
    static const char* const T[] = { "", "a", "\xC3\xA9", "\xE4\xB8\x80", "ab", "\xE2\x82\xAC" };
    static const uint32_t CP[] = { 0, 'a', 0xE9, 0x4E00, 'b', 0x20AC };
    unsigned i = (unsigned)__sx_pin(rng("text", 0, 5)), form = (unsigned)__sx_pin(rng("form", 0, 2));
    string raw;
    if (form == 0) raw = symStr("raw", 0, deep() ? 2 : 1);
    else { raw = "\xFE\xFF"; unsigned n = (unsigned)__sx_pin(rng("chars", 0, 2)); for (unsigned k = 0; k < n; k++) putUtf16(raw, CP[__sx_pin(rng("cp", 1, 5))]); }
    for (size_t k = form ? 2 : 0; form == 0 && k < raw.size(); k++) { unsigned char c = raw[k]; __sx_assume(c != 0x7F && c != 0x9F && c != 0xAD && c != 0xFE && c != 0xFF && c != 0xEF); }
    PdfString a = PdfString::FromRaw(bufferview(raw.data(), raw.size())), b(T[i]);
    string text = PdfString::FromRaw(bufferview(raw.data(), raw.size())).GetString();
    laws(a, b, text == T[i]);
    SX_ASSERT(a.GetRawData() == raw, "comparing does not change a string");
    PdfString e(text); laws(a, e, true);
    __sx_reach("strings");
}
static void objects()
{
    PdfMemDocument doc;
    auto& objs = doc.GetObjects();
    PdfObject* a = &objs.CreateObject(scalar(2)); PdfObject* b = &objs.CreateObject(scalar(2));
    PdfObject d(scalar((unsigned)__sx_pin(rng("t", 0, 4)))), e(scalar((unsigned)__sx_pin(rng("u", 0, 4))));
    SX_ASSERT(*a != *b && !(*a == *b) && *a == *a && !(*a != *a), "indirect objects are equal exactly if they are the same");
    SX_ASSERT((*a < *b) != (*b < *a), "indirect objects are ordered by their number");
    bool same = sameScalar(d.GetVariant(), e.GetVariant());
    SX_ASSERT((d == e) == same && (e == d) == same && (d != e) == !same && (e != d) == !same, "direct objects are equal exactly if their values are");
    SX_ASSERT((d == e.GetVariant()) == same && (d != e.GetVariant()) == !same, "an object equals a value exactly if its own value does");
    SX_ASSERT((*a == d) == (d == *a) && (*a != d) == (d != *a) && (*a != d) == !(*a == d), "equality of objects is symmetric");
    __sx_reach("objects");
}
void sx_harness()
{
    switch (__sx_range("case", 0, 8))
    {
        case 0: { PdfReference a = ref("a"), b = ref("b"), c = ref("c"); laws(a, b, refSame(a, b)); total(a, b, c);
            SX_ASSERT((a < b) == (a.ObjectNumber() != b.ObjectNumber() ? a.ObjectNumber() < b.ObjectNumber() : a.GenerationNumber() < b.GenerationNumber()), "references are ordered by number, then generation"); break; }
        case 1: { unsigned n = deep() ? 2 : 1; PdfName a = nam("a", (unsigned)__sx_pin(rng("la", 0, n))), b = nam("b", (unsigned)__sx_pin(rng("lb", 0, n))), c = nam("c", (unsigned)__sx_pin(rng("lc", 0, 1)));
            laws(a, b, a.GetRawData() == b.GetRawData()); total(a, b, c); break; }
        case 2: { PdfVariant a = pick("t"), b = pick("u"); laws(a, b, sameScalar(a, b)); break; }
        case 3: { string a = symStr("a", 0, 2), b = symStr("b", 0, 2); bool h = sx_bool("h");
            PdfString x = PdfString::FromRaw(bufferview(a.data(), a.size()), h), y = PdfString::FromRaw(bufferview(b.data(), b.size())); laws(x, y, a == b); break; }
        case 4: strings(); break;
        case 5: { PdfArray a = arr((unsigned)__sx_pin(rng("na", 0, 2))), b = arr((unsigned)__sx_pin(rng("nb", 0, 2))); bool s = sameArr(a, b); laws(a, b, s); laws(PdfVariant(a), PdfVariant(b), s); break; }
        case 6: { PdfDictionary a = dic((unsigned)__sx_pin(rng("ma", 0, 3))), b = dic((unsigned)__sx_pin(rng("mb", 0, 3))); bool s = sameDic(a, b); laws(a, b, s); laws(PdfVariant(a), PdfVariant(b), s); break; }
        case 7: objects(); break;
        default: { PdfName a = nam("a", 1), b = nam("b", 1); string t = a.GetString(), u = b.GetString();
            SX_ASSERT((a == string_view(u)) == (t == u) && (a != string_view(u)) == (t != u) && (a == u.c_str()) == (a == string_view(u.c_str())), "a name equals exactly the text it denotes"); break; }
    }
}
