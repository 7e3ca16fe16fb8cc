#include "values.h"
static void roundtrip(const PdfVariant& v)
{
    unsigned f = (unsigned)__sx_pin(rng("style", 0, 2));
    string out = toStr(v, f == 0 ? PdfWriteFlags::None : f == 1 ? PdfWriteFlags::Clean : (PdfWriteFlags)((int)PdfWriteFlags::Clean | (int)PdfWriteFlags::NoInlineLiteral));
    auto dev = devOf(out + " 99 ");
    PdfTokenizer tok; PdfVariant r;
    SX_ASSERT(tok.TryReadNextVariant(*dev, r), "a written value can be read");
    SX_ASSERT(show(r) == show(v), "a value survives writing and reading");
    SX_ASSERT(tok.TryReadNextVariant(*dev, r) && r.GetDataType() == PdfDataType::Number && r.GetNumber() == 99, "reading a value stops at its end");
    __sx_reach("value");
}
static PdfVariant key(string& k)
{
    unsigned n = (unsigned)__sx_pin(rng("len", 1, 2)); k = symBytes("key", n);
    for (char c : k) __sx_assume(c != 0);
    PdfDictionary d; d.AddKey(PdfName::FromRaw(bufferview(k.data(), k.size())), PdfObject(leaf((unsigned)__sx_pin(rng("kind", 1, n == 1 || deep() ? 9 : 1)))));
    return PdfVariant(d);
}
// a number followed by every other type
static void triple(unsigned leaves, bool dict)
{
    PdfArray a; for (int i = 0; i < 3; i++) a.Add(PdfObject(leaf((unsigned)__sx_pin(rng("kind", 0, leaves - 1)))));
    if (!dict) { roundtrip(PdfVariant(a)); return; }
    PdfDictionary d; d.AddKey("A", a[0]); d.AddKey("Type", a[1]); d.AddKey("B", a[2]); roundtrip(PdfVariant(d));
}
static void indirect()
{
    // an indirect object: number and generation over their whole range
    static const uint32_t N[] = { 1, 9, 10, 99, 255, 256, 8388607, 8388608, 2147483647u, 4294967295u };
    uint32_t n = N[__sx_pin(rng("num", 0, 9))]; uint32_t g = 0; unsigned k = (unsigned)__sx_pin(rng("bits", 0, 16));
    g = k ? (1u << (k - 1)) - 1 + rng("d", 0, 2) : 65535;
    PdfVariant v(PdfReference(n, (uint16_t)g));
    string out = toStr(v);
    PdfVariant r = parseVariant(out);
    SX_ASSERT(r.GetDataType() == PdfDataType::Reference && r.GetReference() == v.GetReference(), "a reference survives writing and reading");
    SX_ASSERT(parseVariant(v.GetReference().ToString()).GetReference() == v.GetReference(), "the textual form of a reference denotes it");
    __sx_reach("reference");
}
void sx_harness()
{
    string k;
    switch (__sx_range("case", 0, 8))
    {
        case 0: roundtrip(value(0, LEAVES)); break;
        case 1: roundtrip(value(1, LEAVES)); break;
        case 2: roundtrip(value(2, deep() ? 4 : 2)); break;
        case 3: triple(deep() ? 10 : 7, false); break;
        case 4: triple(deep() ? 9 : 5, true); break;
        case 5: roundtrip(key(k)); break;
        case 6: indirect(); break;
        case 7: { // more elements than fit on one line
            PdfArray a; unsigned n = (unsigned)__sx_pin(rng("n", 8, deep() ? 32 : 22)), k = (unsigned)__sx_pin(rng("kind", 0, 9));
            PdfVariant v = leaf(k); for (unsigned i = 0; i < n; i++) a.Add(PdfObject(v));
            roundtrip(PdfVariant(a)); break; }
        default: { // deep nesting
            unsigned n = (unsigned)__sx_pin(rng("depth", 0, deep() ? 60 : 24)); unsigned mix = (unsigned)__sx_pin(rng("mix", 0, 7));
            PdfVariant v = leaf(1);
            for (unsigned i = 0; i < n; i++) { if (mix >> (i % 3) & 1) { PdfArray a; a.Add(PdfObject(v)); v = PdfVariant(a); } else { PdfDictionary d; d.AddKey("K", PdfObject(v)); v = PdfVariant(d); } }
            roundtrip(v); break; }
    }
}
