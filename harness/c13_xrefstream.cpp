#include "common.h"
#include <pdfmm/base/PdfParser.h>
#include <pdfmm/base/PdfXRefStreamParserObject.h>
// ---- a cross-reference stream of given widths, ranges and data, and what the specification says it lists
struct Ent { unsigned type; uint64_t a; uint64_t b; };
static string num(int64_t v) { return std::to_string((long long)v); }
static string object(const vector<string>& w, int64_t size, const vector<string>& index, bool hasIndex, const string& data, const string& extra)
{
    string s = "7 0 obj<</Type/XRef/Size " + num(size) + "/W[";
    for (auto& e : w) { s += e; s += ' '; }
    s += "]";
    if (hasIndex) { s += "/Index["; for (auto& e : index) { s += e; s += ' '; } s += "]"; }
    s += "/Length " + num(data.size()) + extra + ">>stream\n" + data + "\nendstream endobj";
    return s;
}
static bool read(const string& text, PdfXRefEntries& e, size_t* prev = nullptr)
{
    auto dev = devOf(text);
    try
    {
        PdfXRefStreamParserObject o(*dev, e);
        o.ParseStream();
        o.ReadXRefTable();
        if (prev != nullptr) { size_t p; *prev = o.TryGetPreviousOffset(p) ? p : 0; }
        return true;
    }
    catch (PdfError&) { return false; }
}
static uint64_t field(const string& d, size_t at, unsigned w) { uint64_t v = 0; for (unsigned i = 0; i < w; i++) v = v << 8 | (unsigned char)d[at + i]; return v; }
static void same(const PdfXRefEntry& e, bool listed, uint64_t t, uint64_t a, uint64_t b)
{
    SX_ASSERT(e.Parsed == listed, "exactly the objects in the ranges are listed");
    if (!listed) return;
    SX_ASSERT((uint64_t)e.Type == t, "the type is that of the first field");
    if (t == 0) SX_ASSERT(e.ObjectNumber == a && e.Generation == b, "a free entry gives next number and generation");
    else if (t == 1) SX_ASSERT(e.Offset == a && e.Generation == b, "an entry in use gives offset and generation");
    else SX_ASSERT(e.ObjectNumber == a && e.Index == b, "a compressed entry gives stream number and index");
}
// all widths, one range, symbolic contents
static void widths()
{
    unsigned w[3];
    static const unsigned W1[] = { 0, 1, 2 }, W2[] = { 1, 2, 3, 4, 5, 8, 0 }, W3[] = { 0, 1, 2, 3, 4 };
    w[0] = W1[__sx_pin(rng("w0", 0, 2))]; w[1] = W2[__sx_pin(rng("w1", 0, 6))]; w[2] = W3[__sx_pin(rng("w2", 0, 4))];
    unsigned len = w[0] + w[1] + w[2], n = __sx_pin(rng("n", 1, 2));
    if (len == 0) return;
    bool index = __sx_pin(rng("index", 0, 1));
    int64_t first = index ? (int64_t)__sx_pin(rng("first", 0, 3)) : 0;
    string d = symBytes("d", len * n);
    // known types only, offsets that fit a file
    uint64_t t[2], a[2], b[2];
    for (unsigned i = 0; i < n; i++)
    {
        t[i] = w[0] == 0 ? 1 : field(d, i * len, w[0]);
        a[i] = field(d, i * len + w[0], w[1]); b[i] = field(d, i * len + w[0] + w[1], w[2]);
        if (w[1] == 8) __sx_assume((int64_t)a[i] >= 0);
        if (w[1] > 4 && t[i] != 1) __sx_assume(a[i] >> 32 == 0);
    }
    PdfXRefEntries e;
    bool ok = read(object({ num(w[0]), num(w[1]), num(w[2]) }, first + n, { num(first), num(n) }, index, d, ""), e);
    bool known = true;
    for (unsigned i = 0; i < n; i++) if (t[i] > 2) known = false;
    if (!known) return;          // entries of unknown type: outside
    __sx_reach("widths");
    SX_ASSERT(ok, "a well-formed stream is read");
    SX_ASSERT(e.GetSize() >= first + n, "all objects have entries");
    for (unsigned i = 0; i < e.GetSize(); i++)
    {
        bool l = i >= first && i < first + n;
        same(e[i], l, l ? t[i - first] : 0, l ? a[i - first] : 0, l ? b[i - first] : 0);
    }
}
// several ranges; entries already known from a newer section stay
static void ranges()
{
    static const int R[] = { 0, 1, 2, 5 };
    unsigned nr = __sx_pin(rng("ranges", 1, deep() ? 3 : 2));
    vector<string> ix; vector<std::pair<int, unsigned>> want; unsigned total = 0;
    for (unsigned r = 0; r < nr; r++)
    {
        int f = R[__sx_pin(rng("first", 0, 3))]; unsigned c = __sx_pin(rng("count", 0, 2));
        ix.push_back(num(f)); ix.push_back(num(c));
        for (unsigned k = 0; k < c; k++) want.push_back({ f + k, total++ });
    }
    string d = symBytes("d", total * 4);
    for (unsigned i = 0; i < total; i++) __sx_assume((unsigned char)d[4 * i] < 3);
    PdfXRefEntries e;
    bool known = __sx_pin(rng("known", 0, 1));
    if (known) { e.Enlarge(2); e[1] = PdfXRefEntry::CreateInUse(77, 3); e[1].Parsed = true; }
    __sx_reach("ranges");
    SX_ASSERT(read(object({ "1", "2", "1" }, 9, ix, true, d, ""), e), "a well-formed stream is read");
    vector<int> at(8, -1);
    for (auto& p : want) if (at[p.first] < 0) at[p.first] = p.second;
    for (unsigned i = 0; i < e.GetSize() && i < 8; i++)
    {
        if (known && i == 1) { same(e[i], true, 1, 77, 3); continue; }
        if (at[i] < 0) { same(e[i], false, 0, 0, 0); continue; }
        unsigned o = 4 * at[i];
        same(e[i], true, (unsigned char)d[o], field(d, o + 1, 2), field(d, o + 3, 1));
    }
    for (auto& p : want) SX_ASSERT((unsigned)p.first < e.GetSize(), "all objects have entries");
}
// data that is too short, for any widths and cut
static void tooShort()
{
    unsigned w[3]; for (unsigned i = 0; i < 3; i++) w[i] = __sx_pin(rng("w", 0, 3));
    unsigned len = w[0] + w[1] + w[2], n = __sx_pin(rng("n", 1, 3));
    if (len == 0) return;
    unsigned have = __sx_pin(rng("have", 0, len * n - 1));
    string d(have, '\1');
    PdfXRefEntries e;
    __sx_reach("short");
    SX_ASSERT(!read(object({ num(w[0]), num(w[1]), num(w[2]) }, n, { }, false, d, ""), e), "data that is too short is rejected");
}
// ranges and widths that make no sense
static void bad()
{
    static const char* const V[] = { "-1", "-2147483648", "-9223372036854775808", "9223372036854775807", "9223372036854775806", "4294967296", "4294967295", "8388608", "2147483648", "0", "1", "2", "/N", "(a)", "null", "true" };
    auto pick = [&](const char* n) { return __sx_pin(rng(n, 0, 15)); };
    unsigned what = __sx_pin(rng("what", 0, 3));
    PdfXRefEntries e;
    string d(16, '\1');
    auto wide = [](unsigned k) { return k <= 8; };
    if (what == 0)           // one range
    {
        unsigned f = pick("first"), c = pick("count");
        bool ok = read(object({ "1", "2", "1" }, 4, { V[f], V[c] }, true, d, ""), e);
        __sx_reach("bad");
        bool good = !wide(f) && !wide(c) && f < 12 && c < 12;
        if (good) SX_ASSERT(ok, "a valid range is read");
        else if (f < 9 && c == 9) { if (f < 3) SX_ASSERT(!ok, "a negative range is rejected"); }   // an empty range
        else SX_ASSERT(!ok, "an impossible range is rejected");
    }
    else if (what == 1)      // an odd number of values, no array
    {
        bool ok = read(object({ "1", "2", "1" }, 4, { "0", "1", "2" }, true, d, ""), e);
        SX_ASSERT(!ok, "an odd number of values is rejected");
    }
    else if (what == 2)      // widths
    {
        unsigned k = pick("w"), at = __sx_pin(rng("at", 0, 2));
        vector<string> w = { "1", "1", "1" }; w[at] = V[k];
        bool ok = read(object(w, 2, { "0", "1" }, true, d, ""), e);
        if (k <= 8 || k >= 12) SX_ASSERT(!ok, "an impossible width is rejected");
        else if (at != 0 || k < 11) SX_ASSERT(ok, "a valid width is read");
    }
    else
    {
        unsigned k = pick("size"), n = __sx_pin(rng("nw", 0, 4));
        vector<string> w(n, "1");
        string t = object(w, 0, { }, false, d, ""); size_t p = t.find("/Size 0"); t = t.substr(0, p) + "/Size " + V[k] + t.substr(p + 7);
        bool ok = read(t, e);
        if (n != 3 || k <= 8) SX_ASSERT(!ok, "an impossible size or number of widths is rejected");
        else if (k < 12) SX_ASSERT(ok, "a valid size is read");
    }
}
static void prev()
{
    static const char* const P[] = { "", "/Prev 9", "/Prev 1234567890", "/Prev 9007199254740993" };
    static const uint64_t X[] = { 0, 9, 1234567890, 9007199254740993 };
    unsigned k = __sx_pin(rng("prev", 0, 3));
    PdfXRefEntries e; size_t p;
    SX_ASSERT(read(object({ "1", "1", "1" }, 1, { }, false, string("\0\0\0", 3), P[k]), e, &p), "a well-formed stream is read");
    SX_ASSERT(p == X[k], "the previous section is the one named");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 4))
    {
        case 0: widths(); break;
        case 1: ranges(); break;
        case 2: tooShort(); break;
        case 3: bad(); break;
        default: prev(); break;
    }
}
