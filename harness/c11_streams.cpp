#include "zmodel.h"
#include <pdfmm/base/PdfParserObject.h>
#include <pdfmm/base/PdfFilter.h>
#include <pdfmm/base/PdfObjectStream.h>
// ---- filter chains
static const PdfFilterType HX = PdfFilterType::ASCIIHexDecode, A85 = PdfFilterType::ASCII85Decode, FL = PdfFilterType::FlateDecode;
static PdfFilterList chain(unsigned k)
{
    switch (k)
    {
        case 0: return { };
        case 1: return { HX };
        case 2: return { FL };
        case 3: return { FL, HX };
        case 4: return { HX, FL };
        case 5: return { HX, HX };
        case 6: return { A85 };
        case 7: return { FL, A85 };
        case 8: return { A85, HX };
        default: return { HX, FL, HX };
    }
}
static bool uses85(const PdfFilterList& c) { for (auto f : c) if (f == A85) return true; return false; }
static string bytes(unsigned n, bool pin)
{
    if (!pin) return symBytes("data", n);
    static const char P[] = { 'a', 0, (char)0xFF, (char)0x80, '>' };
    string s; for (unsigned i = 0; i < n; i++) s.push_back(P[__sx_pin(rng("byte", 0, 4))]); return s;
}
static string hexText(const string& s) { string r; for (unsigned char c : s) { r.push_back("0123456789abcdef"[c >> 4]); r.push_back("0123456789abcdef"[c & 15]); } return r; }
static string low(string s) { for (char& c : s) if (c >= 'A' && c <= 'F') c += 32; return s; }
static string str(const charbuff& b) { return string(b.data(), b.size()); }
// the dictionary's filter list is the chain in decode order
static void checkFilter(const PdfObject& o, const PdfFilterList& c)
{
    auto f = o.GetDictionary().FindKey("Filter");
    vector<string> got;
    if (f != nullptr) { if (f->IsName()) got.push_back(f->GetName().GetString()); else for (auto& e : f->GetArray()) got.push_back(e.GetName().GetString()); }
    SX_ASSERT(got.size() == c.size(), "the filter entry lists the chain");
    for (size_t i = 0; i < c.size(); i++) SX_ASSERT(got[i] == (c[i] == HX ? "ASCIIHexDecode" : c[i] == A85 ? "ASCII85Decode" : "FlateDecode"), "the filter entry lists the chain in decode order");
}
static string readAll(const PdfObjectStream& s, unsigned step)
{
    string r; auto in = s.GetInputStream(); char b[8]; bool eof = false;
    while (!eof) { size_t n = in.Read(b, step, eof); r.append(b, n); if (r.size() > 400) break; }
    return r;
}
static void put(PdfObjectStream& st, const string& d, const PdfFilterList& c, unsigned how)
{
    if (how == 0) st.SetData(bv(d), c);
    else if (how == 1) { SpanStreamDevice in(bv(d)); st.SetData(in, c); }
    else
    {
        size_t cut = __sx_pin(rng("cut", 0, d.size())), cut2 = how == 2 ? d.size() : cut + (d.size() - cut) / 2;
        auto out = st.GetOutputStream(c);
        out.Write(d.data(), cut); if (how == 3) out.Flush();
        out.Write(d.data() + cut, cut2 - cut); out.Write(d.data() + cut2, d.size() - cut2);
    }
}
static unsigned N() { return (unsigned)__sx_pin(rng("len", 0, deep() ? 4 : 2)); }
static void set()
{
    PdfFilterList c = chain((unsigned)__sx_pin(rng("chain", 0, 9)));
    string d = bytes(N(), uses85(c));
    PdfObject o((PdfDictionary()));
    auto& st = o.GetOrCreateStream();
    put(st, d, c, (unsigned)__sx_pin(rng("how", 0, 2)));
    SX_ASSERT(str(st.GetCopy()) == d, "data set through a filter chain reads back");
    SX_ASSERT(readAll(st, 1 + (unsigned)__sx_pin(rng("step", 0, 2)) * 2) == d, "reading in pieces gives the data");
    checkFilter(o, c);
    SX_ASSERT(st.GetFilters() == c, "the stream knows its filters");
    string raw = str(st.GetCopy(true));
    SX_ASSERT(st.GetLength() == raw.size(), "the length is the length of the raw data");
    if (c.size() == 0) SX_ASSERT(raw == d, "unfiltered data is stored as it is");
    if (c.size() == 1 && c[0] == HX) SX_ASSERT(low(raw) == hexText(d), "raw data is the encoded data");
    __sx_reach("set");
}
// histories of replacing, appending, copying and moving
static void history()
{
    bool p85 = deep();
    auto ch = [&](const char* n) { static const unsigned K[] = { 0, 1, 2, 3, 6 }; return chain(K[__sx_pin(rng(n, 0, p85 ? 4 : 3))]); };
    PdfFilterList c = ch("chain");
    string d = bytes(1, p85);
    PdfObject a((PdfDictionary()));
    a.GetOrCreateStream().SetData(bv(d), c);
    unsigned ops = deep() ? 3 : 2;
    std::unique_ptr<PdfObject> other; string od; PdfFilterList oc;
    for (unsigned i = 0; i < ops; i++)
    {
        switch (__sx_pin(rng("op", 0, 8)))
        {
            case 0: { c = ch("chain"); d = bytes(1, p85); a.GetOrCreateStream().SetData(bv(d), c); break; }
            case 1: { c = ch("chain"); string e = bytes(1, p85); { auto out = a.GetOrCreateStream().GetOutputStream(c, true); out.Write(e.data(), e.size()); } d += e; break; }
            case 2: { string e = bytes(1, p85); { auto out = a.GetOrCreateStream().GetOutputStreamRaw(true); out.Write(e.data(), e.size()); } c = { }; d += e; break; }
            case 3: { other.reset(new PdfObject(a)); od = d; oc = c; break; }
            case 4: { PdfObject m(std::move(a)); m.GetOrCreateStream(); auto& st = m.GetOrCreateStream(); SX_ASSERT(str(st.GetCopy()) == d, "a moved object has the stream's data");
                      string e = bytes(1, p85); c = ch("chain"); st.SetData(bv(e), c); d = e; checkFilter(m, c); SX_ASSERT(str(st.GetCopy()) == d, "the stream of a moved object can be set"); a = std::move(m); break; }
            case 5: { other.reset(new PdfObject((PdfDictionary()))); *other = a; od = d; oc = c; break; }
            case 6: { if (!other) __sx_end(); a = *other; d = od; c = oc; break; }
            case 7: { a.GetOrCreateStream().Unwrap(); c = { }; break; }
            default: { c = ch("chain"); d = bytes(1, p85); PdfObjectOutputStream out; out = a.GetOrCreateStream().GetOutputStream(c); PdfObjectOutputStream out2(std::move(out)); out2.Write(d.data(), d.size()); break; }
        }
    }
    SX_ASSERT(str(a.MustGetStream().GetCopy()) == d, "the data is what the history put there");
    checkFilter(a, c);
    if (other) { SX_ASSERT(str(other->MustGetStream().GetCopy()) == od, "a copy keeps its data"); checkFilter(*other, oc); }
    { PdfObjectInputStream in; in = a.MustGetStream().GetInputStream(); PdfObjectInputStream in2(std::move(in)); string r; char b[4]; bool eof = false; while (!eof && r.size() < 20) { size_t n = in2.Read(b, 3, eof); r.append(b, n); } SX_ASSERT(r == d, "a moved input stream reads the data"); }
    __sx_reach("history");
}
static string written(const PdfObject& o, PdfWriteFlags f) { string s; StringStreamDevice dev(s); charbuff b; o.Write(dev, f, nullptr, b); return s; }
static void write()
{
    PdfFilterList c = chain((unsigned)__sx_pin(rng("chain", 0, 9)));
    string d = bytes(N(), uses85(c));
    PdfObject o((PdfDictionary()));
    o.GetOrCreateStream().SetData(bv(d), c);
    static const PdfWriteFlags F[] = { PdfWriteFlags::None, PdfWriteFlags::Clean, PdfWriteFlags::NoFlateCompress, PdfWriteFlags::NoFlateCompress | PdfWriteFlags::Clean };
    PdfWriteFlags f = F[__sx_pin(rng("flags", 0, 3))];
    string s = written(o, f);
    size_t a = s.find("stream\n"), e = s.rfind("\nendstream");
    SX_ASSERT(a != string::npos && e != string::npos && a + 7 <= e, "a stream is written between its keywords");
    auto pv = parseVariant(s);
    SX_ASSERT(pv.GetDictionary().MustFindKey("Length").GetNumber() == (int64_t)(e - a - 7), "the written length is the number of bytes between the keywords");
    SX_ASSERT(str(o.MustGetStream().GetCopy()) == d, "writing does not change the data");
    auto dev = devOf("0 0 obj\n" + s + "endobj\n");
    PdfParserObject p(*dev); p.Parse(); p.ParseStream();
    SX_ASSERT(str(p.MustGetStream().GetCopy()) == d, "a written stream reads back as the same data");
    if (c.size()) checkFilter(p, c);
    if (c.size() == 0 && (f & PdfWriteFlags::NoFlateCompress) == PdfWriteFlags::NoFlateCompress) checkFilter(p, c);
    SX_ASSERT(written(o, f) == s, "writing twice gives the same text");
    // new data set on the loaded object
    string d2 = bytes(1, false);
    p.GetOrCreateStream().SetData(bv(d2), PdfFilterList{ HX });
    SX_ASSERT(str(p.MustGetStream().GetCopy()) == d2, "data set on a loaded stream reads back");
    __sx_reach("write");
}
// a loaded stream: line ends after the keyword, decode parameters
static void load()
{
    string d = symBytes("data", 2);
    static const char* const EOLN[] = { "\n", "\r\n", " \n", "\t\r\n" };
    unsigned kind = (unsigned)__sx_pin(rng("kind", 0, 6));
    string dict, raw; bool pred = false;
    switch (kind)
    {
        case 0: raw = d; break;
        case 1: raw = hexText(d); dict = "/Filter/ASCIIHexDecode"; break;
        case 2: raw = hexText(hexText(d)); dict = "/Filter[/ASCIIHexDecode /ASCIIHexDecode]"; break;
        case 3: raw = zstored(string(1, '\2') + d); dict = "/Filter/FlateDecode/DecodeParms<</Predictor 12/Columns 2>>"; pred = true; break;
        case 4: raw = hexText(zstored(string(1, '\2') + d)); dict = "/Filter[/ASCIIHexDecode /FlateDecode]/DecodeParms[null <</Predictor 12/Columns 2>>]"; pred = true; break;
        case 5: raw = zstored(string(1, '\2') + d); dict = "/Filter[/FlateDecode]/DecodeParms[<</Predictor 12/Columns 2>> <</Predictor 2>> null]"; pred = true; break;
        default: raw = hexText(zstored(d)); dict = "/Filter[/ASCIIHexDecode /FlateDecode]"; break;
    }
    string s = "0 0 obj<</Length " + std::to_string(raw.size()) + dict + ">>stream" + EOLN[__sx_pin(rng("eol", 0, 3))] + raw + "\nendstream endobj\n";
    auto dev = devOf(s);
    PdfParserObject p(*dev); p.Parse(); p.ParseStream();
    auto& st = p.GetOrCreateStream();
    SX_ASSERT(str(st.GetCopy(true)) == raw, "a loaded stream has exactly the bytes its length gives");
    SX_ASSERT(str(st.GetCopy()) == d, "a loaded stream decodes through its filters and parameters");
    switch (__sx_pin(rng("then", 0, 5)))
    {
        case 0: { string e = symBytes("new", 3); st.SetData(bv(e), PdfFilterList{ FL }); SX_ASSERT(str(st.GetCopy()) == e, "new data is not decoded with the old parameters"); break; }
        case 1: { string e = symBytes("new", 1); { auto o = st.GetOutputStream(PdfFilterList{ FL }, true); o.Write(e.data(), 1); } SX_ASSERT(str(st.GetCopy()) == d + e, "appended data is not decoded with the old parameters"); break; }
        case 2: { PdfObject c((PdfDictionary())); c = p; SX_ASSERT(str(c.MustGetStream().GetCopy()) == d, "a copy of a loaded stream decodes alike"); break; }
        case 3: { st.Unwrap(); SX_ASSERT(str(st.GetCopy()) == d && str(st.GetCopy(true)) == d && !p.GetDictionary().HasKey("Filter") && (!pred || !p.GetDictionary().HasKey("DecodeParms")), "unwrapping leaves the plain data"); break; }
        case 4: { string w = written(p, PdfWriteFlags::None); auto dev2 = devOf("0 0 obj\n" + w + "endobj\n"); PdfParserObject q(*dev2); q.Parse(); q.ParseStream(); SX_ASSERT(str(q.MustGetStream().GetCopy()) == d, "a loaded stream survives writing"); break; }
        default: { string e = symBytes("new", 3); st.SetData(bv(e), true); SX_ASSERT(str(st.GetCopy()) == e, "raw data replaces the filtered data"); break; }
    }
    __sx_reach("load");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 3)) { case 0: set(); break; case 1: history(); break; case 2: write(); break; default: load(); break; }
}
