#include "zmodel.h"
#include "common.h"
#include <pdfmm/base/PdfXRef.h>
#include <pdfmm/base/PdfXRefStream.h>
#include <pdfmm/base/PdfWriter.h>
#include <pdfmm/base/PdfParser.h>
#include <pdfmm/base/PdfParserObject.h>
#include <map>
// ---- a set of used and freed numbers, given to the writer in any order
struct Item { unsigned num; bool free; uint64_t off; unsigned gen; bool counted; };   // counted: only counted in /Size
struct Row { bool free; uint64_t a; unsigned gen; };
static const uint64_t OFF[] = { 1, 254, 65534, 0x7FFFFFFE, 0xFFFFFFFE, 9999999996ull, 0x7FFFFFFFFFull };
static Item item(unsigned num, bool sym, bool few)
{
    Item it; it.num = num; it.counted = false; it.off = 0;
    unsigned kind = __sx_pin(rng("kind", 0, 2));
    it.free = kind == 1; it.counted = kind == 2;
    if (!it.free && !it.counted) it.off = OFF[few ? 3 * __sx_pin(rng("off", 0, 2)) : __sx_pin(rng("off", 0, 6))] + (sym ? rng("offset", 0, 3) : 1 + 2 * few);
    static const unsigned G[] = { 0, 1, 65534 };
    static const unsigned GB[] = { 0, 254, 65531 };
    it.gen = sym ? GB[__sx_pin(rng("genbase", 0, 2))] + rng("gen", 0, 3) : G[few ? 2 * __sx_pin(rng("gen", 0, 1)) : __sx_pin(rng("gen", 0, 2))];
    return it;
}
// ---- the text of a section as the specification defines it
struct Sec { std::map<unsigned, Row> rows; size_t end; };
static unsigned long long dec(const string& s, size_t at, size_t n)
{
    unsigned long long v = 0;
    for (size_t i = 0; i < n; i++) { SX_ASSERT(s[at + i] >= '0' && s[at + i] <= '9', "numbers of entries have fixed width"); v = v * 10 + (s[at + i] - '0'); }
    return v;
}
static Sec readTable(const string& s, size_t at)
{
    Sec r;
    SX_ASSERT(s.compare(at, 5, "xref\n") == 0, "the section starts with its keyword");
    at += 5; unsigned next = 0;
    while (s.compare(at, 7, "trailer") != 0)
    {
        size_t sp = s.find(' ', at), nl = s.find('\n', at);
        SX_ASSERT(sp != string::npos && nl != string::npos && sp < nl, "a subsection starts with two numbers");
        unsigned first = dec(s, at, sp - at), count = dec(s, sp + 1, nl - sp - 1); at = nl + 1;
        SX_ASSERT(first >= next, "subsections ascend and do not overlap");
        for (unsigned i = 0; i < count; i++, at += 20)
        {
            SX_ASSERT(at + 20 <= s.size() && s[at + 10] == ' ' && s[at + 16] == ' ' && s[at + 18] == ' ' && s[at + 19] == '\n' && (s[at + 17] == 'n' || s[at + 17] == 'f'), "entries have their fixed format");
            r.rows[first + i] = Row{ s[at + 17] == 'f', dec(s, at, 10), (unsigned)dec(s, at + 11, 5) };
        }
        next = first + count;
    }
    r.end = at;
    return r;
}
static Sec readStream(const string& s, size_t at)
{
    Sec r; r.end = at;
    auto dev = devOf(s.substr(at));
    PdfParserObject o(*dev); o.Parse(); o.ParseStream();
    auto& d = o.GetDictionary();
    auto& w = d.MustFindKey("W").GetArray(); auto& ix = d.MustFindKey("Index").GetArray();
    SX_ASSERT(d.MustFindKey("Type").GetName() == "XRef" && w.size() == 3 && ix.size() % 2 == 0, "the stream has the keys of a cross-reference stream");
    charbuff data = o.MustGetStream().GetCopy();
    unsigned W[3]; for (int i = 0; i < 3; i++) W[i] = (unsigned)w[i].GetNumber();
    size_t p = 0; unsigned next = 0;
    auto f = [&](unsigned n) { uint64_t v = 0; while (n--) v = v << 8 | (unsigned char)data[p++]; return v; };
    for (unsigned k = 0; k < ix.size(); k += 2)
    {
        unsigned first = ix[k].GetNumber(), count = ix[k + 1].GetNumber();
        SX_ASSERT(first >= next, "subsections ascend and do not overlap");
        for (unsigned i = 0; i < count; i++)
        {
            SX_ASSERT(p + W[0] + W[1] + W[2] <= data.size(), "the data holds every entry");
            uint64_t t = f(W[0]), a = f(W[1]), g = f(W[2]);
            SX_ASSERT(t == 0 || t == 1, "entries are free or in use");
            r.rows[first + i] = Row{ t == 0, a, (unsigned)g };
        }
        next = first + count;
    }
    SX_ASSERT(p == data.size(), "the data holds exactly the entries");
    return r;
}
static void section(bool stream)
{
    unsigned n = __sx_pin(rng("n", 1, deep() ? 4 : 3));
    bool sym = stream && n <= (deep() ? 2 : 1), incremental = __sx_pin(rng("incremental", 0, 1));
    PdfMemDocument doc; auto& objs = doc.GetObjects();
    PdfObject trailer;
    PdfWriter w(objs, trailer);
    if (incremental) w.SetIncrementalUpdate(false);
    if (__sx_pin(rng("flate", 0, 1)) == 0) w.SetSaveOptions(PdfSaveOptions::NoFlateCompress);
    unsigned own = 0;
    std::unique_ptr<PdfXRef> x;
    if (stream)
    {
        x.reset(new PdfXRefStream(w));
        for (auto o : objs) if (x->ShouldSkipWrite(o->GetIndirectReference())) own = o->GetIndirectReference().ObjectNumber();
        SX_ASSERT(own != 0, "the stream is an object of its own");
    }
    else x.reset(new PdfXRef(w));
    // numbers in any order (the writer itself adds them in ascending order, used ones first)
    vector<Item> items; unsigned used = 0;
    static const unsigned NUM[] = { 1, 2, 3, 5, 6, 9 };
    bool anyOrder = n <= 3;
    unsigned last = 0;
    for (unsigned i = 0; i < n; i++)
    {
        unsigned k = __sx_pin(rng("num", anyOrder ? 0 : last, 5));
        if (used >> k & 1) __sx_end();
        used |= 1u << k; last = k;
        Item it;
        if (n <= 2) it = item(NUM[k], sym, n == 2 && !deep());
        else { unsigned kind = __sx_pin(rng("kind", 0, 2)); it = Item{ NUM[k], kind == 1, kind == 0 ? 100u + k : 0u, k, kind == 2 }; }
        if (it.num == own) __sx_end();
        items.push_back(it);
    }
    unsigned max = own; bool fits = true;
    for (auto& it : items)
    {
        PdfReference r(it.num, it.gen);
        if (it.num > max) max = it.num;
        if (it.free) x->AddFreeObject(r);
        else if (it.counted) x->AddInUseObject(r, nullptr);
        else { x->AddInUseObject(r, it.off); if (it.off > 9999999999ull) fits = false; }
    }
    if (stream) { x->AddInUseObject(PdfReference(own, 0), 0xFFFFFFFF); fits = true; }
    bool any = stream; for (auto& it : items) if (!it.counted) any = true;
    if (incremental) { x->SetFirstEmptyBlock(); any = true; }
    if (!any) __sx_end();
    string out = "%PDF-1.7\n"; size_t start = out.size();
    string prefix = out;
    {
        StringStreamDevice dev(out, DeviceAccess::Write, true);
        charbuff buf;
        dev.Seek(0, SeekDirection::End);
        if (!fits)
        {
            try { x->Write(dev, buf); SX_ASSERT(false, "an offset that does not fit is refused"); } catch (PdfError&) { }
            __sx_reach("refused"); return;
        }
        x->Write(dev, buf);
    }
    SX_ASSERT(out.compare(0, start, prefix) == 0 && x->GetOffset() == start, "the section is written at its offset");
    SX_ASSERT(x->GetSize() == max + 1, "the size is one more than the highest number");
    Sec sec = stream ? readStream(out, start) : readTable(out, start);
    __sx_reach(stream ? "stream" : "table");
    // every entry, exactly
    unsigned listed = 0;
    for (auto& it : items)
    {
        auto f = sec.rows.find(it.num);
        if (it.counted) { SX_ASSERT(f == sec.rows.end(), "a number without offset is not listed"); continue; }
        SX_ASSERT(f != sec.rows.end() && f->second.free == it.free && f->second.gen == it.gen, "every number is listed with its kind and generation");
        if (!it.free) SX_ASSERT(f->second.a == it.off, "every used number has its exact offset");
        listed++;
    }
    if (stream) { auto f = sec.rows.find(own); SX_ASSERT(f != sec.rows.end() && !f->second.free && f->second.a == start && f->second.gen == 0, "the stream lists itself"); listed++; }
    SX_ASSERT(sec.rows.size() == listed + 1, "nothing else is listed");
    // one closed chain of free entries
    SX_ASSERT(sec.rows.count(0) && sec.rows[0].free && sec.rows[0].gen == 65535, "object 0 is the head of the free list");
    unsigned at = 0, seen = 0;
    do
    {
        SX_ASSERT(sec.rows.count(at) && sec.rows[at].free, "the chain links free entries");
        at = (unsigned)sec.rows[at].a; seen++;
    } while (at != 0 && seen < 10);
    unsigned frees = 0; for (auto& r : sec.rows) frees += r.second.free;
    SX_ASSERT(at == 0 && seen == frees, "the free entries form one closed chain");
    SX_ASSERT(out.find("/Size " + std::to_string(max + 1)) != string::npos, "the trailer has the size");
    // read back by the library
    PdfMemDocument doc2; auto& objs2 = doc2.GetObjects(); objs2.Clear();
    auto in = devOf(out);
    PdfParser parser(objs2);
    parser.Parse(*in, true);
    unsigned count = 0;
    for (auto& it : items)
    {
        if (it.counted) continue;
        if (it.free)
        {
            SX_ASSERT(objs2.GetObject(PdfReference(it.num, it.gen)) == nullptr, "a freed number has no object");
            bool in = false; for (auto& f : objs2.GetFreeObjects()) if (f.ObjectNumber() == it.num) { in = true; SX_ASSERT(f.GenerationNumber() == it.gen, "a freed number keeps its next generation"); }
            SX_ASSERT(in, "a freed number is free again");
        }
        else
        {
            auto o = dynamic_cast<PdfParserObject*>(objs2.GetObject(PdfReference(it.num, it.gen)));
            SX_ASSERT(o != nullptr && (uint64_t)o->GetOffset() == it.off, "a used number is found at its offset");
            count++;
        }
    }
    SX_ASSERT(objs2.GetSize() == count + (stream ? 1 : 0), "no other object appears");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    section(__sx_range("case", 0, 1) != 0);
}
