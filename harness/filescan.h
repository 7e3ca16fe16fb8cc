#pragma once
// Independent reading of the structure of a file the library wrote: header, end, cross-reference data and the
// places it points at.  Object texts themselves are left to the loader.
#include "values.h"
#include "zmodel.h"
#include <map>
#include <set>
#include <pdfmm/base/PdfFilter.h>
#ifdef SX_SYM
// The file identifier is a digest of the information dictionary: any value serves.
#include <openssl/md5.h>
extern "C" {
int MD5_Init(MD5_CTX*) { return 1; }
int MD5_Update(MD5_CTX*, const void*, size_t) { return 1; }
int MD5_Final(unsigned char* d, MD5_CTX*) { for (int i = 0; i < 16; i++) d[i] = (unsigned char)(17 * i + 5); return 1; }
}
#endif
struct FileScan
{
    struct Row { bool used; size_t off; unsigned gen; };
    std::map<unsigned, Row> rows;            // this section only
    size_t start = 0, size = 0; long prev = -1; string trailer; bool stream = false;
};
static size_t digits(const string& s, size_t& i) { size_t v = 0, n = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9' && n < 10) { v = v * 10 + (s[i] - '0'); i++; n++; } SX_ASSERT(n > 0, "the file has a number where its structure needs one"); return v; }
static void expectText(const string& s, size_t& i, const char* t) { size_t n = strlen(t); SX_ASSERT(i + n <= s.size() && memcmp(s.data() + i, t, n) == 0, "the file structure is spelled as specified"); i += n; }
static size_t startxref(const string& s, size_t& where)
{
    size_t n = s.size();
    SX_ASSERT(n > 20 && memcmp(s.data() + n - 6, "%%EOF\n", 6) == 0, "the file ends with the end-of-file marker");
    where = s.rfind("startxref\n", n - 6);
    SX_ASSERT(where != string::npos, "the end names the cross-reference section");
    size_t i = where + 10, v = digits(s, i); expectText(s, i, "\n");
    SX_ASSERT(i + 6 == n, "the end-of-file marker follows the offset at once");
    return v;
}
static long keyNumber(const string& dict, const char* key)
{
    size_t i = dict.rfind(key); if (i == string::npos) return -1;
    i += strlen(key); while (i < dict.size() && dict[i] == ' ') i++;
    return (long)digits(dict, i);
}
// reads the section the end of the file names and checks everything the cross-reference data claims
static FileScan scan(const string& s)
{
    FileScan f; size_t tail; f.start = startxref(s, tail);
    SX_ASSERT(f.start < tail, "the cross-reference offset lies in the file");
    if (s[f.start] == 'x')
    {
        size_t i = f.start; expectText(s, i, "xref\n");
        while (s[i] != 't')
        {
            size_t first = digits(s, i); expectText(s, i, " "); size_t count = digits(s, i); expectText(s, i, "\n");
            for (size_t k = 0; k < count; k++)
            {
                SX_ASSERT(i + 20 <= s.size(), "the table is complete");
                size_t p = i; FileScan::Row r; r.off = digits(s, p); SX_ASSERT(p == i + 10 && s[p] == ' ', "an entry has ten digits of offset"); p++;
                r.gen = (unsigned)digits(s, p); SX_ASSERT(p == i + 16 && s[p] == ' ', "an entry has five digits of generation");
                SX_ASSERT(s[i + 17] == 'n' || s[i + 17] == 'f', "an entry is in use or free"); r.used = s[i + 17] == 'n';
                SX_ASSERT((s[i + 18] == ' ' || s[i + 18] == '\r') && s[i + 19] == '\n', "an entry has twenty bytes");
                SX_ASSERT(f.rows.emplace(first + k, r).second, "a section names a number once"); i += 20;
            }
        }
        expectText(s, i, "trailer\n"); f.trailer = s.substr(i, tail - i);
    }
    else
    {
        // the dictionary and the data of the cross-reference stream (written with the fields 1, 4, 2)
        f.stream = true;
        size_t d = s.find("stream\n", f.start); SX_ASSERT(d != string::npos && d < tail, "the cross-reference stream has data");
        f.trailer = s.substr(f.start, d - f.start);
        size_t data = d + 7;
        string body;
        if (f.trailer.find("/FlateDecode") != string::npos)
        {
            charbuff b; PdfFilterFactory::Create(PdfFilterType::FlateDecode)->DecodeTo(b, bv(s.substr(data, (size_t)keyNumber(f.trailer, "/Length")))); body.assign(b.data(), b.size());
        }
        else body = s.substr(data, (size_t)keyNumber(f.trailer, "/Length"));
        size_t w = f.trailer.find("/W"); SX_ASSERT(w != string::npos, "the widths of the fields are given");
        w = f.trailer.find('[', w) + 1; unsigned width[3]; for (auto& x : width) { while (isWs(f.trailer[w])) w++; x = (unsigned)digits(f.trailer, w); }
        size_t ix = f.trailer.find("/Index"); SX_ASSERT(ix != string::npos, "the sections are listed"); ix = f.trailer.find('[', ix) + 1;
        size_t at = 0;
        while (true)
        {
            while (isWs(f.trailer[ix])) ix++;
            if (f.trailer[ix] == ']') break;
            size_t first = digits(f.trailer, ix); while (isWs(f.trailer[ix])) ix++; size_t count = digits(f.trailer, ix);
            for (size_t k = 0; k < count; k++)
            {
                size_t v[3]; for (unsigned j = 0; j < 3; j++) { v[j] = 0; for (unsigned q = 0; q < width[j]; q++) { SX_ASSERT(at < body.size(), "the data covers all entries"); v[j] = v[j] << 8 | (unsigned char)body[at++]; } }
                SX_ASSERT(v[0] <= 1, "an entry is in use or free");
                SX_ASSERT(f.rows.emplace(first + k, FileScan::Row{ v[0] == 1, v[1], (unsigned)v[2] }).second, "a section names a number once");
            }
        }
        SX_ASSERT(at == body.size(), "the data holds no more than the entries");
    }
    long sz = keyNumber(f.trailer, "/Size"); SX_ASSERT(sz > 0, "the trailer has a size"); f.size = (size_t)sz;
    f.prev = keyNumber(f.trailer, "/Prev");
    size_t freeCount = 0;
    for (auto& r : f.rows)
    {
        SX_ASSERT(r.first < f.size, "the size exceeds every object number");
        if (!r.second.used) { freeCount++; continue; }
        string head = std::to_string(r.first) + " " + std::to_string(r.second.gen) + " obj";
        SX_ASSERT(s.compare(r.second.off, head.size(), head) == 0, "every offset points at the object it names");
    }
    // the free entries form one list that starts and ends at 0
    SX_ASSERT(f.rows.count(0) && !f.rows[0].used && f.rows[0].gen == 65535, "entry 0 heads the list of free objects");
    size_t at = 0, steps = 0;
    do { auto it = f.rows.find((unsigned)at); SX_ASSERT(it != f.rows.end() && !it->second.used, "the free list leads from free entry to free entry"); at = it->second.off; steps++; } while (at != 0 && steps <= freeCount);
    SX_ASSERT(steps == freeCount, "the free list holds each free entry once");
    return f;
}
// contents of one object: its value without the keys that describe the encoding, and its decoded stream
struct Content { string value, data; bool stream; unsigned gen; bool dirty; };
static Content contentOf(const PdfObject& o)
{
    Content c; c.dirty = o.IsDirty(); c.gen = o.GetIndirectReference().GenerationNumber(); c.stream = o.HasStream();
    if (c.stream)
    {
        charbuff b = o.MustGetStream().GetCopy(); c.data.assign(b.data(), b.size());
        PdfDictionary d(o.GetDictionary()); d.RemoveKey("Length"); d.RemoveKey("Filter"); d.RemoveKey("DecodeParms"); c.value = show(PdfVariant(d));
    }
    else c.value = show(o.GetVariant());
    return c;
}
static std::map<unsigned, Content> contents(const PdfDocument& d)
{
    std::map<unsigned, Content> m; for (auto o : d.GetObjects()) m[o->GetIndirectReference().ObjectNumber()] = contentOf(*o); return m;
}
static void same(const std::map<unsigned, Content>& want, const std::map<unsigned, Content>& got)
{
    SX_ASSERT(want.size() == got.size(), "the file holds exactly the objects of the document");
    auto g = got.begin();
    for (auto& w : want)
    {
        SX_ASSERT(g->first == w.first && g->second.gen == w.second.gen, "every object keeps its number and generation");
        SX_ASSERT(g->second.value == w.second.value, "every object loads with the value it had");
        SX_ASSERT(g->second.stream == w.second.stream && g->second.data == w.second.data, "every stream loads with the contents it had");
        ++g;
    }
}
