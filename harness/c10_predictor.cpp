#include "zmodel.h"
#include <pdfmm/base/PdfFilter.h>
struct Geo { unsigned colors, bpc, cols; unsigned bpp() const { unsigned b = colors * bpc; return b < 8 ? 1 : (b + 7) / 8; } unsigned row() const { return (colors * bpc * cols + 7) / 8; } };
static unsigned paeth(int a, int b, int c)
{
    int p = a + b - c, pa = p > a ? p - a : a - p, pb = p > b ? p - b : b - p, pc = p > c ? p - c : c - p;
    return (unsigned)((pa <= pb && pa <= pc) ? a : pb <= pc ? b : c);
}
// the PNG filter of one row (PNG specification, 9.2)
static string filt(unsigned f, const string& cur, const string& up, unsigned bpp)
{
    string r;
    for (size_t x = 0; x < cur.size(); x++)
    {
        unsigned a = x >= bpp ? (unsigned char)cur[x - bpp] : 0, b = (unsigned char)up[x], c = x >= bpp ? (unsigned char)up[x - bpp] : 0;
        unsigned p = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : paeth((int)a, (int)b, (int)c);
        r.push_back((char)((unsigned char)cur[x] - p));
    }
    return r;
}
static PdfDictionary parms(unsigned pred, const Geo& g)
{
    PdfDictionary d; d.AddKey("Predictor", PdfObject((int64_t)pred)); d.AddKey("Colors", PdfObject((int64_t)g.colors));
    d.AddKey("BitsPerComponent", PdfObject((int64_t)g.bpc)); d.AddKey("Columns", PdfObject((int64_t)g.cols)); return d;
}
static string decode(const string& z, size_t cut, const PdfDictionary& d)
{
    string out; { StringStreamDevice dev(out); auto f = PdfFilterFactory::Create(PdfFilterType::FlateDecode);
    f->BeginDecode(dev, &d); f->DecodeBlock(bufferview(z.data(), cut)); f->DecodeBlock(bufferview(z.data() + cut, z.size() - cut)); f->EndDecode(); }
    return out;
}
static void png(const Geo& g, unsigned rows, unsigned lo, unsigned hi, unsigned cuts)
{
    string up(g.row(), '\0'), all, data;
    for (unsigned r = 0; r < rows; r++)
    {
        string cur = symBytes("row", g.row());
        unsigned f = (unsigned)__sx_pin(rng("filter", lo, hi));
        data.push_back((char)f); data += filt(f, cur, up, g.bpp());
        all += cur; up = cur;
    }
    string z = zstored(data); size_t cut = cuts ? 7 + __sx_pin(rng("cut", 0, data.size())) : z.size();
    string out = decode(z, cut, parms(10 + (unsigned)__sx_pin(rng("pred", 0, cuts ? 0 : 5)), g));
    SX_ASSERT(out == all, "decoding predicted rows restores them");
    __sx_reach("png");
}
static Geo geo(unsigned n)
{
    static const Geo G[] = { { 1, 8, 3 }, { 3, 8, 1 }, { 1, 1, 10 }, { 1, 4, 3 }, { 1, 16, 2 }, { 3, 4, 1 }, { 2, 8, 2 }, { 1, 2, 5 }, { 4, 1, 2 }, { 3, 8, 2 }, { 4, 8, 1 }, { 2, 16, 1 }, { 3, 1, 3 }, { 1, 8, 1 } };
    return G[__sx_pin(rng("geometry", 0, n - 1))];
}
static void tiff()
{
    static const Geo G[] = { { 1, 8, 3 }, { 3, 8, 2 }, { 2, 8, 2 }, { 4, 8, 1 }, { 1, 8, 1 } };
    Geo g = G[__sx_pin(rng("geometry", 0, 4))];
    string all, data;
    for (unsigned r = 0; r < 2; r++) { string cur = symBytes("row", g.row()); data += filt(1, cur, cur, g.bpp()); all += cur; }
    string z = zstored(data);
    string out = decode(z, 7 + __sx_pin(rng("cut", 0, data.size())), parms(2, g));
    SX_ASSERT(out == all, "decoding TIFF predicted rows restores them");
    __sx_reach("tiff");
}
static void none()
{
    string data = symStr("data", 0, 4), z = zstored(data);
    Geo g = geo(4);
    SX_ASSERT(decode(z, 7 + __sx_pin(rng("cut", 0, data.size())), parms(1, g)) == data, "data without predictor is unchanged");
}
void sx_harness()
{
    switch (__sx_range("case", 0, 6))
    {
        case 0: png(geo(14), deep() ? 4 : 3, 0, 2, 0); break;
        case 1: png(geo(14), deep() ? 4 : 3, 3, 3, 0); break;
        case 2: png(geo(14), deep() ? 2 : 1, 4, 4, 0); break;
        case 3: { static const Geo G[] = { { 1, 8, 2 }, { 2, 8, 1 }, { 1, 4, 3 }, { 1, 8, 3 } }; png(G[__sx_pin(rng("geometry", 0, deep() ? 3 : 2))], 2, 4, 4, 1); break; }
        case 4: png({ 1, 8, 2 }, deep() ? 3 : 2, 0, 4, 1); break;
        case 5: tiff(); break;
        default: none(); break;
    }
}
