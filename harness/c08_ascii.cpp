#include "common.h"
#include <pdfmm/base/PdfFilter.h>
// run a filter over s cut at the given places
static string run(PdfFilterType t, bool enc, const string& s, size_t cut1, size_t cut2)
{
    string out; { StringStreamDevice dev(out); auto f = PdfFilterFactory::Create(t);
    if (enc) f->BeginEncode(dev); else f->BeginDecode(dev);
    auto blk = [&](size_t a, size_t b) { bufferview v(s.data() + a, b - a); if (enc) f->EncodeBlock(v); else f->DecodeBlock(v); };
    blk(0, cut1); blk(cut1, cut2); blk(cut2, s.size());
    if (enc) f->EndEncode(); else f->EndDecode(); }
    return out;
}
static string hexRef(const string& s) { string r; for (unsigned char c : s) { r.push_back("0123456789ABCDEF"[c >> 4]); r.push_back("0123456789ABCDEF"[c & 15]); } return r; }
static string lower(string s) { for (char& c : s) c = (char)((c >= 'A' && c <= 'F') ? c + 32 : c); return s; }
static string enc85(const string& s)
{
    string r;
    for (size_t i = 0; i < s.size(); i += 4)
    {
        uint32_t v = 0; unsigned n = 0;
        for (size_t j = i; j < i + 4; j++) { v = v << 8 | (j < s.size() ? (unsigned char)s[j] : 0); n += j < s.size(); }
        if (n == 4 && v == 0) { r.push_back('z'); continue; }
        char d[5]; for (int k = 4; k >= 0; k--) { d[k] = (char)('!' + v % 85); v /= 85; }
        r.append(d, n + 1);
    }
    return r;
}
static void encode(PdfFilterType t, unsigned n)
{
    string s = symBytes("data", n);
    if (t == PdfFilterType::ASCII85Decode)                 // divisions by 85: the solver decides them for one symbolic byte
    {
        static const unsigned char B[] = { 0, 0xFF, 'a', 1, 0x80 };
        unsigned k = (unsigned)__sx_pin(rng("where", 0, n < 4 ? (n ? n - 1 : 0) : 3));
        for (unsigned i = 0; i < n; i++) if (i % 4 != k || i >= 4) s[i] = (char)B[__sx_pin(rng("byte", 0, i < 4 ? 2 : 0))];
    }
    size_t c1 = __sx_pin(rng("cut", 0, n));
    string e = run(t, true, s, c1, n);
    if (t == PdfFilterType::ASCIIHexDecode) SX_ASSERT(lower(e) == lower(hexRef(s)), "hexadecimal encoding has two digits per byte");
    else SX_ASSERT(e == enc85(s) || e == enc85(s) + "~>", "base-85 encoding follows the specification");
    size_t c2 = __sx_pin(rng("cut2", 0, e.size()));
    SX_ASSERT(run(t, false, e, c2, e.size()) == s, "decoding an encoding returns the data");
    SX_ASSERT(run(t, false, e + (t == PdfFilterType::ASCIIHexDecode ? ">" : "~>"), c2, e.size()) == s, "decoding an encoding with its end marker returns the data");
    charbuff whole, back; auto f = PdfFilterFactory::Create(t);
    f->EncodeTo(whole, bv(s)); SX_ASSERT(string(whole.data(), whole.size()) == e, "encoding does not depend on how the data is cut");
    f->DecodeTo(back, bv(e)); SX_ASSERT(string(back.data(), back.size()) == s, "decoding at once returns the data");
    __sx_reach("inverse");
}
// result of the reference: 0 data, 1 error, 2 outside the claim
static int hexDec(const string& s, string& r)
{
    int hi = -1;
    for (unsigned char c : s)
    {
        if (isWs(c)) continue;
        if (c == '>') break;
        int h = hexVal(c); if (h < 0) return 1;
        if (hi < 0) hi = h; else { r.push_back((char)(hi * 16 + h)); hi = -1; }
    }
    if (hi >= 0) r.push_back((char)(hi * 16));
    return 0;
}
static int dec85(const string& s, string& r)
{
    uint32_t v = 0; unsigned n = 0, first = 0; static const uint32_t P[] = { 52200625, 614125, 7225, 85, 1 };
    for (size_t i = 0; i < s.size(); i++)
    {
        unsigned char c = s[i];
        if (isWs(c)) continue;
        if (c == 8 || c == 127) return 2;                 // tolerated by the library, not white space in the specification
        if (c == '~') { if (i + 1 < s.size() && s[i + 1] != '>') return 1; if (i + 1 == s.size()) return 2; break; }
        if (c == 'z') { if (n) return 1; r.append(4, '\0'); continue; }
        if (c < '!' || c > 'u') return 1;
        if (n == 0) { if (c > 's') return 2; first = c; }       // more than 32 bits
        if (n == 1 && first == 's' && c >= '8') return 2;
        v += (s[i] - '!') * P[n++];
        if (n == 5) { for (int k = 24; k >= 0; k -= 8) r.push_back((char)(v >> k)); v = 0; n = 0; }
    }
    if (n) return 2;                                       // final partial groups: as produced by an encoder, see encode()
    return 0;
}
static void decode(PdfFilterType t, const string& s)
{
    string ref; int rc = t == PdfFilterType::ASCIIHexDecode ? hexDec(s, ref) : dec85(s, ref);
    if (rc == 2) __sx_end();
    size_t cut = __sx_pin(rng("cut", 0, s.size()));
    string out; bool err = false;
    try { out = run(t, false, s, cut, s.size()); } catch (const PdfError&) { err = true; }
    SX_ASSERT(err == (rc == 1), "decoding rejects exactly invalid characters");
    if (!err) { SX_ASSERT(out == ref, "decoding yields the bytes the specification defines"); __sx_reach("decoded"); }
    else __sx_reach("rejected");
}
void sx_harness()
{
    PdfFilterType H = PdfFilterType::ASCIIHexDecode, A = PdfFilterType::ASCII85Decode;
    switch (__sx_range("case", 0, 9))
    {
        case 0: encode(H, (unsigned)__sx_pin(rng("n", 0, deep() ? 5 : 3))); break;
        case 1: encode(A, (unsigned)__sx_pin(rng("n", 0, 4))); break;
        case 2: encode(A, deep() ? 6 : 5); break;
        case 3: decode(H, symStr("enc", 0, 3)); break;
        case 4: decode(H, symBytes("enc", deep() ? 5 : 4)); break;
        case 5: decode(A, symStr("enc", 0, 3)); break;
        case 6: decode(A, symBytes("enc", deep() ? 5 : 4)); break;
        case 7: { static const char* picks[] = { "!!", "5s", "s7" }; string s = picks[(unsigned)__sx_pin(rng("p", 0, 2))] + symBytes("enc", 3); for (char c : s) __sx_assume(c >= '!' && c <= 'u'); decode(A, s + (sx_bool("eod") ? "~>" : "")); break; }
        case 8: { string s = symBytes("enc", 3); unsigned at = (unsigned)__sx_pin(rng("at", 0, 3)); decode(A, "87cURD]" + s.substr(0, at) + "~>" + s.substr(at)); break; }
        default: { string s = symBytes("enc", 3); unsigned at = (unsigned)__sx_pin(rng("at", 0, 3)); decode(H, "4142" + s.substr(0, at) + ">" + s.substr(at)); break; }
    }
}
