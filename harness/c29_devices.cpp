#include "common.h"
#include <sstream>
// ---- reference: one byte sequence with a position
struct Ref { string s; size_t pos = 0; bool grow = true; };
struct Caps { bool read, write, seek, null, eof; };
static size_t small(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static bool failed(PdfErrorCode c) { return c == PdfErrorCode::ValueOutOfRange || c == PdfErrorCode::InvalidDeviceOperation; }
static void state(StreamDevice& d, const Ref& r, const Caps& c)
{
    SX_ASSERT(d.GetLength() == r.s.size(), "the length is that of the sequence");
    SX_ASSERT(d.GetPosition() == r.pos, "the position is that of the history");
    if (c.eof) SX_ASSERT(d.Eof() == (r.pos == r.s.size()), "the end is where the sequence ends");
}
static void op(StreamDevice& d, Ref& r, const Caps& c, unsigned k, bool clean)
{
    size_t rest = r.s.size() - r.pos;
    char buf[8]; memset(buf, 0x55, 8);
    auto data = [&](const char* got, size_t n) { if (c.null) return; for (size_t i = 0; i < n; i++) SX_ASSERT(got[i] == r.s[r.pos + i], "reads return what is there"); for (size_t i = n; i < 8; i++) SX_ASSERT(got[i] == 0x55, "nothing else is written"); };
    switch (k)
    {
        case 0:
        {
            size_t n = small("n", 4); bool eof = false;
            try
            {
                size_t got = d.Read(buf, n, eof);
                SX_ASSERT(c.read, "reading needs access");
                SX_ASSERT(got == (n < rest ? n : rest), "as much as asked for is read, or all there is");
                if (c.eof) SX_ASSERT(eof == (r.pos + got == r.s.size()), "end of input is told"); else SX_ASSERT(eof == (r.pos + got == r.s.size()) || n == 0, "end of input is told");
                data(buf, got); r.pos += got;
            }
            catch (PdfError& e) { SX_ASSERT(!c.read, "reading does not fail"); }
            break;
        }
        case 1:
        {
            size_t n = small("n", 4);
            try { d.Read(buf, n); SX_ASSERT(c.read && n <= rest, "reading more than there is fails"); data(buf, n); r.pos += n; }
            catch (PdfError& e) { SX_ASSERT(!c.read || (n > rest && e.GetError() == PdfErrorCode::UnexpectedEOF), "reading what is there does not fail"); if (c.read) r.pos = r.s.size(); }
            break;
        }
        case 2:
        {
            char ch = 0x55;
            try
            {
                bool ok = d.Read(ch);
                SX_ASSERT(c.read, "reading needs access");
                SX_ASSERT(ok == (rest != 0), "a character is read unless at the end");
                SX_ASSERT(ch == (ok && !c.null ? r.s[r.pos] : '\0'), "reads return what is there"); r.pos += ok;
            }
            catch (PdfError& e) { SX_ASSERT(!c.read, "reading does not fail"); }
            break;
        }
        case 3:
            try { char ch = d.ReadChar(); SX_ASSERT(c.read && rest != 0, "reading at the end fails"); if (!c.null) SX_ASSERT(ch == r.s[r.pos], "reads return what is there"); r.pos++; }
            catch (PdfError& e) { SX_ASSERT(!c.read || rest == 0, "reading what is there does not fail"); }
            break;
        case 4:
        {
            char ch = 0x55;
            try { bool ok = d.Peek(ch); SX_ASSERT(c.read, "peeking needs access"); SX_ASSERT(ok == (rest != 0) && ch == (ok && !c.null ? r.s[r.pos] : '\0'), "peeking returns the next character"); }
            catch (PdfError& e) { SX_ASSERT(!c.read, "peeking does not fail"); }
            break;
        }
        case 5:
        {
            unsigned wn = small("n", 3); string w = clean ? string("x\xff\0", wn) : symBytes("w", wn); bool fits = r.grow || w.size() <= rest;
            unsigned how = small("how", 1);
            try
            {
                if (how == 1 && w.size() == 1) d.Write(w[0]); else if (how == 1) d.Write(string_view(w)); else d.Write(w.data(), w.size());
                SX_ASSERT(w.empty() || (c.write && fits), "writing needs access and room");
                if (w.empty()) break;
                if (r.pos + w.size() > r.s.size()) r.s.resize(r.pos + w.size());
                r.s.replace(r.pos, w.size(), w); r.pos += w.size();
            }
            catch (PdfError& e) { SX_ASSERT(!c.write || (!fits && e.GetError() == PdfErrorCode::ValueOutOfRange), "writing does not fail"); }
            break;
        }
        case 6:
        {
            int64_t off = symVal<int64_t>("off"); auto dir = (SeekDirection)small("dir", 2); bool abs = dir == SeekDirection::Begin && !clean && small("abs", 1);
            static const int64_t O[] = { 0, -1, 1, -5, 5, 3, -3 }; if (clean) off = O[small("soff", 6)];
            size_t base = dir == SeekDirection::Begin ? 0 : dir == SeekDirection::Current ? r.pos : r.s.size();
            bool ok = off < 0 ? (uint64_t)-(off + 1) + 1 <= base : (uint64_t)off <= r.s.size() - base;
            try { if (abs) d.Seek((size_t)off); else d.Seek((ssize_t)off, dir); SX_ASSERT(c.seek && ok, "seeking outside fails"); r.pos = base + off; }
            catch (PdfError& e) { SX_ASSERT(!c.seek || (!ok && failed(e.GetError())), "seeking inside does not fail"); if (clean) __sx_end(); }
            break;
        }
        default:
        {
            string out; StringStreamDevice o(out); size_t n = small("n", 5); bool all = n == 5;
            try
            {
                if (all) d.CopyTo(o); else d.CopyTo(o, n);
                SX_ASSERT(c.read, "copying needs access");
                size_t want = all || n > rest ? rest : n;
                SX_ASSERT(out.size() == want && (c.null || out == r.s.substr(r.pos, want)), "copying gives what is there"); r.pos += want;
            }
            catch (PdfError& e) { SX_ASSERT(!c.read, "copying does not fail"); }
        }
    }
}
static void history(StreamDevice& d, Ref& r, const Caps& c, unsigned n, bool clean = false, bool positions = true)
{
    if (positions) state(d, r, c);
    for (unsigned i = 0; i < n; i++) { op(d, r, c, small("op", 7), clean); if (positions) state(d, r, c); }
    __sx_reach("history");
}
static unsigned steps(unsigned q) { return q + deep(); }
static void span()
{
    unsigned n = small("len", 3); string s = symBytes("s", n); string store = "\xA5\xA5" + s + "\xA5\xA5";
    unsigned how = small("how", 2);
    Ref r; r.s = s; r.grow = false; Caps c{ true, how == 1, true, false, true };
    if (how == 2) { c.read = false; c.write = true; }
    std::unique_ptr<SpanStreamDevice> d;
    if (how == 0) d.reset(new SpanStreamDevice(bufferview(store.data() + 2, n)));
    else d.reset(new SpanStreamDevice(store.data() + 2, n, how == 1 ? DeviceAccess::ReadWrite : DeviceAccess::Write));
    history(*d, r, c, steps(2));
    SX_ASSERT(store.substr(2, n) == r.s && store.substr(0, 2) == "\xA5\xA5" && store.substr(2 + n) == "\xA5\xA5", "the span has what was written and nothing outside it changed");
}
template <typename T> static void container(unsigned q)
{
    unsigned n = small("len", 3); string s = symBytes("s", n); T t; t.resize(n); memcpy(t.data(), s.data(), n);
    unsigned how = small("how", 2);
    Ref r; r.s = s; Caps c{ true, how != 1, true, false, true };
    std::unique_ptr<ContainerStreamDevice<T>> d;
    if (how == 0) { d.reset(new ContainerStreamDevice<T>(t)); r.pos = n; if (small("rewind", 1)) { d->Seek(0); r.pos = 0; } }
    else if (how == 1) d.reset(new ContainerStreamDevice<T>((const T&)t));
    else d.reset(new ContainerStreamDevice<T>(t, DeviceAccess::ReadWrite, false));
    history(*d, r, c, steps(q));
    SX_ASSERT(t.size() == r.s.size() && memcmp(t.data(), r.s.data(), r.s.size()) == 0, "the container has what was written");
}
static void null()
{
    NullStreamDevice d; Ref r; Caps c{ true, true, d.CanSeek(), true, true };
    if (small("pre", 1)) { d.Write("abc"); r.s = "abc"; r.pos = 3; }
    history(d, r, c, steps(2));
}
// C++ streams: the data is fixed, the histories are all of them
static void standard()
{
    static const char* const S[] = { "", "a", "\xff\0b", "abcd" }; static const size_t L[] = { 0, 1, 3, 4 };
    unsigned k = deep() ? small("s", 3) : 3 * small("s", 1), how = small("how", 2); string s(S[k], L[k]); Ref r; r.s = s;
    if (how == 0)
    {
        std::istringstream in(s); StandardStreamDevice d((std::istream&)in);
        history(d, r, Caps{ true, false, true, false, false }, steps(2), true);
    }
    else if (how == 1)
    {
        std::ostringstream out; out << s; r.pos = s.size(); StandardStreamDevice d((std::ostream&)out);
        history(d, r, Caps{ false, true, true, false, false }, steps(2), true);
        SX_ASSERT(out.str() == r.s, "the stream has what was written");
    }
    else
    {
        // read, then write elsewhere, then read: with a seek in between, as C++ streams need
        std::stringstream io(s); StandardStreamDevice d((std::iostream&)io); Caps c{ true, true, true, false, false };
        for (unsigned i = 0; i < steps(2); i++) { op(d, r, c, small("op", 7), true); if (small("end", 1)) { d.Seek(0, SeekDirection::End); r.pos = r.s.size(); } else { d.Seek(0); r.pos = 0; } state(d, r, c); }
        SX_ASSERT(io.str() == r.s, "the stream has what was written");
        __sx_reach("both");
    }
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 5)) { case 0: span(); break; case 1: container<string>(2); break; case 2: container<vector<char>>(1); break; case 3: container<charbuff>(1); break; case 4: null(); break; default: standard(); break; }
}
