// C21: dates convert to and from text without loss
#include "common.h"
#include <pdfmm/base/PdfDate.h>
#include <chrono>
using std::chrono::seconds; using std::chrono::minutes;
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }

static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int monthLen(int y, int m)
{
    static const int len[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return len[m - 1] + (m == 2 && leap(y) ? 1 : 0);
}
// days from 1970-01-01, for the years 0 to 9999
static long daysOf(int y, int m, int d)
{
    static const int before[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
    long days = 365L * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400;
    return days + before[m - 1] + (m > 2 && leap(y) ? 1 : 0) + d - 1 - 719528;
}

enum { Accept, Reject, Free };
struct Ref { int verdict; bool known; long secs; bool zone; int off; };
static bool dig(char c) { return c >= '0' && c <= '9'; }

struct Rd
{
    const string& t; size_t i = 0; bool trunc = false; bool bad = false;
    bool end() const { return i == t.size(); }
    int num(unsigned n, int lo, int hi)
    {
        int v = 0; unsigned k = 0;
        for (; k < n && !end() && dig(t[i]); k++, i++) v = v * 10 + (t[i] - '0');
        if (k == 0) { bad = true; return lo; }
        if (k < n) { trunc = true; return lo; }
        if (v < lo || v > hi) { bad = true; return lo; }
        return v;
    }
};
static void zone(Rd& r, Ref& o, bool w3c)
{
    char sign = r.t[r.i++];
    o.zone = true; o.off = 0;
    if (r.end()) { if (sign != 'Z') r.trunc = true; return; }
    if (w3c && sign == 'Z') r.trunc = true;     // digits after Z
    int h = r.num(2, 0, 23), m = 0;
    if (r.bad) return;
    if (!r.end() && r.t[r.i] == (w3c ? ':' : '\''))
    {
        r.i++;
        if (r.end()) { if (w3c) r.trunc = true; }
        else
        {
            m = r.num(2, 0, 59);
            if (r.bad) return;
            if (!w3c && !r.end() && r.t[r.i] == '\'') r.i++;
        }
    }
    else if (w3c) r.trunc = true;
    if (!r.end()) r.bad = true;
    if (sign == 'Z' && (h != 0 || m != 0)) r.trunc = true;
    o.off = (sign == '-' ? -1 : 1) * (h * 60 + m);
}
static Ref reference(const string& t, bool w3c)
{
    Ref o { Reject, false, 0, false, 0 };
    Rd r { t };
    int f[6] = { 0, 1, 1, 0, 0, 0 };
    static const int lo[6] = { 0, 1, 1, 0, 0, 0 }, hi[6] = { 9999, 12, 31, 23, 59, 59 };
    static const char sep[6] = { 0, '-', '-', 'T', ':', ':' };
    if (!w3c && !r.end() && t[0] == 'D')
    {
        r.i = 1;
        if (r.end() || t[1] != ':') return o;
        r.i = 2;
    }
    for (int k = 0; k < 6 && !r.bad; k++)
    {
        if (k != 0)
        {
            if (r.end()) break;
            char c = t[r.i];
            if ((c == 'Z' || c == '+' || c == '-') && (!w3c || k == 5)) { zone(r, o, w3c); break; }
            if (w3c) { if (c != sep[k]) { r.bad = true; break; } r.i++; }
        }
        f[k] = r.num(k == 0 ? 4 : 2, lo[k], hi[k]);
        if (w3c && k == 3 && !r.bad && r.end()) r.trunc = true;     // hours without minutes
        if (k == 5 && !r.bad && !r.end())
        {
            if (w3c && t[r.i] == '.')
            {
                r.i++;
                if (r.end() || !dig(t[r.i])) { r.bad = true; break; }
                while (!r.end() && dig(t[r.i])) r.i++;
                if (r.end()) break;
            }
            char c = t[r.i];
            if (c == 'Z' || c == '+' || c == '-') zone(r, o, w3c);
        }
    }
    if (r.bad || !r.end()) return o;
    if (w3c && r.i > 10 && !o.zone) r.trunc = true;     // W3C dates with a time need a time zone: not enforced
    o.verdict = r.trunc ? Free : Accept;
    // the day must exist for the date to denote something
    o.known = o.verdict == Accept;
    if (o.known && f[2] > monthLen(f[0], f[1])) { o.verdict = Free; o.known = false; }
    o.secs = daysOf(f[0], f[1], f[2]) * 86400 + f[3] * 3600 + f[4] * 60 + f[5];
    if (o.zone) o.secs -= o.off * 60L;
    return o;
}

// the text is followed by other digits that must not be read
static void check(const string& t, bool w3c)
{
    string buf = t + "0000";
    PdfDate d(seconds(77), minutes(7));
    bool ok = w3c ? PdfDate::TryParseW3C(string_view(buf.data(), t.size()), d) : PdfDate::TryParse(string_view(buf.data(), t.size()), d);
    Ref r = reference(t, w3c);
    if (r.verdict == Accept) SX_ASSERT(ok, "a date of the specification is accepted");
    if (r.verdict == Reject) SX_ASSERT(!ok, "a text that is not a date is rejected");
    if (r.known)
    {
        __sx_reach(w3c ? "w3c" : "pdf");
        SX_ASSERT(d.GetSecondsFromEpoch().count() == r.secs, "the date denotes the instant its fields name");
        SX_ASSERT(d.GetMinutesFromUtc().has_value() == r.zone, "the date has a time zone exactly if the text has");
        if (r.zone) SX_ASSERT(d.GetMinutesFromUtc()->count() == r.off, "the time zone is the one of the text");
    }
    if (!ok) SX_ASSERT(d == PdfDate(), "a failed parse gives the default date");
    bool threw = false;
    try { PdfDate e = w3c ? PdfDate::ParseW3C(string_view(buf.data(), t.size())) : PdfDate::Parse(string_view(buf.data(), t.size())); SX_ASSERT(e == d, "both parsers give the same date"); }
    catch (const PdfError&) { threw = true; }
    SX_ASSERT(threw == !ok, "Parse raises exactly if TryParse fails");
}

static string two(unsigned v) { return string(1, (char)('0' + v / 10)) + (char)('0' + v % 10); }
static void roundTrip(int y, int m, int d, int h, int mi, int s, bool hasZone, int off)
{
    long secs = daysOf(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
    if (hasZone) secs -= off * 60L;
    nullable<minutes> z;
    if (hasZone) z = minutes(off);
    PdfDate date { seconds(secs), z };
    string zp, zw;
    if (hasZone)
    {
        if (off == 0) zp = zw = "Z";
        else
        {
            unsigned a = off < 0 ? -off : off;
            zp = (off < 0 ? "-" : "+") + two(a / 60) + "'" + two(a % 60) + "'";
            zw = (off < 0 ? "-" : "+") + two(a / 60) + ":" + two(a % 60);
        }
    }
    string pdf = "D:" + two(y / 100) + two(y % 100) + two(m) + two(d) + two(h) + two(mi) + two(s) + zp;
    string w3c = two(y / 100) + two(y % 100) + "-" + two(m) + "-" + two(d) + "T" + two(h) + ":" + two(mi) + ":" + two(s) + zw;
    string gp = date.ToString().GetString(), gw = date.ToStringW3C().GetString();
    SX_ASSERT(gp == pdf, "the PDF text denotes the instant");
    SX_ASSERT(gw == w3c, "the W3C text denotes the instant");
    SX_ASSERT(PdfDate::Parse(gp) == date && !(PdfDate::Parse(gp) != date), "the PDF text parses back to the date");
    SX_ASSERT(PdfDate::ParseW3C(gw) == date, "the W3C text parses back to the date");
    __sx_reach("roundtrip");
}
// a part of a valid text is replaced by any bytes, and it goes on or ends after them
static void window(const string& text, bool w3c)
{
    unsigned from = pin("from", text.size()), len = pin("len", deep() ? 3 : 2), n = pin("n", deep() ? 3 : 2);
    unsigned to = from + len > text.size() ? text.size() : from + len;
    string t = text.substr(0, from) + symBytes("w", n);
    if (pin("rest", 1)) t += text.substr(to);
    unsigned y = w3c ? 0 : 2;
    // the calendar arithmetic is explored year by year
    if (from < y + 7)
        for (unsigned i = y; i < t.size() && i < y + 7; i++) if (dig(t[i])) t[i] = (char)__sx_pin((unsigned char)t[i]);
    check(t, w3c);
}
static int aYear()
{
    static const int years[] = { 2024, 1970, 1969, 2000, 1900, 0, 9999, 1, 4, 100, 1600, 2100 };
    return years[pin("year", deep() ? 11 : 6)];
}

void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 9))
    {
    case 0: // any text
    {
        bool w3c = pin("w3c", 1), prefix = !w3c && pin("prefix", 1);
        string t = symStr("t", 0, 4);
        // the calendar arithmetic is explored year by year
        if (t.size() == 4 && dig(t[0]) && dig(t[1]) && dig(t[2]) && dig(t[3]))
            for (auto& c : t) c = (char)__sx_pin((unsigned char)c);
        check((prefix ? "D:" : "") + t, w3c);
        break;
    }
    case 1: // any window of a PDF date
    {
        static const char* T[] = { "D:20240229235958+01'30'", "D:20231231000000Z", "D:19000228-08'00'", "D:202002" };
        window(T[pin("template", deep() ? 3 : 1)], false);
        break;
    }
    case 2: // any window of a W3C date
    {
        static const char* T[] = { "2024-02-29T23:59:58+01:30", "2023-12-31T00:00:00.25Z", "2023-12-31T00:00-08:00", "2020-02" };
        window(T[pin("template", deep() ? 3 : 1)], true);
        break;
    }
    case 3: // anything after a PDF date
    {
        static const char full[] = "D:20240229235958";
        unsigned n = pin("fields", 5);
        check(string(full, n == 0 ? 6 : 6 + 2 * n) + symStr("t", 0, deep() ? 5 : 4), false);
        break;
    }
    case 4: // anything after a W3C date
    {
        static const char* part[] = { "2024", "2024-02", "2024-02-29", "2024-02-29T23:59", "2024-02-29T23:59:58", "2024-02-29T23:59:58.25" };
        check(string(part[pin("fields", 5)]) + symStr("t", 0, 5), true);
        break;
    }
    case 5: // every day of a year
    {
        int y = aYear(), m = 1 + pin("month", 11);
        int d = 1 + pin("day", monthLen(y, m) - 1);
        roundTrip(y, m, d, 23, 59, 59, false, 0);
        break;
    }
    case 6: // every time of the day, field by field
    {
        unsigned k = pin("field", 2);
        unsigned v = pin("value", k == 0 ? 23 : 59);
        static const int offs[] = { 0, 60, -60, 1439, -1439 };
        roundTrip(2024, 2, 29, k == 0 ? v : 0, k == 1 ? v : 59, k == 2 ? v : 0, true, offs[pin("off", 4)]);
        break;
    }
    case 7: // every offset
    {
        int off = (int)pin("h", 23) * 60 + (int)pin("m", deep() ? 59 : 0);
        if (!deep()) off += (int)(pin("q", 5) * 59 / 5);
        if (pin("neg", 1)) off = -off;
        static const int d[4][3] = { { 2023, 12, 31 }, { 2024, 3, 1 }, { 1970, 1, 1 }, { 2000, 2, 29 } };
        auto& e = d[pin("date", deep() ? 3 : 1)];
        roundTrip(e[0], e[1], e[2], 0, 30, 0, true, off);
        break;
    }
    case 8: // every year
    {
        int y = (int)(deep() ? pin("century", 99) * 100 + pin("yy", 99) : pin("century", 99) * 100 + pin("yy", 1) * 96);
        roundTrip(y, 2, monthLen(y, 2), 12, 0, 0, true, 0);
        break;
    }
    case 9: // equality
    {
        long a = pin("a", 2), b = pin("b", 2), za = pin("za", 2), zb = pin("zb", 2);
        auto mk = [](long s, long z) { nullable<minutes> n; if (z != 0) n = minutes(z - 1); return PdfDate(seconds(s - 1), n); };
        SX_ASSERT((mk(a, za) == mk(b, zb)) == (a == b && za == zb), "dates are equal exactly if instant and offset are");
        SX_ASSERT((mk(a, za) != mk(b, zb)) == !(a == b && za == zb), "inequality is the negation of equality");
        break;
    }
    }
}
