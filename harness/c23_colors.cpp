// C23: colours
#include "common.h"
#include <pdfmm/base/PdfColor.h>
#include <limits>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
// X11 names
static const struct { const char* name; unsigned rgb; } Named[] =
{
    { "aliceblue", 0xF0F8FF }, { "antiquewhite", 0xFAEBD7 }, { "aqua", 0x00FFFF }, { "aquamarine", 0x7FFFD4 }, { "azure", 0xF0FFFF },
    { "beige", 0xF5F5DC }, { "bisque", 0xFFE4C4 }, { "black", 0x000000 }, { "blanchedalmond", 0xFFEBCD }, { "blue", 0x0000FF },
    { "blueviolet", 0x8A2BE2 }, { "brown", 0xA52A2A }, { "burlywood", 0xDEB887 }, { "cadetblue", 0x5F9EA0 }, { "chartreuse", 0x7FFF00 },
    { "chocolate", 0xD2691E }, { "coral", 0xFF7F50 }, { "cornflowerblue", 0x6495ED }, { "cornsilk", 0xFFF8DC }, { "crimson", 0xDC143C },
    { "cyan", 0x00FFFF }, { "darkblue", 0x00008B }, { "darkcyan", 0x008B8B }, { "darkgoldenrod", 0xB8860B }, { "darkgray", 0xA9A9A9 },
    { "darkgreen", 0x006400 }, { "darkgrey", 0xA9A9A9 }, { "darkkhaki", 0xBDB76B }, { "darkmagenta", 0x8B008B }, { "darkolivegreen", 0x556B2F },
    { "darkorange", 0xFF8C00 }, { "darkorchid", 0x9932CC }, { "darkred", 0x8B0000 }, { "darksalmon", 0xE9967A }, { "darkseagreen", 0x8FBC8F },
    { "darkslateblue", 0x483D8B }, { "darkslategray", 0x2F4F4F }, { "darkslategrey", 0x2F4F4F }, { "darkturquoise", 0x00CED1 }, { "darkviolet", 0x9400D3 },
    { "deeppink", 0xFF1493 }, { "deepskyblue", 0x00BFFF }, { "dimgray", 0x696969 }, { "dimgrey", 0x696969 }, { "dodgerblue", 0x1E90FF },
    { "firebrick", 0xB22222 }, { "floralwhite", 0xFFFAF0 }, { "forestgreen", 0x228B22 }, { "fuchsia", 0xFF00FF }, { "gainsboro", 0xDCDCDC },
    { "ghostwhite", 0xF8F8FF }, { "gold", 0xFFD700 }, { "goldenrod", 0xDAA520 }, { "gray", 0xBEBEBE }, { "green", 0x00FF00 },
    { "greenyellow", 0xADFF2F }, { "grey", 0xBEBEBE }, { "honeydew", 0xF0FFF0 }, { "hotpink", 0xFF69B4 }, { "indianred", 0xCD5C5C },
    { "indigo", 0x4B0082 }, { "ivory", 0xFFFFF0 }, { "khaki", 0xF0E68C }, { "lavender", 0xE6E6FA }, { "lavenderblush", 0xFFF0F5 },
    { "lawngreen", 0x7CFC00 }, { "lemonchiffon", 0xFFFACD }, { "lightblue", 0xADD8E6 }, { "lightcoral", 0xF08080 }, { "lightcyan", 0xE0FFFF },
    { "lightgoldenrod", 0xEEDD82 }, { "lightgoldenrodyellow", 0xFAFAD2 }, { "lightgray", 0xD3D3D3 }, { "lightgreen", 0x90EE90 }, { "lightgrey", 0xD3D3D3 },
    { "lightpink", 0xFFB6C1 }, { "lightsalmon", 0xFFA07A }, { "lightseagreen", 0x20B2AA }, { "lightskyblue", 0x87CEFA }, { "lightslategray", 0x778899 },
    { "lightslategrey", 0x778899 }, { "lightsteelblue", 0xB0C4DE }, { "lightyellow", 0xFFFFE0 }, { "lime", 0x00FF00 }, { "limegreen", 0x32CD32 },
    { "linen", 0xFAF0E6 }, { "magenta", 0xFF00FF }, { "maroon", 0xB03060 }, { "mediumaquamarine", 0x66CDAA }, { "mediumblue", 0x0000CD },
    { "mediumorchid", 0xBA55D3 }, { "mediumpurple", 0x9370DB }, { "mediumseagreen", 0x3CB371 }, { "mediumslateblue", 0x7B68EE }, { "mediumspringgreen", 0x00FA9A },
    { "mediumturquoise", 0x48D1CC }, { "mediumvioletred", 0xC71585 }, { "midnightblue", 0x191970 }, { "mintcream", 0xF5FFFA }, { "mistyrose", 0xFFE4E1 },
    { "moccasin", 0xFFE4B5 }, { "navajowhite", 0xFFDEAD }, { "navy", 0x000080 }, { "oldlace", 0xFDF5E6 }, { "olive", 0x808000 },
    { "olivedrab", 0x6B8E23 }, { "orange", 0xFFA500 }, { "orangered", 0xFF4500 }, { "orchid", 0xDA70D6 }, { "palegoldenrod", 0xEEE8AA },
    { "palegreen", 0x98FB98 }, { "paleturquoise", 0xAFEEEE }, { "palevioletred", 0xDB7093 }, { "papayawhip", 0xFFEFD5 }, { "peachpuff", 0xFFDAB9 },
    { "peru", 0xCD853F }, { "pink", 0xFFC0CB }, { "plum", 0xDDA0DD }, { "powderblue", 0xB0E0E6 }, { "purple", 0xA020F0 },
    { "red", 0xFF0000 }, { "rosybrown", 0xBC8F8F }, { "royalblue", 0x4169E1 }, { "saddlebrown", 0x8B4513 }, { "salmon", 0xFA8072 },
    { "sandybrown", 0xF4A460 }, { "seagreen", 0x2E8B57 }, { "seashell", 0xFFF5EE }, { "sienna", 0xA0522D }, { "silver", 0xC0C0C0 },
    { "skyblue", 0x87CEEB }, { "slateblue", 0x6A5ACD }, { "slategray", 0x708090 }, { "slategrey", 0x708090 }, { "snow", 0xFFFAFA },
    { "springgreen", 0x00FF7F }, { "steelblue", 0x4682B4 }, { "tan", 0xD2B48C }, { "teal", 0x008080 }, { "thistle", 0xD8BFD8 },
    { "tomato", 0xFF6347 }, { "turquoise", 0x40E0D0 }, { "violet", 0xEE82EE }, { "wheat", 0xF5DEB3 }, { "white", 0xFFFFFF },
    { "whitesmoke", 0xF5F5F5 }, { "yellow", 0xFFFF00 }, { "yellowgreen", 0x9ACD32 }
};
static const unsigned NamedCount = sizeof Named / sizeof *Named;
// multiples of 1/16 around the range
static double comp(const char* n) { return ((int)rng(n, 0, 47) - 16) / 16.0; }
static double inRange(const char* n) { return (int)rng(n, 0, 16) / 16.0; }
static bool close(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
static bool in01(double v) { return (v >= 0) & (v <= 1); }
static double num(PdfArray& a, unsigned i) { return a[i].GetReal(); }

static bool fromString(const string& s, PdfColor& c)
{
    string buf = s + "0000";    // must not be read
    try { c = PdfColor::FromString(string_view(buf.data(), s.size())); return true; }
    catch (const PdfError&) { return false; }
}
static bool isBlackDefault(const PdfColor& c) { return c == PdfColor() && c.IsGrayScale() && c.GetGrayScale() == 0; }
static void isRgb(const PdfColor& c, unsigned v)
{
    SX_ASSERT(c.IsRGB(), "the colour is RGB");
    SX_ASSERT(c.GetRed() == (v >> 16) / 255.0 && c.GetGreen() == (v >> 8 & 255) / 255.0 && c.GetBlue() == (v & 255) / 255.0, "the colour has the components of its text");
}
static void checkArray(PdfArray& a, const double* v, unsigned n)
{
    SX_ASSERT(a.size() == n, "the array has a number for each component");
    for (unsigned i = 0; i < n; i++) SX_ASSERT(num(a, i) == v[i], "the array has the components in order");
}

void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 11))
    {
    case 0: // ranges of components, arrays
    {
        static const unsigned counts[3] = { 1, 3, 4 };
        unsigned n = counts[pin("space", 2)], k = pin("which", n - 1);
        double v[4];
        for (unsigned i = 0; i < n; i++) v[i] = i == k ? comp("c") : inRange("v");
        bool ok = true; PdfColor c;
        try { c = n == 1 ? PdfColor(v[0]) : n == 3 ? PdfColor(v[0], v[1], v[2]) : PdfColor(v[0], v[1], v[2], v[3]); } catch (const PdfError& e) { ok = false; SX_ASSERT(e.GetError() == PdfErrorCode::ValueOutOfRange, "error code"); }
        SX_ASSERT(ok == in01(v[k]), "components from 0 to 1 are accepted, others are not");
        // the same as array
        PdfArray arr; for (unsigned i = 0; i < n; i++) arr.Add(PdfObject(v[i]));
        bool aok = true; PdfColor d(0.5);
        try { d = PdfColor::FromArray(arr); } catch (const PdfError&) { aok = false; }
        SX_ASSERT(aok == ok, "an array of the components is accepted if they are in range");
        if (!ok) break;
        SX_ASSERT(c == d && !(c != d), "the array gives the same colour");
        PdfArray back = c.ToArray();
        checkArray(back, v, n);
        SX_ASSERT(PdfColor::FromArray(back) == c, "the array of a colour reads back as the colour");
        PdfObject o(back); PdfColor e;
        SX_ASSERT(PdfColor::TryCreateFromObject(o, e) && e == c && PdfColor::FromObject(o) == c, "an object with the array reads back as the colour");
        SX_ASSERT(c.IsGrayScale() == (n == 1) && c.IsRGB() == (n == 3) && c.IsCMYK() == (n == 4) && !c.IsSeparation() && !c.IsCieLab() && !c.IsTransparent(), "the kind of the colour");
        if (n == 1) SX_ASSERT(c.GetGrayScale() == v[0], "gray component");
        if (n == 3) SX_ASSERT((c.GetRed() == v[0]) & (c.GetGreen() == v[1]) & (c.GetBlue() == v[2]), "RGB components");
        if (n == 4) SX_ASSERT((c.GetCyan() == v[0]) & (c.GetMagenta() == v[1]) & (c.GetYellow() == v[2]) & (c.GetBlack() == v[3]), "CMYK components");
        __sx_reach("components");
        break;
    }
    case 1: // CIE-Lab and separations
    {
        double l = ((int)rng("l", 0, 255) - 64), a = (int)rng("a", 0, 255) - 128, b = ((int)rng("b", 0, 255) - 128) * 2;
        bool ok = true; PdfColor c;
        try { c = PdfColor::CreateCieLab(l, a, b); } catch (const PdfError&) { ok = false; }
        SX_ASSERT(ok == ((l >= 0) & (l <= 100) & (a >= -128) & (a <= 127) & (b >= -128) & (b <= 127)), "the ranges of CIE-Lab components");
        if (!ok) break;
        SX_ASSERT(c.IsCieLab() && (c.GetCieL() == l) & (c.GetCieA() == a) & (c.GetCieB() == b), "CIE-Lab components");
        PdfArray arr = c.ToArray(); double v[3] = { l, a, b };
        checkArray(arr, v, 3);
        break;
    }
    case 2:
    {
        double d = comp("d"), v[4] = { inRange("v0"), inRange("v1"), inRange("v2"), inRange("v3") };
        unsigned alt = pin("alt", 3);
        PdfColor a = alt == 0 ? PdfColor(v[0]) : alt == 1 ? PdfColor(v[0], v[1], v[2]) : alt == 2 ? PdfColor(v[0], v[1], v[2], v[3]) : PdfColor::CreateCieLab(v[0], v[1], v[2]);
        bool ok = true; PdfColor c;
        try { c = PdfColor::CreateSeparation("Spot", d, a); } catch (const PdfError&) { ok = false; }
        SX_ASSERT(ok == in01(d), "densities from 0 to 1 are accepted, others are not");
        if (!ok) break;
        SX_ASSERT(c.IsSeparation() && c.GetName() == "Spot" && c.GetDensity() == d && c.GetAlternateColorSpace() == a.GetColorSpace(), "the separation keeps name, density and alternate space");
        if (alt == 0) SX_ASSERT(c.GetGrayScale() == v[0], "gray alternate");
        if (alt == 1) SX_ASSERT((c.GetRed() == v[0]) & (c.GetGreen() == v[1]) & (c.GetBlue() == v[2]), "RGB alternate");
        if (alt == 2) SX_ASSERT((c.GetCyan() == v[0]) & (c.GetMagenta() == v[1]) & (c.GetYellow() == v[2]) & (c.GetBlack() == v[3]), "CMYK alternate");
        if (alt == 3) SX_ASSERT((c.GetCieL() == v[0]) & (c.GetCieA() == v[1]) & (c.GetCieB() == v[2]), "Lab alternate");
        PdfArray arr = c.ToArray();
        checkArray(arr, &d, 1);
        if (alt == 2)
        {
            PdfColor r = c.ConvertToRGB();
            for (unsigned i = 0; i < 3; i++) SX_ASSERT((i == 0 ? r.GetRed() : i == 1 ? r.GetGreen() : r.GetBlue()) == 1 - (v[i] * (1 - v[3]) + v[3]), "a separation converts as its alternate colour");
        }
        PdfColor e = PdfColor::CreateSeparation("Spot", d, a), f = PdfColor::CreateSeparation("Spof", d, a);
        SX_ASSERT(c == e && c != f && !(c == f), "separations are equal if all of their parts are");
        break;
    }
    case 3: // no numbers at all
    {
        double bad[3] = { std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity() };
        double b = bad[pin("bad", 2)]; unsigned n = pin("n", 8); bool threw = false;
        try
        {
            switch (n)
            {
            case 0: (void)PdfColor(b); break;
            case 1: (void)PdfColor(b, 0, 0); break;
            case 2: (void)PdfColor(0, b, 0); break;
            case 3: (void)PdfColor(0, 0, b); break;
            case 4: (void)PdfColor(b, 0, 0, 0); break;
            case 5: (void)PdfColor(0, b, 0, 0); break;
            case 6: (void)PdfColor(0, 0, b, 0); break;
            case 7: (void)PdfColor(0, 0, 0, b); break;
            default: PdfColor::CreateSeparation("S", b, PdfColor(0.0)); break;
            }
        }
        catch (const PdfError&) { threw = true; }
        SX_ASSERT(threw, "NaN and infinity are not in range");
        break;
    }
    case 4: // hexadecimal RGB and CMYK
    {
        bool cmyk = pin("cmyk", 1);
        unsigned k = pin("which", cmyk ? 3 : 2);
        string s = cmyk ? "#09aFc0F3" : "#5Bd02e", d;
        if (pin("valid", 1))
        {
            // (the division by 255 needs digits that are constants)
            static const char digits[] = "0123456789abcdefABCDEF";
            d.push_back(digits[pin("hi", 21)]); d.push_back(deep() ? digits[pin("lo", 21)] : "07F"[pin("lo", 2)]);
        }
        else { d = symBytes("d", 2); __sx_assume((hexVal(d[0]) < 0) | (hexVal(d[1]) < 0)); }
        s[1 + 2 * k] = d[0]; s[2 + 2 * k] = d[1];
        PdfColor c(0.5);
        bool ok = fromString(s, c);
        int h = hexVal(d[0]), l = hexVal(d[1]);
        SX_ASSERT(ok == (h >= 0 && l >= 0), "six or eight hexadecimal digits are accepted, other characters are not");
        if (!ok) break;
        double v[4];
        for (unsigned i = 0; i < (cmyk ? 4u : 3u); i++) v[i] = (hexVal(s[1 + 2 * i]) * 16 + hexVal(s[2 + 2 * i])) / 255.0;
        if (cmyk) SX_ASSERT(c.IsCMYK() && c.GetCyan() == v[0] && c.GetMagenta() == v[1] && c.GetYellow() == v[2] && c.GetBlack() == v[3], "the CMYK components of the digits");
        else SX_ASSERT(c.IsRGB() && c.GetRed() == v[0] && c.GetGreen() == v[1] && c.GetBlue() == v[2], "the RGB components of the digits");
        __sx_reach("hex");
        break;
    }
    case 5: // named colours
    {
        unsigned k = pin("k", NamedCount - 1);
        string s = Named[k].name;
        // any letter in upper case
        unsigned up = pin("upper", deep() ? 9 : 2);
        if (up != 0 && up - 1 < s.size()) s[up - 1] = (char)(s[up - 1] - 32);
        PdfColor c(0.5);
        SX_ASSERT(fromString(s, c), "a named colour is accepted");
        isRgb(c, Named[k].rgb);
        break;
    }
    case 6: // names
    {
        static const char* prefixes[] = { "", "tea", "re" };
        string s = prefixes[pin("prefix", 2)];
        s += symStr("s", 1, deep() ? 3 : 2);
        char f = s[0];
        __sx_assume(!(f >= '0' && f <= '9') && f != '.' && f != '#' && f != '[');
        for (auto ch : s) __sx_assume((ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z') || ch == ' ' || ch == 0);
        PdfColor c(0.5);
        bool ok = fromString(s, c);
        SX_ASSERT(ok, "any name is accepted");
        string low; for (auto ch : s) low.push_back(ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch);
        int hit = -1;
        for (unsigned i = 0; i < NamedCount; i++) if (low == Named[i].name) hit = (int)i;
        if (hit >= 0) { isRgb(c, Named[hit].rgb); __sx_reach("named"); }
        else SX_ASSERT(isBlackDefault(c), "an unknown name gives black");
        break;
    }
    case 7: // gray numbers
    {
        static const char alpha[] = "0123456789.x";
        string s; unsigned n = 1 + pin("len", deep() ? 3 : 2);
        for (unsigned i = 0; i < n; i++) s.push_back(alpha[pin("c", 11)]);
        if (s[0] == 'x') break;
        bool valid = true, dot = false; long m = 0, scale = 1; unsigned digits = 0;
        for (auto ch : s)
        {
            if (ch == 'x' || (ch == '.' && dot)) { valid = false; break; }
            if (ch == '.') { dot = true; continue; }
            m = m * 10 + (ch - '0'); digits++; if (dot) scale *= 10;
        }
        if (digits == 0) valid = false;
        PdfColor c(0.5);
        bool ok = fromString(s, c);
        SX_ASSERT(ok == (valid && m <= scale), "a number from 0 to 1 is a gray colour, any other is an error");
        if (ok) { SX_ASSERT(c.IsGrayScale() && c.GetGrayScale() == (double)m / (double)scale, "the gray value is the number"); __sx_reach("gray"); }
        break;
    }
    case 8: // arrays as text
    {
        static const char* nums[] = { "0", "1", "0.5", ".25", "1.0", "2", "/N" };
        static const double vals[] = { 0, 1, 0.5, 0.25, 1, 2, -1 };
        unsigned n = pin("n", 5); double v[5]; bool bad = n == 2 || n == 5, range = false, type = false;
        string s = "[";
        for (unsigned i = 0; i < n; i++)
        {
            unsigned k = i < 2 || deep() ? pin("k", 6) : i;
            s += (i ? " " : "") + string(nums[k]); v[i] = vals[k];
            if (k == 5) range = true;
            if (k == 6) type = true;
        }
        s += "]";
        PdfColor c(0.5);
        bool ok = fromString(s, c);
        SX_ASSERT(ok == !(bad || range || type), "arrays of one, three or four numbers in range are colours, and so are empty ones");
        if (!ok) break;
        if (n == 0) SX_ASSERT(c.IsTransparent() && c == PdfColor::CreateTransparent(), "an empty array is transparent");
        if (n == 1) SX_ASSERT(c == PdfColor(v[0]), "one number is a gray colour");
        if (n == 3) SX_ASSERT(c == PdfColor(v[0], v[1], v[2]), "three numbers are an RGB colour");
        if (n == 4) SX_ASSERT(c == PdfColor(v[0], v[1], v[2], v[3]), "four numbers are a CMYK colour");
        break;
    }
    case 9: // transparent; arrays with other sizes and elements
    {
        PdfColor t = PdfColor::CreateTransparent();
        PdfArray e = t.ToArray();
        SX_ASSERT(e.size() == 0 && PdfColor::FromArray(e) == t, "a transparent colour is an empty array");
        SX_ASSERT(t != PdfColor() && t.IsTransparent(), "a transparent colour is not black");
        unsigned n = pin("n", 6), kind = pin("kind", 2), where = pin("where", 5);
        PdfArray arr; double v[6]; bool odd = false;
        for (unsigned i = 0; i < n; i++)
        {
            v[i] = i % 2;
            if (i == where && kind != 0) { arr.Add(kind == 1 ? PdfObject(PdfName("x")) : PdfObject(PdfString("1"))); odd = true; }
            else arr.Add(i < 2 ? PdfObject((int64_t)v[i]) : PdfObject(v[i]));
        }
        PdfColor c(0.5);
        bool ok = PdfColor::TryCreateFromArray(arr, c);
        SX_ASSERT(ok == (!odd && (n == 0 || n == 1 || n == 3 || n == 4)), "arrays that are not colours are rejected");
        if (!ok) SX_ASSERT(c == PdfColor(0.5), "a failed conversion leaves the colour");
        if (ok && n == 3) SX_ASSERT(c == PdfColor(v[0], v[1], v[2]), "integers are components");
        PdfColor d(0.5);
        SX_ASSERT(!PdfColor::TryCreateFromObject(PdfObject(int64_t(1)), d) && d == PdfColor(0.5), "an object that is not an array is no colour");
        break;
    }
    case 10: // CMYK to RGB
    {
        double v[4] = { inRange("c"), inRange("m"), inRange("y"), inRange("k") };
        PdfColor c(v[0], v[1], v[2], v[3]), r = c.ConvertToRGB();
        double w[3] = { r.GetRed(), r.GetGreen(), r.GetBlue() };
        for (unsigned i = 0; i < 3; i++) SX_ASSERT((w[i] == (1 - v[i]) * (1 - v[3])) & in01(w[i]), "red, green and blue are what cyan, magenta, yellow and black leave");
        SX_ASSERT(c.ConvertToCMYK() == c && r.ConvertToRGB() == r, "conversion to the same space changes nothing");
        double g = inRange("g");
        PdfColor y(g), z = y.ConvertToRGB();
        SX_ASSERT((z.GetRed() == g) & (z.GetGreen() == g) & (z.GetBlue() == g) && y.ConvertToGrayScale() == y, "gray has equal red, green and blue");
        break;
    }
    case 11: // the other conversions
    {
        static const double grid[] = { 0, 1, 0.1, 0.7, 1 / 3.0, 0.5, 254 / 255.0, 1e-9, 0.999999999 };
        unsigned top = deep() ? 8 : 6;
        double r = grid[pin("r", top)], g = grid[pin("g", top)], b = grid[pin("b", top)];
        PdfColor c(r, g, b), y = c.ConvertToGrayScale(), k = c.ConvertToCMYK();
        SX_ASSERT(y.IsGrayScale() && close(y.GetGrayScale(), 0.299 * r + 0.587 * g + 0.114 * b) && in01(y.GetGrayScale()), "the gray value is the luma");
        double mx = r > g ? r : g; if (b > mx) mx = b;
        double cm[3] = { 0, 0, 0 }, rgb[3] = { r, g, b }, got[3] = { k.GetCyan(), k.GetMagenta(), k.GetYellow() };
        for (unsigned i = 0; i < 3; i++) if (mx > 0) cm[i] = (mx - rgb[i]) / mx;
        SX_ASSERT(k.IsCMYK() && close(k.GetBlack(), 1 - mx), "black is what all components lack");
        for (unsigned i = 0; i < 3; i++) SX_ASSERT((mx < 1e-6 || close(got[i], cm[i])) && in01(got[i]), "cyan, magenta and yellow are the rest");
        PdfColor back = k.ConvertToRGB();
        SX_ASSERT(close(back.GetRed(), r) && close(back.GetGreen(), g) && close(back.GetBlue(), b), "RGB to CMYK and back gives the colour");
        SX_ASSERT(close(k.ConvertToGrayScale().GetGrayScale(), y.GetGrayScale()), "the gray value of CMYK is that of its RGB");
        PdfColor gk = PdfColor(r).ConvertToCMYK();
        SX_ASSERT(close(gk.GetBlack(), 1 - r) && gk.GetCyan() == 0 && gk.GetMagenta() == 0 && gk.GetYellow() == 0, "gray is black only");
        __sx_reach("conversions");
        break;
    }
    }
}
