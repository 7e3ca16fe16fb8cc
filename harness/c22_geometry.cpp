// C22: rectangles and matrices
#include "common.h"
#include <pdfmm/base/PdfRect.h>
#include <pdfmm/base/PdfMath.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
// multiples of 1/4
static double quarter(const char* n) { return ((int)rng(n, 0, 255) - 128) / 4.0; }
static double length(const char* n) { return (int)rng(n, 0, 127) / 4.0; }
static double small(const char* n) { return deep() ? (int)rng(n, 0, 15) - 8 : (int)rng(n, 0, 7) - 4; }
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a < b ? b : a; }
static bool sameRect(const PdfRect& r, double l, double b, double right, double top)
{
    return (r.GetLeft() == l) & (r.GetBottom() == b) & (r.GetRight() == right) & (r.GetTop() == top) & (r.GetWidth() == right - l) & (r.GetHeight() == top - b);
}
static Matrix symMatrix(const char* n)
{
    string s(n);
    double v[6];
    for (unsigned i = 0; i < 6; i++) v[i] = small((s + (char)('a' + i)).c_str());
    return Matrix::FromArray(v);
}
static bool close(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
// not const lookups, the array owns the values
static double at(PdfArray& a, unsigned i) { return a[i].GetReal(); }

void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 11))
    {
    case 0: // corners in any order, to the array and back
    {
        double x1 = quarter("x1"), y1 = quarter("y1"), x2 = quarter("x2"), y2 = quarter("y2");
        double l = mn(x1, x2), r = mx(x1, x2), b = mn(y1, y2), t = mx(y1, y2);
        PdfRect c = PdfRect::FromCorners(x1, y1, x2, y2);
        SX_ASSERT(sameRect(c, l, b, r, t), "FromCorners gives the rectangle of the corners");
        PdfArray arr; arr.Add(PdfObject(int64_t(7)));
        c.ToArray(arr);
        SX_ASSERT(arr.size() == 4, "a rectangle is an array of four numbers");
        SX_ASSERT((at(arr, 0) == l) & (at(arr, 1) == b) & (at(arr, 2) == r) & (at(arr, 3) == t), "the array has lower left and upper right corner");
        SX_ASSERT(sameRect(PdfRect(arr), l, b, r, t), "reading the array gives the rectangle");
        PdfArray any;
        any.Add(PdfObject(x1)); any.Add(PdfObject(y1)); any.Add(PdfObject(x2)); any.Add(PdfObject(y2));
        PdfRect d(1, 2, 3, 4);
        d.FromArray(any);
        SX_ASSERT(sameRect(d, l, b, r, t), "an array with corners in any order is normalized");
        __sx_reach("corners");
        break;
    }
    case 1: // the fields
    {
        double l = quarter("l"), b = quarter("b"), w = length("w"), h = length("h");
        PdfRect r(l, b, w, h);
        SX_ASSERT(sameRect(r, l, b, l + w, b + h), "a rectangle keeps left, bottom, width and height");
        double v = quarter("v");
        PdfRect s = r;
        switch (pin("set", 3))
        {
        case 0: s.SetLeft(v); SX_ASSERT(sameRect(s, v, b, v + w, b + h), "SetLeft moves the rectangle"); break;
        case 1: s.SetBottom(v); SX_ASSERT(sameRect(s, l, v, l + w, v + h), "SetBottom moves the rectangle"); break;
        case 2: s.SetWidth(v); SX_ASSERT(sameRect(s, l, b, l + v, b + h), "SetWidth sets the width"); break;
        default: s.SetHeight(v); SX_ASSERT(sameRect(s, l, b, l + w, b + v), "SetHeight sets the height"); break;
        }
        s = r;
        SX_ASSERT(sameRect(s, l, b, l + w, b + h), "assignment copies");
        SX_ASSERT(sameRect(PdfRect(), 0, 0, 0, 0), "the default rectangle is empty");
        double x = quarter("x"), y = quarter("y");
        SX_ASSERT(r.Contains(x, y) == ((x >= l) & (x <= l + w) & (y >= b) & (y <= b + h)), "Contains tells whether the point is inside");
        break;
    }
    case 2: // intersection
    {
        bool far = pin("vertical", 1) == 0;
        // one axis in full range, the other one in a small one
        auto pos = [&](const char* n, bool full) { return full ? quarter(n) : small(n); };
        auto len = [&](const char* n, bool full) { return full ? length(n) : (double)rng(n, 0, 7); };
        double l = pos("l", far), b = pos("b", !far), w = len("w", far), h = len("h", !far);
        double l2 = pos("l2", far), b2 = pos("b2", !far), w2 = len("w2", far), h2 = len("h2", !far);
        // an all zero rectangle stands for none
        __sx_assume(!((l2 == 0) & (b2 == 0) & (w2 == 0) & (h2 == 0)));
        PdfRect r(l, b, w, h);
        r.Intersect(PdfRect(l2, b2, w2, h2));
        double il = mx(l, l2), ir = mn(l + w, l2 + w2), ib = mx(b, b2), it = mn(b + h, b2 + h2);
        if ((il <= ir) & (ib <= it))
        {
            SX_ASSERT(sameRect(r, il, ib, ir, it), "the intersection is the common area");
            __sx_reach("common");
        }
        else
        {
            SX_ASSERT((r.GetWidth() >= 0) & (r.GetHeight() >= 0), "an intersection has no negative size");
            SX_ASSERT((r.GetWidth() == 0) | (r.GetHeight() == 0), "the intersection is empty if there is no common area");
            PdfArray arr; r.ToArray(arr);
            PdfRect again(arr);
            SX_ASSERT((again.GetWidth() == 0) | (again.GetHeight() == 0), "an empty intersection stays empty as array");
            __sx_reach("disjoint");
        }
        break;
    }
    case 3: // arrays of other sizes, elements of other types
    {
        unsigned n = pin("n", 8), bad = pin("bad", 3), where = pin("where", 7);
        PdfArray arr;
        for (unsigned i = 0; i < n; i++)
        {
            if (bad != 0 && i == where) arr.Add(bad == 1 ? PdfObject(PdfName("A")) : bad == 2 ? PdfObject(PdfString("s")) : PdfObject::Null);
            else if (i % 2) arr.Add(PdfObject(int64_t(i))); else arr.Add(PdfObject(i + 0.5));
        }
        bool broken = bad != 0 && where < n;
        bool threw = false;
        PdfRect r(1, 2, 3, 4);
        try { r.FromArray(arr); } catch (const PdfError&) { threw = true; }
        SX_ASSERT(threw == (n != 4 || broken), "an array that is not four numbers is rejected");
        if (!threw) SX_ASSERT(sameRect(r, 0.5, 1, 2.5, 3), "integers and reals are accepted");
        else SX_ASSERT(sameRect(r, 1, 2, 4, 6), "a failed assignment leaves the rectangle");
        threw = false;
        try { Matrix m = Matrix::FromArray(arr); SX_ASSERT(m[0] == 0.5 && m[1] == 1 && m[2] == 2.5 && m[3] == 3 && m[4] == 4.5 && m[5] == 5, "the matrix has the numbers of the array"); }
        catch (const PdfError&) { threw = true; }
        SX_ASSERT(threw == (n < 6 || (broken && where < 6)), "a matrix needs six numbers");
        break;
    }
    case 4: // a product applied to a vector is one after the other
    {
        Matrix a = symMatrix("a"), b = symMatrix("b");
        // the vectors (0,0), (1,0) and (0,1) decide for all
        static const double vs[3][2] = { { 0, 0 }, { 1, 0 }, { 0, 1 } };
        auto& v = vs[pin("v", 2)];
        Vector2 p = Vector2(v[0], v[1]) * a * b, q = Vector2(v[0], v[1]) * (a * b);
        SX_ASSERT(p.X == q.X, "the product transforms as one matrix after the other");
        SX_ASSERT(p.Y == q.Y, "the product transforms as one matrix after the other, vertically");
        __sx_reach("product");
        break;
    }
    case 5: // a matrix applied to a vector
    {
        double a = small("a"), b = small("b"), c = small("c"), d = small("d"), e = quarter("e"), f = quarter("f"), x = quarter("x"), y = quarter("y");
        Matrix m = Matrix::FromCoefficients(a, b, c, d, e, f);
        Vector2 p = Vector2(x, y) * m;
        SX_ASSERT(p.X == a * x + c * y + e, "x' = a x + c y + e");
        SX_ASSERT(p.Y == b * x + d * y + f, "y' = b x + d y + f");
        break;
    }
    case 6: // constructors, arrays, equality
    {
        Matrix m = symMatrix("m");
        Matrix i;
        SX_ASSERT((i[0] == 1) & (i[1] == 0) & (i[2] == 0) & (i[3] == 1) & (i[4] == 0) & (i[5] == 0), "the default is the identity");
        SX_ASSERT(m * i == m && i * m == m, "the identity is neutral");
        double v[6]; m.ToArray(v);
        PdfArray arr; arr.Add(PdfObject(int64_t(1))); m.ToArray(arr);
        SX_ASSERT(arr.size() == 6, "a matrix is an array of six numbers");
        for (unsigned k = 0; k < 6; k++) SX_ASSERT(v[k] == m[k] && at(arr, k) == m[k], "the arrays have the coefficients in order");
        SX_ASSERT(Matrix::FromArray(v) == m && Matrix::FromArray(arr) == m, "a matrix reads back from its arrays");
        Matrix n = m;
        SX_ASSERT(n == m && !(n != m), "a copy is equal");
        unsigned k = pin("k", 5);
        v[k] = small("other");
        n = Matrix::FromArray(v);
        SX_ASSERT((n == m) == (v[k] == m[k]), "matrices are equal exactly if all coefficients are");
        SX_ASSERT((n != m) == (v[k] != m[k]), "inequality is the negation of equality");
        Vector2 t = m.GetTranslationVector();
        SX_ASSERT(t.X == m[4] && t.Y == m[5], "the translation is in the last row");
        Matrix s = m.GetScalingRotation();
        SX_ASSERT((s[0] == m[0]) & (s[1] == m[1]) & (s[2] == m[2]) & (s[3] == m[3]) & (s[4] == 0) & (s[5] == 0), "without translation the rest stays");
        break;
    }
    case 7: // translation and scaling
    {
        double x = quarter("x"), y = quarter("y"), tx = quarter("tx"), ty = quarter("ty");
        Vector2 p = Vector2(x, y) * Matrix::CreateTranslation(Vector2(tx, ty));
        SX_ASSERT((p.X == x + tx) & (p.Y == y + ty), "a translation adds its vector");
        p = Vector2(x, y) * Matrix::CreateScale(Vector2(tx, ty));
        SX_ASSERT((p.X == x * tx) & (p.Y == y * ty), "a scale multiplies by its factors");
        Vector2 v(x, y), w(tx, ty);
        SX_ASSERT(((v + w).X == x + tx) & ((v + w).Y == y + ty) & ((v - w).X == x - tx) & ((v - w).Y == y - ty), "vectors add");
        Vector2 u = v; u += w; SX_ASSERT((u.X == x + tx) & (u.Y == y + ty), "vectors add in place");
        u -= w; SX_ASSERT((u.X == x) & (u.Y == y), "vectors subtract in place");
        SX_ASSERT(v.GetSquaredLength() == x * x + y * y, "squared length");
        break;
    }
    case 8: // prepended translations
    {
        Matrix m = symMatrix("m");
        double tx = small("tx"), ty = small("ty");
        Matrix want = Matrix::CreateTranslation(Vector2(tx, ty)) * m;
        SX_ASSERT(m.Translated(Vector2(tx, ty)) == want, "Translated prepends the translation");
        Matrix n = m; n.Translate(Vector2(tx, ty));
        SX_ASSERT(n == want, "Translate prepends the translation");
        n = m; n.Apply<Tx>(tx);
        SX_ASSERT(n == Matrix::CreateTranslation(Vector2(tx, 0)) * m, "Apply prepends a horizontal translation");
        n = m; n.Apply<Ty>(ty);
        SX_ASSERT(n == Matrix::CreateTranslation(Vector2(0, ty)) * m, "Apply prepends a vertical translation");
        SX_ASSERT(m.Get<Tx>() == m[4] && m.Get<Ty>() == m[5], "the translation components");
        n = m; n.Set<Tx>(tx); n.Set<Ty>(ty);
        SX_ASSERT((n[0] == m[0]) & (n[1] == m[1]) & (n[2] == m[2]) & (n[3] == m[3]) & (n[4] == tx) & (n[5] == ty), "setting the translation components");
        break;
    }
    case 9: // a transformed rectangle is the bounding box of the transformed corners
    {
        double l = small("l"), b = small("b"), w = small("w"), h = small("h");
        __sx_assume((w >= 0) & (h >= 0));
        static const double ms[6][6] = { { 1, 0, 0, 1, 3, -2 }, { 0, 1, -1, 0, 0, 5 }, { -1, 0, 0, -1, 0, 0 }, { 2, 0, 0, -3, 1, 1 }, { 1, 1, -1, 1, 0, 0 }, { 1, 2, 3, -4, 5, 6 } };
        Matrix m = Matrix::FromArray(ms[pin("m", 5)]);
        PdfRect r = PdfRect(l, b, w, h) * m;
        Vector2 c[4] = { Vector2(l, b) * m, Vector2(l + w, b) * m, Vector2(l, b + h) * m, Vector2(l + w, b + h) * m };
        double x1 = c[0].X, x2 = c[0].X, y1 = c[0].Y, y2 = c[0].Y;
        for (auto& p : c) { x1 = mn(x1, p.X); x2 = mx(x2, p.X); y1 = mn(y1, p.Y); y2 = mx(y2, p.Y); }
        SX_ASSERT(sameRect(r, x1, y1, x2, y2), "a transformed rectangle bounds its transformed corners");
        break;
    }
    case 10: // rotations
    {
        static const double pi = 3.14159265358979323846;
        unsigned k = pin("angle", 23);
        double a = ((int)k - 8) * pi / 12;
        static const double pts[5][2] = { { 1, 0 }, { 0, 1 }, { 3, -4 }, { -2.5, 7 }, { 0, 0 } };
        auto& p = pts[pin("p", 4)]; auto& c = pts[pin("c", 4)];
        Vector2 q = Vector2(p[0], p[1]) * Matrix::CreateRotation(a);
        SX_ASSERT(close(q.X, p[0] * cos(a) - p[1] * sin(a)) && close(q.Y, p[0] * sin(a) + p[1] * cos(a)), "a rotation turns counterclockwise about the origin");
        q = Vector2(p[0], p[1]) * Matrix::CreateRotation(Vector2(c[0], c[1]), a);
        double dx = p[0] - c[0], dy = p[1] - c[1];
        SX_ASSERT(close(q.X, c[0] + dx * cos(a) - dy * sin(a)) && close(q.Y, c[1] + dx * sin(a) + dy * cos(a)), "a rotation about a point leaves the point and turns the rest about it");
        SX_ASSERT(close(Vector2(p[0], p[1]).GetLength() * Vector2(p[0], p[1]).GetLength(), p[0] * p[0] + p[1] * p[1]), "length");
        Matrix r = Matrix::CreateScale(Vector2(2, 2)) * Matrix::CreateRotation(a) * Matrix::CreateTranslation(Vector2(p[0], p[1]));
        SX_ASSERT(close(r.GetScaleVector().X, 2) && close(r.GetScaleVector().Y, 2), "the factors of a uniform scale");
        Matrix o = r.GetRotation(), e = Matrix::CreateRotation(a);
        for (unsigned i = 0; i < 6; i++) SX_ASSERT(close(o[i], e[i]), "the rotation of a uniformly scaled and translated rotation");
        break;
    }
    case 11: // frame rotations by quarter turns
    {
        static const double pi = 3.14159265358979323846;
        double a = ((int)pin("turns", 8) - 4) * pi / 2;
        static const double rs[4][4] = { { 0, 0, 100, 50 }, { 10, 20, 30, 70 }, { -5, -7, 20, 20 }, { 3, 4, 0, 0 } };
        auto& v = rs[pin("r", 3)];
        PdfRect r(v[0], v[1], v[2], v[3]);
        Matrix f = GetFrameRotationTransform(r, a), g = GetFrameRotationTransformInverse(r, -a);
        PdfRect t = r * f;
        bool odd = ((int)(a < 0 ? -a / (pi / 2) + 0.5 : a / (pi / 2) + 0.5)) % 2;
        SX_ASSERT(close(t.GetLeft(), v[0]) && close(t.GetBottom(), v[1]), "the turned rectangle is aligned at the lower left corner");
        SX_ASSERT(close(t.GetWidth(), odd ? v[3] : v[2]) && close(t.GetHeight(), odd ? v[2] : v[3]), "the turned rectangle has its sides swapped for odd turns");
        (void)g;
        Matrix inv = GetFrameRotationTransformInverse(r, a);
        Matrix id = f * inv;
        static const double one[6] = { 1, 0, 0, 1, 0, 0 };
        for (unsigned i = 0; i < 6; i++) SX_ASSERT(close(id[i], one[i]), "the inverse frame rotation undoes the frame rotation");
        break;
    }
    }
}
