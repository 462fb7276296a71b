#include "vt.h"
#include <pdfmm/base/PdfMath.h>
#include <cmath>
using namespace mm;
// r:<seed> random rectangles, points and matrices with exact coordinates      g:<x1>:<y1>:<x2>:<y2>:<seed> corners on a grid     f:<seed> arbitrary doubles
static double ex(vt::Rng& r) { static const double d[] = { 1, 2, 4, 8 }; return (double)((int64_t)r.below(4001) - 2000) / d[r.below(4)]; }
struct Box { double l, b, r, t; bool has(double x, double y) const { return x >= l && x <= r && y >= b && y <= t; } };
static void same(const PdfRect& r, const Box& b, const char* what) { if (r.GetLeft() != b.l || r.GetBottom() != b.b || r.GetRight() != b.r || r.GetTop() != b.t || r.GetWidth() != b.r - b.l || r.GetHeight() != b.t - b.b) vt::fail("%s: [%g %g %g %g] (%g x %g) instead of [%g %g %g %g]", what, r.GetLeft(), r.GetBottom(), r.GetRight(), r.GetTop(), r.GetWidth(), r.GetHeight(), b.l, b.b, b.r, b.t); }
static Box box(double x1, double y1, double x2, double y2) { return { std::min(x1, x2), std::min(y1, y2), std::max(x1, x2), std::max(y1, y2) }; }
static void corners(double x1, double y1, double x2, double y2, vt::Rng& r) {
    Box b = box(x1, y1, x2, y2); auto q = PdfRect::FromCorners(x1, y1, x2, y2); same(q, b, "corners"); same(PdfRect(b.l, b.b, b.r - b.l, b.t - b.b), b, "constructed");
    PdfArray a; a.Add(PdfObject((int64_t)77)); q.ToArray(a); if (a.GetSize() != 4 || a[0].GetReal() != b.l || a[1].GetReal() != b.b || a[2].GetReal() != b.r || a[3].GetReal() != b.t) vt::fail("array form"); same(PdfRect(a), b, "array read back");
    { PdfRect z(1, 2, 3, 4); z.FromArray(a); same(z, b, "array assigned"); }
    for (int k = 0; k < 4; k++) { PdfArray c; double p[4] = { (k & 1) ? x2 : x1, (k & 2) ? y2 : y1, (k & 1) ? x1 : x2, (k & 2) ? y1 : y2 }; for (double v : p) { if (v == std::floor(v) && r.chance(50)) c.Add(PdfObject((int64_t)v)); else c.Add(PdfObject(v)); } same(PdfRect(c), b, "array of corners"); }
    std::string s = q.ToString(); SpanStreamDevice in(bufferview(s.data(), s.size())); PdfTokenizer t; PdfVariant v; t.ReadNextVariant(in, v); if (fabs(x1) < 1e6) same(PdfRect(v.GetArray()), b, "text form");
    for (int n : { 0, 1, 3, 5 }) { PdfArray c; for (int i = 0; i < n; i++) c.Add(PdfObject(1.0)); PdfRect z(1, 2, 3, 4); try { z.FromArray(c); vt::fail("%d elements are accepted", n); } catch (PdfError&) { same(z, { 1, 2, 4, 6 }, "refused array"); } } }
static void pts(const PdfRect& q, const Box& a, const Box* b, bool any, vt::Rng& r) {
    std::vector<double> xs = { a.l, a.r, (a.l + a.r) / 2, a.l - 1, a.r + 1, ex(r) }, ys = { a.b, a.t, (a.b + a.t) / 2, a.b - 1, a.t + 1, ex(r) }; if (b) for (double v : { b->l, b->r, (b->l + b->r) / 2 }) xs.push_back(v); if (b) for (double v : { b->b, b->t, (b->b + b->t) / 2 }) ys.push_back(v);
    for (double x : xs) for (double y : ys) { bool w = a.has(x, y) && (!b || any || b->has(x, y)); if (q.Contains(x, y) != w) { vt::fail("point %g %g is %sin [%g %g %g %g] and [%g %g %g %g]", x, y, w ? "not " : "", a.l, a.b, a.r, a.t, b ? b->l : 0, b ? b->b : 0, b ? b->r : 0, b ? b->t : 0); return; } } }
static void near(double a, double b, const char* what) { if (!(fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)))) vt::fail("%s: %.17g instead of %.17g", what, a, b); }
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    if (p[0] == "g") { vt::Rng r(strtoull(p[5].c_str(), 0, 10)); corners(atof(p[1].c_str()), atof(p[2].c_str()), atof(p[3].c_str()), atof(p[4].c_str()), r); return; }
    vt::Rng r(strtoull(p[1].c_str(), 0, 10));
    if (p[0] == "f") { double v[4]; for (auto& x : v) { do { uint64_t b = r.next(); memcpy(&x, &b, 8); } while (!std::isfinite(x)); if (r.chance(20)) x = v[0]; } auto q = PdfRect::FromCorners(v[0], v[1], v[2], v[3]); if (!(q.GetWidth() >= 0) || !(q.GetHeight() >= 0) || q.GetLeft() != std::min(v[0], v[2]) || q.GetBottom() != std::min(v[1], v[3])) vt::fail("[%g %g %g %g] is normalised to %g %g %g %g", v[0], v[1], v[2], v[3], q.GetLeft(), q.GetBottom(), q.GetWidth(), q.GetHeight()); return; }
    double v[8]; for (auto& x : v) x = r.chance(10) ? 0 : ex(r); if (r.chance(15)) v[4 + r.below(4)] = v[r.below(4)]; if (r.chance(10)) { v[6] = v[4]; v[7] = v[5]; }
    corners(v[0], v[1], v[2], v[3], r);
    Box a = box(v[0], v[1], v[2], v[3]), b = box(v[4], v[5], v[6], v[7]); auto A = PdfRect::FromCorners(v[0], v[1], v[2], v[3]), B = PdfRect::FromCorners(v[4], v[5], v[6], v[7]);
    pts(A, a, nullptr, false, r); bool zero = b.l == 0 && b.b == 0 && b.r == 0 && b.t == 0;
    auto I = A; I.Intersect(B); pts(I, a, &b, zero, r); same(B, b, "the other rectangle"); auto J = A; J.Intersect(J); same(J, a, "intersection with itself"); J = A; J.Intersect(PdfRect()); same(J, a, "intersection with the empty rectangle");
    double sx = (int)r.below(9) - 4, sy = (int)r.below(9) - 4, tx = ex(r), ty = ex(r); if (sx == 0) sx = 1; auto M = Matrix::FromCoefficients(sx, 0, 0, sy, tx, ty); same(A * M, box(v[0] * sx + tx, v[1] * sy + ty, v[2] * sx + tx, v[3] * sy + ty), "scaled and moved rectangle");
    double m[6], n[6]; for (auto& x : m) x = (int)r.below(21) - 10; for (auto& x : n) x = (int)r.below(21) - 10; auto P = Matrix::FromArray(m), Q = Matrix::FromCoefficients(n[0], n[1], n[2], n[3], n[4], n[5]); Vector2 z(v[4], v[5]);
    auto w = z * P, w2 = (z * P) * Q, w3 = z * (P * Q); if (w.X != m[0] * z.X + m[2] * z.Y + m[4] || w.Y != m[1] * z.X + m[3] * z.Y + m[5]) vt::fail("point through a matrix"); if (w2.X != w3.X || w2.Y != w3.Y) vt::fail("a product of matrices differs from one after the other: %g %g, %g %g", w2.X, w2.Y, w3.X, w3.Y);
    auto T = Matrix::CreateTranslation({ tx, ty }), S = Matrix::CreateScale({ sx, sy }); auto t1 = z * T, s1 = z * S; if (t1.X != z.X + tx || t1.Y != z.Y + ty || s1.X != z.X * sx || s1.Y != z.Y * sy) vt::fail("translation or scaling"); auto t2 = z * P.Translated({ tx, ty }), t3 = (z + Vector2(tx, ty)) * P; if (t2.X != t3.X || t2.Y != t3.Y) vt::fail("Translated"); auto P2 = P; P2.Translate({ tx, ty }); if (P2 != P.Translated({ tx, ty })) vt::fail("Translate"); auto id = z * Matrix(); if (id.X != z.X || id.Y != z.Y) vt::fail("identity");
    PdfArray ar; P.ToArray(ar); if (ar.GetSize() != 6 || !(Matrix::FromArray(ar) == P) || Matrix::FromArray(ar) != P) vt::fail("matrix as array"); double back[6]; P.ToArray(back); for (int i = 0; i < 6; i++) if (back[i] != m[i] || P[i] != m[i]) vt::fail("coefficient %d", i); for (int i = 0; i < 6; i++) { double k[6]; memcpy(k, m, sizeof k); k[i] += 1; if (Matrix::FromArray(k) == P || !(Matrix::FromArray(k) != P)) vt::fail("matrices that differ in coefficient %d are equal", i); }
    double th = (double)r.below(628) / 100; Vector2 ce(ex(r), ex(r)); auto o = z * Matrix::CreateRotation(ce, th); near(o.X, ce.X + cos(th) * (z.X - ce.X) - sin(th) * (z.Y - ce.Y), "rotation x"); near(o.Y, ce.Y + sin(th) * (z.X - ce.X) + cos(th) * (z.Y - ce.Y), "rotation y"); auto o2 = z * Matrix::CreateRotation(th); near(o2.X, cos(th) * z.X - sin(th) * z.Y, "rotation x"); near(o2.Y, sin(th) * z.X + cos(th) * z.Y, "rotation y"); }
void vt_run(int depth, vt::Rng& rng) {
    static const char* g[] = { "0", "-3.5", "2", "612", "0.25", "-1000", "-0.0", "100000" };
    for (auto a : g) for (auto b : g) for (auto c : g) for (auto d : g) vt::go(std::string("g:") + a + ":" + b + ":" + c + ":" + d + ":" + std::to_string(rng.below(1000)));
    for (int i = 0; i < (depth ? 500000 : 20000); i++) vt::go("r:" + std::to_string(rng.below(1ull << 40)));
    for (int i = 0; i < (depth ? 3000000 : 100000); i++) vt::go("f:" + std::to_string(rng.below(1ull << 40))); }
