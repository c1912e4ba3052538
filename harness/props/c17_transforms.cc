// C17: planar transforms and bilinear warps against plain matrix arithmetic.
#include "../img.hpp"
#include "virg/nexus/nx_transform_2d.h"
#include "virg/nexus/nx_image_warp.h"
using namespace im;
typedef long double ld;
struct M3 { ld m[3][3]; };
static M3 eye() { return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
static M3 mul(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static M3 trans(ld x, ld y) { M3 r = eye(); r.m[0][2] = x; r.m[1][2] = y; return r; }
static M3 rot(ld a) { M3 r = eye(); r.m[0][0] = cosl(a); r.m[0][1] = -sinl(a); r.m[1][0] = sinl(a); r.m[1][1] = cosl(a); return r; }
static M3 diag(ld a, ld b) { M3 r = eye(); r.m[0][0] = a; r.m[1][1] = b; return r; }
// t is column major
template <class T> static void check_mat(const T *t, const M3 &e, double eps, double lin, double tr, const char *what)
{
        for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) {
                double tol = r == 2 ? 0 : eps * (c == 2 ? tr : lin);
                CHECK(std::fabs((double)(t[c * 3 + r] - e.m[r][c])) <= tol, "%s: entry (%d,%d) is %.9g, the product of the factors has %.9g", what, r, c, (double)t[c * 3 + r], (double)e.m[r][c]);
        }
}
static double angle(Gen &g) { return g.b(0.3) ? (double)g.i(-8, 8) * M_PI / 4 : g.real(-10, 10); }
static double shift(Gen &g) { switch (g.u(0, 2)) { case 0: return (double)g.i(-3, 3); case 1: return g.real(-50, 50); default: return g.real(-1e4, 1e4); } }
static double scale(Gen &g) { double s = std::exp(g.real(-5, 5)); return g.b(0.15) ? -s : g.b(0.1) ? 1.0 : s; }

FACET(similarity, 0.8, "similarity matrix from any translations, scale and angle, in single and double precision: equals T(post) lambda R(theta) T(pre) in extended precision, last row exactly 0 0 1; nontrivial: both translations and the angle are not zero")
{
        double a = shift(g), b = shift(g), l = scale(g), th = angle(g), c = shift(g), d = shift(g); g.note("post (%g,%g) lambda %g theta %g pre (%g,%g)", a, b, l, th, c, d);
        double t[9]; for (auto &v : t) v = NAN; nx_transform_2d_fill_similarity_d(t, a, b, l, th, c, d);
        double tr = std::fabs(a) + std::fabs(b) + std::fabs(l) * (std::fabs(c) + std::fabs(d)) + 1e-300;
        check_mat(t, mul(mul(mul(trans(a, b), diag(l, l)), rot(th)), trans(c, d)), 1e-14, std::fabs(l), tr, "similarity_d");
        float s[9]; for (auto &v : s) v = NAN; nx_transform_2d_fill_similarity_s(s, (float)a, (float)b, (float)l, (float)th, (float)c, (float)d);
        check_mat(s, mul(mul(mul(trans((float)a, (float)b), diag((float)l, (float)l)), rot((float)th)), trans((float)c, (float)d)), 1e-6, std::fabs(l), tr, "similarity_s");
        g.nontrivial(a != 0 && c != 0 && d != 0 && th != 0);
}
FACET(affine, 0.8, "affine matrix from any translations, scale, rotations and tilt (cos theta not near 0), single and double precision: equals T(post) lambda R(psi) diag(1/cos theta,1) R(phi) T(pre); nontrivial: tilt and translations not zero")
{
        double a = shift(g), b = shift(g), l = scale(g), psi = angle(g), th = g.b(0.1) ? 0 : g.real(-1.5, 1.5), phi = angle(g), c = shift(g), d = shift(g); g.note("post (%g,%g) lambda %g psi %g theta %g phi %g pre (%g,%g)", a, b, l, psi, th, phi, c, d);
        double t[9]; for (auto &v : t) v = NAN; nx_transform_2d_fill_affine_d(t, a, b, l, psi, th, phi, c, d);
        double k = std::fabs(l / std::cos(th)) + std::fabs(l), tr = std::fabs(a) + std::fabs(b) + k * (std::fabs(c) + std::fabs(d)) + 1e-300;
        check_mat(t, mul(mul(mul(mul(mul(trans(a, b), diag(l, l)), rot(psi)), diag(1 / cosl((ld)th), 1)), rot(phi)), trans(c, d)), 1e-13, k, tr, "affine_d");
        float s[9]; for (auto &v : s) v = NAN; nx_transform_2d_fill_affine_s(s, (float)a, (float)b, (float)l, (float)psi, (float)th, (float)phi, (float)c, (float)d);
        check_mat(s, mul(mul(mul(mul(mul(trans((float)a, (float)b), diag((float)l, (float)l)), rot((float)psi)), diag(1 / cosl((ld)(float)th), 1)), rot((float)phi)), trans((float)c, (float)d)), 5e-6, k, tr, "affine_s");
        g.nontrivial(th != 0 && a != 0 && c != 0 && d != 0);
}
FACET(perspective, 1.0, "perspective matrix of a random quadrangle (random affine image of the unit square with moved corners, either orientation) in double and single precision: maps its four corners to (0,0),(1,0),(1,1),(0,1), and nonzero determinant is returned; degenerate quadrangles return a determinant near 0 without crash; nontrivial: no two sides parallel")
{
        // corners = affine map of a perturbed unit square
        double q[8] = {0, 0, 1, 0, 1, 1, 0, 1}; double amt = g.pick<double>({0, 0.05, 0.2, 0.3});
        for (auto &v : q) v += g.real(-amt, amt);
        double s = std::exp(g.real(-2, 2)), th = angle(g), f = g.b(0.3) ? -1 : 1, r = std::exp(g.real(-0.7, 0.7)), k = g.pick<double>({0, 0.3, 2}), dx = g.real(-k, k) * s, dy = g.real(-k, k) * s, c[8]; float cs[8];
        for (int i = 0; i < 4; ++i) { double x = q[2 * i] * s * r, y = f * q[2 * i + 1] * s; c[2 * i] = std::cos(th) * x - std::sin(th) * y + dx; c[2 * i + 1] = std::sin(th) * x + std::cos(th) * y + dy; }
        for (int i = 0; i < 8; ++i) cs[i] = (float)c[i];
        g.note("(%g,%g) (%g,%g) (%g,%g) (%g,%g)", c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]);
        double t[9]; double det = nx_transform_2d_fill_perspective_d(t, c);
        float ts[9]; float dets = nx_transform_2d_fill_perspective_s(ts, cs);
        // the matrix is scaled to t[8]=1: skip maps sending the origin near infinity
        ld X[8] = {0, 0, 1, 0, 1, 1, 0, 1};
        // inverse map (square -> quad) in long double, to find how the origin behaves
        ld sx = c[0] - c[2] + c[4] - c[6], sy = c[1] - c[3] + c[5] - c[7], d1 = c[2] - c[4], d2 = c[6] - c[4], e1 = c[3] - c[5], e2 = c[7] - c[5], D = d1 * e2 - d2 * e1;
        if (fabsl(D) < 1e-6L * s * s) g.discard();
        ld gg = (sx * e2 - sy * d2) / D, hh = (d1 * sy - e1 * sx) / D;
        M3 Q = {{{c[2] - c[0] + gg * c[2], c[6] - c[0] + hh * c[6], c[0]}, {c[3] - c[1] + gg * c[3], c[7] - c[1] + hh * c[7], c[1]}, {gg, hh, 1}}};
        ld w0 = Q.m[0][0] * Q.m[1][1] - Q.m[0][1] * Q.m[1][0], nrm = fabsl(Q.m[0][0]) + fabsl(Q.m[1][1]) + fabsl(Q.m[0][1]) + fabsl(Q.m[1][0]);
        if (fabsl(w0) < 0.05L * nrm * nrm) g.discard();
        CHECK(det != 0 && std::isfinite(det), "determinant %g of a proper quadrangle", det);
        for (int i = 0; i < 4; ++i) {
                ld w = t[2] * (ld)c[2 * i] + t[5] * (ld)c[2 * i + 1] + t[8], x = (t[0] * (ld)c[2 * i] + t[3] * (ld)c[2 * i + 1] + t[6]) / w, y = (t[1] * (ld)c[2 * i] + t[4] * (ld)c[2 * i + 1] + t[7]) / w;
                CHECK(fabsl(x - X[2 * i]) < 1e-5 && fabsl(y - X[2 * i + 1]) < 1e-5, "corner %d maps to (%.9g,%.9g), not (%g,%g)", i, (double)x, (double)y, (double)X[2 * i], (double)X[2 * i + 1]);
        }
        bool wellf = k <= 0.3 && s > 0.5 && s < 2;      // single precision loses accuracy away from the origin
        if (wellf) for (int i = 0; i < 4; ++i) {
                double w = ts[2] * (double)cs[2 * i] + ts[5] * (double)cs[2 * i + 1] + ts[8], x = (ts[0] * (double)cs[2 * i] + ts[3] * (double)cs[2 * i + 1] + ts[6]) / w, y = (ts[1] * (double)cs[2 * i] + ts[4] * (double)cs[2 * i + 1] + ts[7]) / w;
                CHECK(std::fabs(x - (double)X[2 * i]) < 2e-2 && std::fabs(y - (double)X[2 * i + 1]) < 2e-2, "single precision: corner %d maps to (%.9g,%.9g), not (%g,%g)", i, x, y, (double)X[2 * i], (double)X[2 * i + 1]);
        }
        (void)dets;
        g.nontrivial(amt > 0);
}

enum Bg { BLACK, WHITE, NOISE, REPEAT, MIRROR };
static int mirror(long i, int n) { if (n == 1) return 0; long p = 2L * n - 2; i %= p; if (i < 0) i += p; return (int)(i < n ? i : p - i); }
// possible results at real position (X,Y) known to within (ex,ey)
static bool warp_ok(const Mod &m, double got, double X, double Y, double ex, double ey, Bg bg, std::string *want)
{
        bool in_sure = X - ex >= 0 && X + ex < m.w - 1 && Y - ey >= 0 && Y + ey < m.h - 1;
        bool out_sure = X + ex < 0 || X - ex > m.w - 1 || Y + ey < 0 || Y - ey > m.h - 1;
        double lo = 1e9, hi = -1e9;
        if (!in_sure) {
                if (bg == BLACK) lo = hi = 0; else if (bg == WHITE) lo = hi = 255; else if (bg == NOISE) { lo = 0; hi = 255; }
        }
        if (!out_sure || bg == REPEAT || bg == MIRROR) {
                // bilinear value over the uncertainty box: evaluate at its corners and at integer lines inside
                std::vector<double> xs{X - ex, X + ex, X}, ys{Y - ey, Y + ey, Y};
                if (ex > 20 || ey > 20) return true;
                for (double k = std::ceil(X - ex); k <= X + ex; ++k) xs.push_back(k);
                for (double k = std::ceil(Y - ey); k <= Y + ey; ++k) ys.push_back(k);
                for (double x : xs) for (double y : ys) {
                        long x0 = (long)std::floor(x), y0 = (long)std::floor(y); double u = x - x0, v = y - y0;
                        auto px = [&](long a, long b) -> double {
                                if (bg == MIRROR) return m.at(mirror(a, m.w), mirror(b, m.h));
                                return m.rep((int)std::max(-1L, std::min(a, (long)m.w)), (int)std::max(-1L, std::min(b, (long)m.h)));
                        };
                        double q = (1 - v) * ((1 - u) * px(x0, y0) + u * px(x0 + 1, y0)) + v * ((1 - u) * px(x0, y0 + 1) + u * px(x0 + 1, y0 + 1));
                        if (!m.f32) { lo = std::min(lo, std::floor(std::max(0.0, q - 2e-3))); hi = std::max(hi, std::floor(std::min(255.0, q + 2e-3))); }
                        else { lo = std::min(lo, q - 1e-5 * (1 + std::fabs(q))); hi = std::max(hi, q + 1e-5 * (1 + std::fabs(q))); }
                }
        }
        if (want) *want = strf("%.9g..%.9g", lo, hi);
        return got >= lo && got <= hi;
}
FACET(warp, 2.5, "affine bilinear warp of a random 8-bit image by a random or special (identity, integer shift, flip, rotation, huge shrink) transform for any destination size, strides and border policy: every pixel is the interpolation at the mapped position or what the policy prescribes outside; bytes between rows and the source stay; nontrivial: positions both inside and outside")
{
        bool big = g.b(0.03), wide = g.b(); Mod m = big ? gen_mod(g, 1, wide ? 1500 : 5, 1, wide ? 5 : 1500, 1, false) : gen_mod(g, 1, 40, 1, 40, 1, false); int ss = m.w + (g.b() ? (int)g.u(0, 9) : 0), dw = big ? gen_dim(g, 1, wide ? 2500 : 6) : gen_dim(g, 1, 60), dh = big ? gen_dim(g, 1, wide ? 6 : 2500) : gen_dim(g, 1, 60), ds = dw + (g.b() ? (int)g.u(0, 9) : 0); Bg bg = (Bg)g.u(0, 4);
        float t[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
        switch (g.u(0, 4)) {
        case 0: break;
        case 1: t[6] = (float)g.i(-50, 50); t[7] = (float)g.i(-50, 50); if (g.b()) t[6] += 0.5f; if (g.b(0.3)) { t[0] = -1; } break;
        case 2: { double a = angle(g), s = std::exp(g.real(-1.5, 1.5)), cx = g.real(-5, m.w + 5), cy = g.real(-5, m.h + 5); t[0] = (float)(s * std::cos(a)); t[1] = (float)(s * std::sin(a)); t[3] = -t[1]; t[4] = t[0]; t[6] = (float)(cx - t[0] * dw / 2 - t[3] * dh / 2); t[7] = (float)(cy - t[1] * dw / 2 - t[4] * dh / 2); break; }
        case 3: for (int i : {0, 1, 3, 4}) t[i] = (float)g.real(-2, 2); t[6] = (float)g.real(-60, 60); t[7] = (float)g.real(-60, 60); break;
        default: for (int i : {0, 1, 3, 4}) t[i] = (float)g.real(-40, 40); t[6] = (float)g.real(-500, 500); t[7] = (float)g.real(-500, 500); break;
        }
        std::vector<uchar> src((size_t)ss * (m.h - 1) + m.w), dst((size_t)ds * (dh - 1) + dw); Rng r{g.bits64()}; for (auto &v : src) v = (uchar)r(); for (auto &v : dst) v = (uchar)r();
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) src[(size_t)y * ss + x] = (uchar)m.at(x, y);
        auto src0 = src, dst0 = dst; static const char *BN[] = {"black", "white", "noise", "repeat", "mirror"};
        g.note("%s stride %d -> %dx%d stride %d, %s, t=[%g %g %g; %g %g %g]", brief(m).c_str(), ss, dw, dh, ds, BN[bg], t[0], t[3], t[6], t[1], t[4], t[7]);
        nx_image_warp_affine_bilinear(dw, dh, dst.data(), ds, m.w, m.h, src.data(), ss, t, (NXImageWarpBackgroundMode)bg);
        CHECK(src == src0, "source changed");
        int in = 0, out = 0;
        for (int y = 0; y < dh; ++y) for (int x = 0; x < ds && (size_t)y * ds + x < dst.size(); ++x) {
                double got = dst[(size_t)y * ds + x];
                if (x >= dw) { CHECK(got == dst0[(size_t)y * ds + x], "byte %d after row %d changed", x - dw, y); continue; }
                double X = (double)t[0] * x + (double)t[3] * y + t[6], Y = (double)t[1] * x + (double)t[4] * y + t[7];
                // rounding of the running sums in single precision
                bool ex0 = true; for (int i : {0, 1, 3, 4, 6, 7}) if (t[i] * 2 != std::floor(t[i] * 2) || std::fabs(t[i]) > 1000) ex0 = false;
                double mx = std::fabs(t[0]) * dw + std::fabs(t[3]) * dh + std::fabs(t[6]), my = std::fabs(t[1]) * dw + std::fabs(t[4]) * dh + std::fabs(t[7]);
                double ex = ex0 ? 0 : 6e-8 * mx * (x + 4), ey = ex0 ? 0 : 6e-8 * my * (x + 4);
                (X >= 0 && X <= m.w - 1 && Y >= 0 && Y <= m.h - 1 ? in : out)++;
                std::string want; CHECK(warp_ok(m, got, X, Y, ex, ey, bg, &want), "pixel (%d,%d), source position (%.6f,%.6f) of %dx%d, %s border: %g, expected %s", x, y, X, Y, m.w, m.h, BN[bg], got, want.c_str());
        }
        g.nontrivial(in && out);
}
FACET(rotate45, 1.2, "rotation by 45 degrees either way of a random 8-bit or float image (also values outside [0,1]) into a destination of any size and stride: every pixel is the interpolation at the rotated position about the centres, black outside; nontrivial: pixels inside")
{
        bool f = g.b(); double lo = g.pick<double>({0, -3, 0}), hi = g.pick<double>({1, 255, 5}); Mod m = gen_mod(g, 1, 40, 1, 40, 1, f, lo, hi), d = gen_mod(g, 1, 60, 1, 60, 1, f); bool cw = g.b();
        Holder s(make(m, gen_stride(g, m))), o(make(d, gen_stride(g, d), 3)); g.note("%s -> %dx%d %s", brief(m).c_str(), d.w, d.h, cw ? "cw" : "ccw");
        nx_image_rotate45(o, s, cw ? NX_TRUE : NX_FALSE);
        check_shape(o, d.w, d.h, 1, f, "rotated image"); check_same(s, m, "source");
        double q = std::sqrt(0.5), C = cw ? 1 : -1; int in = 0;
        for (int y = 0; y < d.h; ++y) for (int x = 0; x < d.w; ++x) {
                double dx = x - d.w / 2.0, dy = y - d.h / 2.0, X = m.w / 2.0 + q * (dx + C * dy), Y = m.h / 2.0 + q * (dy - C * dx), e = 6e-8 * (m.w + m.h + d.w + d.h) * (x + 4);
                if (X > 0 && X < m.w - 1 && Y > 0 && Y < m.h - 1) ++in;
                std::string want; CHECK(warp_ok(m, get(o, x, y), X, Y, e, e, BLACK, &want), "pixel (%d,%d), source position (%.6f,%.6f) of %s: %.9g, expected %s", x, y, X, Y, brief(m).c_str(), get(o, x, y), want.c_str());
        }
        g.nontrivial(in > 0);
}
