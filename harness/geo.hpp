// Planar correspondences and homographies for the geometry harnesses (column-major 3x3, doubles).
#pragma once
#include "core.hpp"
#include <cstring>
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_homography.h"
namespace geo {
using pbt::Gen;
typedef long double ld;
struct H3 { double h[9]; };
inline bool apply(const double *h, double x, double y, double &X, double &Y) { ld s = (ld)h[2] * x + (ld)h[5] * y + h[8]; X = (double)(((ld)h[0] * x + (ld)h[3] * y + h[6]) / s); Y = (double)(((ld)h[1] * x + (ld)h[4] * y + h[7]) / s); return s > 0; }
inline H3 mul(const H3 &a, const H3 &b) { H3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld s = 0; for (int k = 0; k < 3; ++k) s += (ld)a.h[k * 3 + i] * b.h[j * 3 + k]; r.h[j * 3 + i] = (double)s; } return r; }
inline H3 sim(double s, double tx, double ty) { return {{s, 0, 0, 0, s, 0, tx, ty, 1}}; }
inline ld det(const double *h) { return (ld)h[0] * ((ld)h[4] * h[8] - (ld)h[5] * h[7]) - (ld)h[3] * ((ld)h[1] * h[8] - (ld)h[2] * h[7]) + (ld)h[6] * ((ld)h[1] * h[5] - (ld)h[2] * h[4]); }
inline H3 inv(const H3 &a) { const double *m = a.h; ld d = det(m); H3 r; r.h[0] = (double)(((ld)m[4] * m[8] - (ld)m[7] * m[5]) / d); r.h[1] = (double)(-((ld)m[1] * m[8] - (ld)m[7] * m[2]) / d); r.h[2] = (double)(((ld)m[1] * m[5] - (ld)m[4] * m[2]) / d); r.h[3] = (double)(-((ld)m[3] * m[8] - (ld)m[6] * m[5]) / d); r.h[4] = (double)(((ld)m[0] * m[8] - (ld)m[6] * m[2]) / d); r.h[5] = (double)(-((ld)m[0] * m[5] - (ld)m[3] * m[2]) / d); r.h[6] = (double)(((ld)m[3] * m[7] - (ld)m[6] * m[4]) / d); r.h[7] = (double)(-((ld)m[0] * m[7] - (ld)m[6] * m[1]) / d); r.h[8] = (double)(((ld)m[0] * m[4] - (ld)m[3] * m[1]) / d); return r; }
// maps [-1,1]^2 to a moderate quadrangle, denominator within [0.4,1.6]
inline H3 gen_h(Gen &g, bool mirror_ok = true)
{
        double th = g.b(0.2) ? 0 : g.real(-3.2, 3.2), sx = g.b(0.2) ? 1 : g.real(0.6, 1.6), sy = g.b(0.2) ? sx : g.real(0.6, 1.6), k = g.b(0.5) ? 0 : g.real(-0.4, 0.4), p = g.b(0.3) ? 0 : 0.3, f = mirror_ok && g.b(0.15) ? -1 : 1;
        double c = std::cos(th), s = std::sin(th); H3 A = {{c * sx, s * sx, 0, f * (-s * sy + k * c), f * (c * sy + k * s), 0, g.real(-0.5, 0.5), g.real(-0.5, 0.5), 1}};
        H3 P = {{1, 0, g.real(-p, p), 0, 1, g.real(-p, p), 0, 0, 1}}; return mul(A, P);
}
struct Frame { double s, ox, oy, sp, oxp, oyp; bool pixel; };                 // coordinates = s*(normalised)+o
inline Frame gen_frame(Gen &g) { Frame f; f.pixel = g.b(); if (!f.pixel) { f.s = f.sp = 1; f.ox = f.oy = f.oxp = f.oyp = 0; } else { f.s = g.real(100, 500); f.sp = g.real(100, 500); f.ox = f.s * g.real(0.8, 1.5); f.oy = f.s * g.real(0.8, 1.5); f.oxp = f.sp * g.real(0.8, 1.5); f.oyp = f.sp * g.real(0.8, 1.5); } return f; }
inline H3 in_frame(const H3 &h, const Frame &f) { return mul(mul(sim(f.sp, f.oxp, f.oyp), h), inv(sim(f.s, f.ox, f.oy))); }
inline NXPointMatch2D match(double x, double y, double xp, double yp, bool inl, float cost = 0, uint64_t id = 0) { NXPointMatch2D m; memset(&m, 0, sizeof m); m.x[0] = (float)x; m.x[1] = (float)y; m.xp[0] = (float)xp; m.xp[1] = (float)yp; m.match_cost = cost; m.sigma_x = m.sigma_xp = 1; m.id = id; m.idp = id + 1000; m.is_inlier = inl ? NX_TRUE : NX_FALSE; return m; }
inline double area(const float *a, const float *b, const float *c) { return std::fabs(((double)b[0] - a[0]) * ((double)c[1] - a[1]) - ((double)c[0] - a[0]) * ((double)b[1] - a[1])) / 2; }
// four points in general position in [-1,1]^2, any order
inline void gen_quad(Gen &g, double q[8], double min_area = 0.15)
{
        double b[8] = {-0.8, -0.8, 0.8, -0.8, 0.8, 0.8, -0.8, 0.8}; int o[4] = {0, 1, 2, 3};
        for (int t = 0; t < 20; ++t) {
                for (int i = 0; i < 8; ++i) q[i] = g.real(-1, 1); bool ok = true; int tr[4][3] = {{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}};
                for (auto &k : tr) { float p[3][2]; for (int i = 0; i < 3; ++i) { p[i][0] = (float)q[2 * k[i]]; p[i][1] = (float)q[2 * k[i] + 1]; } if (area(p[0], p[1], p[2]) < min_area) ok = false; }
                if (ok) return;
        }
        for (int i = 3; i > 0; --i) std::swap(o[i], o[g.u(0, i)]);
        for (int i = 0; i < 4; ++i) { q[2 * i] = b[2 * o[i]]; q[2 * i + 1] = b[2 * o[i] + 1]; }
}
// the map of a quadrangle to the unit square sends the origin close to infinity (ill-posed for maps scaled to h[8]=1)
inline bool ill_unit(const double *c) { double a = c[2] - c[4], b = c[6] - c[4], e = c[3] - c[5], k = c[7] - c[5], sx = c[0] - c[2] + c[4] - c[6], sy = c[1] - c[3] + c[5] - c[7], D = a * k - b * e, gg = (sx * k - sy * b) / D, hh = (a * sy - e * sx) / D; H3 Q = {{c[2] - c[0] + gg * c[2], c[3] - c[1] + gg * c[3], gg, c[6] - c[0] + hh * c[6], c[7] - c[1] + hh * c[7], hh, c[0], c[1], 1}}; H3 I = inv(Q); double m = 0; for (int i = 0; i < 4; ++i) m = std::max(m, std::fabs(I.h[2] * c[2 * i] + I.h[5] * c[2 * i + 1] + I.h[8])); return !(std::fabs(I.h[8]) > 0.05 * m); }
inline std::string str(const H3 &h) { return pbt::strf("[%g %g %g; %g %g %g; %g %g %g]", h.h[0], h.h[3], h.h[6], h.h[1], h.h[4], h.h[7], h.h[2], h.h[5], h.h[8]); }
// largest transfer difference of two homographies over the source region, in units of the destination spread
inline double hdist(const double *a, const H3 &b, const Frame &f) { double m = 0; for (int i = 0; i <= 4; ++i) for (int j = 0; j <= 4; ++j) { double x = f.s * (i / 2.0 - 1) + f.ox, y = f.s * (j / 2.0 - 1) + f.oy, X, Y, U, V; apply(a, x, y, X, Y); apply(b.h, x, y, U, V); double d = std::hypot(X - U, Y - V) / f.sp; if (!(d <= m)) m = d; if (std::isnan(d)) return INFINITY; } return m; }
} // namespace geo
