// Two-view scenes and reference linear algebra for the epipolar and pinhole harnesses (column-major, doubles).
#pragma once
#include "geo.hpp"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_pinhole.h"
namespace geo {
typedef std::vector<std::vector<ld>> Sym;
// eigen decomposition of a symmetric matrix by Jacobi rotations: values ascending, vectors as columns of V
inline void jacobi(Sym A, std::vector<ld> &w, Sym &V)
{
        int n = (int)A.size(); V.assign(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; ++i) V[i][i] = 1;
        for (int sweep = 0; sweep < 60; ++sweep) {
                ld off = 0, tot = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { tot += A[i][j] * A[i][j]; if (i != j) off += A[i][j] * A[i][j]; } if (off <= tot * 1e-40L) break;
                for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
                        if (A[p][q] == 0) continue; ld th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
                        for (int k = 0; k < n; ++k) { ld a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
                        for (int k = 0; k < n; ++k) { ld a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
                        for (int k = 0; k < n; ++k) { ld a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; } }
        }
        std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int b) { return A[a][a] < A[b][b]; }); Sym W = V; w.resize(n); for (int i = 0; i < n; ++i) { w[i] = A[o[i]][o[i]]; for (int k = 0; k < n; ++k) V[k][i] = W[k][o[i]]; }
}
// singular values of a 3x3, ascending
inline void sv3(const double *F, double s[3]) { Sym A(3, std::vector<ld>(3, 0)), V; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) A[i][j] += (ld)F[i * 3 + k] * F[j * 3 + k]; std::vector<ld> w; jacobi(A, w, V); for (int i = 0; i < 3; ++i) s[i] = (double)sqrtl(std::max((ld)0, w[i])); }
// singular values (ascending) of the eight-point constraints of the inliers and the minimising F
inline void eight(const std::vector<NXPointMatch2D> &v, std::vector<ld> &s, double F[9])
{
        Sym A(9, std::vector<ld>(9, 0)), V; for (auto &m : v) if (m.is_inlier) { ld x[3] = {m.x[0], m.x[1], 1}, y[3] = {m.xp[0], m.xp[1], 1}, r[9]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[j * 3 + i] = y[i] * x[j]; for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) A[i][j] += r[i] * r[j]; }
        jacobi(A, s, V); for (auto &x : s) x = sqrtl(std::max((ld)0, x)); for (int i = 0; i < 9; ++i) F[i] = (double)V[i][0];
}
inline void rot(Gen &g, double amp, double *R)
{
        double q[4] = {1, g.real(-1, 1) * amp, g.real(-1, 1) * amp, g.real(-1, 1) * amp}, n = 0; for (double x : q) n += x * x; n = std::sqrt(n); for (double &x : q) x /= n; double w = q[0], x = q[1], y = q[2], z = q[3];
        double r[9] = {1 - 2 * (y * y + z * z), 2 * (x * y + z * w), 2 * (x * z - y * w), 2 * (x * y - z * w), 1 - 2 * (x * x + z * z), 2 * (y * z + x * w), 2 * (x * z + y * w), 2 * (y * z - x * w), 1 - 2 * (x * x + y * y)}; memcpy(R, r, sizeof r);
}
struct Scene { double K[9], Kp[9], R[9], t[3]; std::vector<float> X; bool pixel; };
inline void calib(Gen &g, double *K, bool pixel) { double f = pixel ? g.real(200, 1000) : 1, a = pixel ? g.real(0.8, 1.25) : 1, k = pixel && g.b(0.3) ? g.real(-5, 5) : 0, c = pixel ? 1 : 0; double M[9] = {f, 0, 0, k, f * a, 0, c * g.real(100, 600), c * g.real(100, 600), 1}; memcpy(K, M, sizeof M); }
// n points in front of both cameras: first at the origin, second at x' = K'(R x + t)
inline Scene gen_scene(Gen &g, int n, bool pixel)
{
        Scene s; s.pixel = pixel; calib(g, s.K, pixel); calib(g, s.Kp, pixel); rot(g, g.b(0.2) ? 0 : 0.15, s.R); int dir = (int)g.u(0, 2); double b = g.real(0.4, 1.5); for (int i = 0; i < 3; ++i) s.t[i] = b * (i == dir ? (g.b() ? 1 : -1) : g.b(0.3) ? 0 : g.real(-0.7, 0.7));
        for (int i = 0; i < n; ++i) { double z = g.real(3, 8); s.X.push_back((float)(z * g.real(-0.6, 0.6))); s.X.push_back((float)(z * g.real(-0.6, 0.6))); s.X.push_back((float)z); } return s;
}
inline void proj(const double *K, const double *R, const double *t, const float *X, ld o[3]) { ld c[3]; for (int i = 0; i < 3; ++i) { c[i] = t ? t[i] : 0; for (int j = 0; j < 3; ++j) c[i] += (R ? (ld)R[j * 3 + i] : i == j) * X[j]; } for (int i = 0; i < 3; ++i) { o[i] = 0; for (int j = 0; j < 3; ++j) o[i] += (K ? (ld)K[j * 3 + i] : i == j) * c[j]; } }
inline std::vector<NXPointMatch2D> views(const Scene &s) { std::vector<NXPointMatch2D> v; for (size_t i = 0; i < s.X.size(); i += 3) { ld a[3], b[3]; proj(s.K, nullptr, nullptr, &s.X[i], a); proj(s.Kp, s.R, s.t, &s.X[i], b); v.push_back(match((double)(a[0] / a[2]), (double)(a[1] / a[2]), (double)(b[0] / b[2]), (double)(b[1] / b[2]), true)); } return v; }
inline void ess(const double *R, const double *t, double *E) { for (int j = 0; j < 3; ++j) { const double *r = R + 3 * j; E[3 * j] = t[1] * r[2] - t[2] * r[1]; E[3 * j + 1] = t[2] * r[0] - t[0] * r[2]; E[3 * j + 2] = t[0] * r[1] - t[1] * r[0]; } }
inline double frob(const double *a) { double s = 0; for (int i = 0; i < 9; ++i) s += a[i] * a[i]; return std::sqrt(s); }
// distance of two matrices up to scale and sign, both normalised
inline double upto(const double *a, const double *b) { double na = frob(a), nb = frob(b), p = 0, m = 0; for (int i = 0; i < 9; ++i) { p += std::pow(a[i] / na - b[i] / nb, 2); m += std::pow(a[i] / na + b[i] / nb, 2); } double r = std::sqrt(std::min(p, m)); return std::isnan(r) ? INFINITY : r; }
inline double epidist(const double *F, const NXPointMatch2D &m) { ld l[3]; for (int i = 0; i < 3; ++i) l[i] = (ld)F[i] * m.x[0] + (ld)F[3 + i] * m.x[1] + F[6 + i]; return (double)(fabsl(l[0] * m.xp[0] + l[1] * m.xp[1] + l[2]) / sqrtl(l[0] * l[0] + l[1] * l[1])); }
} // namespace geo
