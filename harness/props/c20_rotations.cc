// C20: rotations as matrices, axis and angle, Euler angles and quaternions, against long double definitions.
#include "../core.hpp"
#include <cstring>
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_quaternion.h"
typedef long double ld;
struct M { ld m[3][3]; };
static M mul(const M &a, const M &b) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static M elem(int ax, ld t) { M r = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; int i = (ax + 1) % 3, j = (ax + 2) % 3; r.m[i][i] = r.m[j][j] = cosl(t); r.m[i][j] = -sinl(t); r.m[j][i] = sinl(t); return r; }
static M rodrigues(const double *a, ld t)
{
        ld n = sqrtl((ld)a[0] * a[0] + (ld)a[1] * a[1] + (ld)a[2] * a[2]), x = a[0] / n, y = a[1] / n, z = a[2] / n, s = sinl(t), k = 2 * sinl(t / 2) * sinl(t / 2);
        M K = {{{0, -z, y}, {z, 0, -x}, {-y, x, 0}}}, K2 = mul(K, K), r;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = (i == j) + s * K.m[i][j] + k * K2.m[i][j];
        return r;
}
static void same(const double *R, const M &w, double tol, const char *what) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(std::fabs((double)(R[j * 3 + i] - w.m[i][j])) <= tol, "%s: entry (%d,%d) is %.17g, expected %.17g", what, i, j, R[j * 3 + i], (double)w.m[i][j]); }
static void proper(const double *R, double tol, const char *what)
{
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld s = 0; for (int k = 0; k < 3; ++k) s += (ld)R[i * 3 + k] * R[j * 3 + k]; CHECK(std::fabs((double)(s - (i == j))) <= tol, "%s: columns %d and %d have product %g", what, i, j, (double)s); }
        double d = R[0] * (R[4] * R[8] - R[5] * R[7]) - R[3] * (R[1] * R[8] - R[2] * R[7]) + R[6] * (R[1] * R[5] - R[2] * R[4]); CHECK(std::fabs(d - 1) <= tol * 4, "%s: determinant %g", what, d);
}
static double angle(Gen &g) { switch (g.u(0, 4)) { case 0: return (double)g.i(-8, 8) * M_PI / 4; case 1: return g.real(-4, 4); case 2: return (g.b() ? 1 : -1) * std::exp2((double)-g.i(1, 60)); case 3: return g.pick<double>({M_PI, -M_PI, M_PI / 2, 2 * M_PI, -M_PI / 2}) + (g.b() ? 1 : -1) * std::exp2((double)-g.i(4, 50)); default: return g.real(-50, 50); } }
static void axis(Gen &g, double *a)
{
        do { for (int i = 0; i < 3; ++i) a[i] = g.b(0.4) ? (double)g.i(-1, 1) : g.real(-1, 1); } while (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] < 1e-6);
        double s = g.b(0.6) ? 1 : std::exp2((double)g.i(-100, 100)); for (int i = 0; i < 3; ++i) a[i] *= s;
}
static void gen_q(Gen &g, double *q) { double a[3]; axis(g, a); double t = angle(g); ld n = sqrtl((ld)a[0] * a[0] + (ld)a[1] * a[1] + (ld)a[2] * a[2]); q[0] = (double)cosl(t / 2.0L); for (int i = 0; i < 3; ++i) q[1 + i] = (double)(a[i] / n * sinl(t / 2.0L)); }
static M of_q(const double *q) { ld w = q[0], x = q[1], y = q[2], z = q[3], n = w * w + x * x + y * y + z * z; return {{{(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n}, {2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n}, {2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n}}}; }

FACET(euler, 1.0, "RzRyRx and RxRyRz matrices of random, special (gimbal, half turn) and tiny angles: product of the three elementary rotations, proper orthonormal, inverted by nx_rotation_3d_invert; nontrivial: three angles not zero")
{
        double a = angle(g), b = angle(g), c = angle(g); g.note("%.17g %.17g %.17g", a, b, c); double R[9];
        nx_rotation_3d_RzRyRx(R, a, b, c); same(R, mul(mul(elem(2, c), elem(1, b)), elem(0, a)), 1e-14, "RzRyRx"); proper(R, 1e-14, "RzRyRx");
        double I[9]; memcpy(I, R, sizeof I); nx_rotation_3d_invert(I); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(I[i * 3 + j] == R[j * 3 + i], "inverse is not the transpose");
        nx_rotation_3d_RxRyRz(R, a, b, c); same(R, mul(mul(elem(0, a), elem(1, b)), elem(2, c)), 1e-14, "RxRyRz"); proper(R, 1e-14, "RxRyRz");
        g.nontrivial(a != 0 && b != 0 && c != 0);
}
FACET(axis_angle, 1.0, "matrix and quaternion of a random axis of any length and any angle: Rodrigues' rotation, proper, unit quaternion (cos, sin times unit axis), both agree; zero angle needs no axis; axis not changed; nontrivial: angle not zero")
{
        double a[3], a0[3], t = angle(g), R[9], q[4], Q[9]; axis(g, a); memcpy(a0, a, sizeof a); g.note("axis (%g,%g,%g) angle %.17g", a[0], a[1], a[2], t);
        M w = rodrigues(a, t); nx_rotation_3d_axis_angle(R, a, t); same(R, w, 1e-14, "axis_angle"); proper(R, 1e-14, "axis_angle"); for (int i = 0; i < 3; ++i) CHECK(a[i] == a0[i], "axis changed");
        nx_quaternion_from_axis_angle(q, a, t); ld n = sqrtl((ld)a[0] * a[0] + (ld)a[1] * a[1] + (ld)a[2] * a[2]);
        CHECK(std::fabs((double)(q[0] - cosl(t / 2.0L))) < 1e-15, "real part %g", q[0]); for (int i = 0; i < 3; ++i) CHECK(near_(q[1 + i], (double)(a[i] / n * sinl(t / 2.0L)), 1e-13, 1e-16), "vector part %d is %.17g", i, q[1 + i]); for (int i = 0; i < 3; ++i) CHECK(a[i] == a0[i], "axis changed");
        nx_quaternion_to_R(q, Q); same(Q, w, 1e-14, "quaternion of axis and angle");
        nx_quaternion_from_axis_angle(q, NULL, 0.0); CHECK(q[0] == 1 && q[1] == 0 && q[2] == 0 && q[3] == 0, "zero angle is not the identity");
        g.nontrivial(t != 0);
}
FACET(quaternion, 1.5, "matrix of a unit quaternion and back (up to sign), rotating vectors, with translation, for random, tiny, half-turn and diagonal-tie rotations: equals the definition, unit length; nontrivial: not the identity")
{
        double q[7], R[9], t[3], r[4]; gen_q(g, q); for (int i = 4; i < 7; ++i) q[i] = g.real(-9, 9); double q0[7]; memcpy(q0, q, sizeof q); g.note("q=(%.17g,%.17g,%.17g,%.17g)", q[0], q[1], q[2], q[3]);
        M w = of_q(q); nx_quaternion_to_R(q, R); same(R, w, 1e-14, "to_R"); proper(R, 1e-14, "to_R");
        double R2[9]; nx_quaternion_to_Rt(q, R2, t); CHECK(!memcmp(R, R2, sizeof R) && t[0] == q[4] && t[1] == q[5] && t[2] == q[6], "to_Rt"); CHECK(!memcmp(q, q0, sizeof q), "quaternion changed");
        for (auto &x : r) x = NAN; nx_quaternion_from_R(r, R); double s = q[0] * r[0] + q[1] * r[1] + q[2] * r[2] + q[3] * r[3]; double sg = s < 0 ? -1 : 1;
        for (int i = 0; i < 4; ++i) CHECK(std::fabs(r[i] - sg * q[i]) < 1e-13, "from_R gives (%.17g,%.17g,%.17g,%.17g)", r[0], r[1], r[2], r[3]);
        CHECK(std::fabs(nx_quaternion_dot(r, r) - 1) < 1e-13, "from_R is not a unit quaternion");
        // matrices with equal diagonal entries and permutations
        if (g.b(0.3)) { int p[3] = {0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(p[i], p[g.u(0, i)]); M x = {}; int sgn = 1; for (int i = 0; i < 3; ++i) { int v = g.b() ? 1 : -1; sgn *= v; x.m[p[i]][i] = v; } int inv = (p[0] > p[1]) + (p[0] > p[2]) + (p[1] > p[2]); if ((inv % 2 ? -1 : 1) * sgn < 0) for (int i = 0; i < 3; ++i) x.m[i][2] = -x.m[i][2];
                double P[9]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P[j * 3 + i] = (double)x.m[i][j]; nx_quaternion_from_R(r, P); double B[9]; nx_quaternion_to_R(r, B); same(B, x, 1e-14, "signed permutation through a quaternion"); }
        double v[3], v0[3]; for (int i = 0; i < 3; ++i) v0[i] = v[i] = g.real(-5, 5); nx_quaternion_rotate(q, v);
        for (int i = 0; i < 3; ++i) { ld e = 0; for (int j = 0; j < 3; ++j) e += w.m[i][j] * v0[j]; CHECK(std::fabs((double)(v[i] - e)) < 1e-13, "rotated vector entry %d is %.17g, expected %.17g", i, v[i], (double)e); }
        g.nontrivial(std::fabs(q[0]) < 1);
}
FACET(algebra, 1.0, "products, sums, scaling, conjugate, dot and normalising of random (also not unit) quaternions: Hamilton's rules; product of unit quaternions is the composed rotation, conjugate its inverse; nontrivial: always")
{
        double q[4], r[4], p[4], c[4]; bool unit = g.b(); if (unit) { gen_q(g, q); gen_q(g, r); } else for (int i = 0; i < 4; ++i) { q[i] = g.b(0.3) ? (double)g.i(-2, 2) : g.real(-5, 5); r[i] = g.real(-5, 5); }
        g.note("(%g,%g,%g,%g) (%g,%g,%g,%g)", q[0], q[1], q[2], q[3], r[0], r[1], r[2], r[3]);
        ld e[4] = {(ld)q[0] * r[0] - (ld)q[1] * r[1] - (ld)q[2] * r[2] - (ld)q[3] * r[3], 0, 0, 0}; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; e[1 + i] = (ld)q[0] * r[1 + i] + (ld)r[0] * q[1 + i] + (ld)q[1 + j] * r[1 + k] - (ld)q[1 + k] * r[1 + j]; }
        nx_quaternion_prod(p, q, r); memcpy(c, q, sizeof c); nx_quaternion_mul(c, r);
        for (int i = 0; i < 4; ++i) CHECK(std::fabs((double)(p[i] - e[i])) < 1e-13 && std::fabs((double)(c[i] - e[i])) < 1e-13, "product entry %d is %g / %g, expected %g", i, p[i], c[i], (double)e[i]);
        if (g.b(0.2)) { memcpy(c, q, sizeof c); nx_quaternion_mul(c, c); nx_quaternion_prod(p, q, q); for (int i = 0; i < 4; ++i) CHECK(std::fabs(p[i] - c[i]) < 1e-13, "square in place differs"); nx_quaternion_prod(p, q, r); }
        if (unit) { double R[9]; nx_quaternion_to_R(p, R); same(R, mul(of_q(q), of_q(r)), 1e-13, "rotation of the product"); double v[3] = {1, 2, 3}, u[3] = {1, 2, 3}; nx_quaternion_rotate(p, v); nx_quaternion_rotate(r, u); nx_quaternion_rotate(q, u); for (int i = 0; i < 3; ++i) CHECK(std::fabs(v[i] - u[i]) < 1e-13, "product rotates differently from its factors");
                memcpy(c, q, sizeof c); nx_quaternion_conj(c); nx_quaternion_rotate(q, v); nx_quaternion_rotate(c, v); double w[3] = {1, 2, 3}; nx_quaternion_rotate(p, w); for (int i = 0; i < 3; ++i) CHECK(std::fabs(v[i] - w[i]) < 1e-13, "conjugate does not undo the rotation"); }
        memcpy(c, q, sizeof c); nx_quaternion_conj(c); CHECK(c[0] == q[0] && c[1] == -q[1] && c[2] == -q[2] && c[3] == -q[3], "conjugate");
        double s[4]; nx_quaternion_sum(s, q, r); memcpy(c, q, sizeof c); nx_quaternion_add(c, r); for (int i = 0; i < 4; ++i) CHECK(s[i] == q[i] + r[i] && c[i] == s[i], "sum"); double f = g.real(-3, 3); memcpy(c, q, sizeof c); nx_quaternion_scale(c, f); for (int i = 0; i < 4; ++i) CHECK(c[i] == q[i] * f, "scale");
        ld d = 0, n = 0; for (int i = 0; i < 4; ++i) { d += (ld)q[i] * r[i]; n += (ld)q[i] * q[i]; } CHECK(std::fabs((double)(nx_quaternion_dot(q, r) - d)) < 1e-13, "dot"); n = sqrtl(n);
        if (n > 0) { memcpy(c, q, sizeof c); double m = nx_quaternion_to_unit(c); CHECK(near_(m, (double)n, 1e-14, 0), "to_unit returns %g", m); for (int i = 0; i < 4; ++i) CHECK(near_(c[i], (double)(q[i] / n), 1e-14, 1e-300), "to_unit entry %d", i); }
        g.nontrivial();
}
