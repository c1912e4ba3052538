// C19: vectors, matrices, SVD, symmetric solver and matrix text against their definitions in extended precision.
#include "../core.hpp"
#include <cfloat>
#include <cstring>
extern "C" {
#include "virg/nexus/nx_alloc.h"
}
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_vec.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_vec234.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_linear_solvers.h"
typedef long double ld;
typedef std::vector<double> V; typedef std::vector<float> F;
static double entry(Gen &g, int kind, double sc) { return kind == 0 ? (double)g.i(-4, 4) : kind == 1 ? g.real(-1, 1) * sc : g.b(0.3) ? 0.0 : g.real(-1, 1) * sc; }
static double gscale(Gen &g, double r) { return g.b() ? 1.0 : std::exp2((double)g.i(-(int)r, (int)r)); }

FACET(vectors, 0.8, "vector set, copy, norm, axpy, unit, maximum and squared distance for random lengths (0 upwards) and values: equal sums computed in extended precision, first maximum reported, neighbours of the vector untouched; nontrivial: at least 2 entries")
{
        int n = (int)(g.b(0.1) ? g.u(0, 3000) : g.u(0, 20)), kind = (int)g.u(0, 2); double sc = gscale(g, 60); V v(n + 2), w(n + 2), o; F f(n + 2);
        for (int i = 0; i < n + 2; ++i) { v[i] = entry(g, kind, sc); w[i] = entry(g, kind, sc); f[i] = (float)entry(g, kind, gscale(g, 20)); }
        g.note("n=%d kind %d scale %g", n, kind, sc);
        double *p = v.data() + 1; ld s = 0, s2 = 0; for (int i = 0; i < n; ++i) { s += (ld)p[i] * p[i]; s2 += (ld)f[1 + i] * f[1 + i]; }
        CHECK(near_(nx_dvec_norm_sq(n, p), (double)s, 1e-12, 0), "norm_sq %g expected %g", nx_dvec_norm_sq(n, p), (double)s);
        CHECK(near_(nx_dvec_norm(n, p), (double)sqrtl(s), 1e-12, 0), "norm %g expected %g", nx_dvec_norm(n, p), (double)sqrtl(s));
        CHECK(near_(nx_svec_norm_sq(n, &f[1]), (double)s2, 1e-6 * (n + 4), 1e-37), "svec norm_sq %g expected %g", nx_svec_norm_sq(n, &f[1]), (double)s2);
        CHECK(near_(nx_svec_norm(n, &f[1]), (double)sqrtl(s2), 1e-6 * (n + 4), 1e-18), "svec norm");
        o = v; double a = g.b(0.2) ? 0 : g.real(-3, 3); nx_dvec_axpy(n, p, a, &w[1]);
        for (int i = 0; i < n; ++i) CHECK(near_(p[i], (double)((ld)o[1 + i] + (ld)a * w[1 + i]), 1e-14, 1e-14 * std::max(std::fabs(o[1 + i]), std::fabs(a * w[1 + i]))), "axpy entry %d", i);
        CHECK(v[0] == o[0] && v[n + 1] == o[n + 1], "axpy wrote outside the vector");
        nx_dvec_copy(n, p, &w[1]); for (int i = 0; i < n; ++i) CHECK(p[i] == w[1 + i], "copy entry %d", i); CHECK(v[0] == o[0] && v[n + 1] == o[n + 1], "copy wrote outside the vector");
        nx_dvec_set(n, p, a); for (int i = 0; i < n; ++i) CHECK(p[i] == a, "set entry %d", i); nx_dvec_set_zero(n, p); for (int i = 0; i < n; ++i) CHECK(p[i] == 0, "set_zero entry %d", i);
        CHECK(v[0] == o[0] && v[n + 1] == o[n + 1], "set wrote outside the vector");
        if (n) {
                int mi = 0; for (int i = 1; i < n; ++i) if (f[1 + i] > f[1 + mi]) mi = i;
                CHECK(nx_svec_max_idx(n, &f[1]) == mi && nx_svec_max_val(n, &f[1]) == f[1 + mi], "largest float entry");
                std::vector<int> q(n); for (auto &x : q) x = g.b(0.3) ? g.any_int() : (int)g.i(-3, 3); if (*std::max_element(q.begin(), q.end()) > INT_MIN) { CHECK(nx_ivec_max_idx(n, q.data()) == std::max_element(q.begin(), q.end()) - q.begin(), "largest int entry"); }
                nx_ivec_set_zero(n, q.data()); for (int x : q) CHECK(x == 0, "ivec set_zero");
                std::vector<uchar> x(n), y(n); long d = 0; for (int i = 0; i < n; ++i) { x[i] = (uchar)g.u(0, 255); y[i] = (uchar)g.u(0, 255); d += ((long)x[i] - y[i]) * ((long)x[i] - y[i]); }
                CHECK(nx_ucvec_dist_sq(n, x.data(), y.data()) == d, "squared distance of byte vectors %d, expected %ld", nx_ucvec_dist_sq(n, x.data(), y.data()), d);
                F u = f; float r = nx_svec_to_unit(n, &u[1]); CHECK(near_(r, (double)sqrtl(s2), 1e-6 * (n + 4), 1e-18), "to_unit returns %g, norm %g", r, (double)sqrtl(s2));
                if (r > 1e-15) for (int i = 0; i < n; ++i) CHECK(near_(u[1 + i], f[1 + i] / (double)sqrtl(s2), 1e-6 * (n + 4), 1e-30), "to_unit entry %d", i); else if (r == 0) for (int i = 0; i < n; ++i) CHECK(u[1 + i] == f[1 + i], "to_unit changed a zero vector");
                CHECK(u[0] == f[0] && u[n + 1] == f[n + 1], "to_unit wrote outside the vector");
                nx_svec_set_zero(n, &f[1]); for (int i = 0; i < n; ++i) CHECK(f[1 + i] == 0, "svec set_zero");
        }
        // three-vectors
        double A[3], B[3], C[3]; for (int i = 0; i < 3; ++i) { A[i] = entry(g, kind, sc); B[i] = entry(g, kind, sc); }
        nx_dvec3_cross(C, A, B); double big = 1e-15 * 4 * sc * sc * (kind == 0 ? 16 : 1);
        for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; CHECK(near_(C[i], (double)((ld)A[j] * B[k] - (ld)A[k] * B[j]), 0, big), "cross entry %d", i); }
        CHECK(near_(nx_dvec3_dot(A, B), (double)((ld)A[0] * B[0] + (ld)A[1] * B[1] + (ld)A[2] * B[2]), 1e-15, big), "dot");
        ld q = (ld)A[0] * A[0] + (ld)A[1] * A[1] + (ld)A[2] * A[2]; CHECK(near_(nx_dvec3_norm_sq(A), (double)q, 1e-14, 0) && near_(nx_dvec3_norm(A), (double)sqrtl(q), 1e-14, 0), "three-vector norm");
        double U[3]; nx_dvec3_copy(U, A); double r = nx_dvec3_to_unit(U); CHECK(near_(r, (double)sqrtl(q), 1e-14, 0), "to_unit returns %g", r); if (r > 0) for (int i = 0; i < 3; ++i) CHECK(near_(U[i], (double)(A[i] / sqrtl(q)), 1e-14, 1e-300), "unit vector"); else CHECK(U[0] == 0 && U[1] == 0 && U[2] == 0, "zero vector changed");
        float a3[4], b3[4]; for (int i = 0; i < 4; ++i) { a3[i] = (float)entry(g, kind, 1); b3[i] = (float)entry(g, kind, 1); }
        double n3 = 0, d3 = 0, t3 = 0; for (int i = 0; i < 3; ++i) { n3 += (double)a3[i] * a3[i]; d3 += ((double)a3[i] - b3[i]) * ((double)a3[i] - b3[i]); t3 += (double)a3[i] * b3[i]; }
        CHECK(near_(nx_svec3_norm_sq(a3), n3, 1e-6, 1e-37) && near_(nx_svec3_dist_sq(a3, b3), d3, 1e-5, 1e-6) && near_(nx_svec3_dot(a3, b3), t3, 1e-6, 1e-5), "float three-vectors");
        if (std::fabs(a3[3]) > 1e-3) { float e[4]; memcpy(e, a3, sizeof e); float wv = nx_svec4h_to_euclidean(e); CHECK(wv == a3[3] && e[3] == 1 && near_(e[0], a3[0] / (double)wv, 1e-6, 0) && near_(e[1], a3[1] / (double)wv, 1e-6, 0) && near_(e[2], a3[2] / (double)wv, 1e-6, 0), "homogeneous division"); }
        g.nontrivial(n >= 2);
}
FACET(products, 1.0, "set, product and in-place transpose of random matrices of any shape and leading dimension, 3x3 and 4x4 products, transforms, epipolar form, norms and block setters: equal the definition, nothing else written; nontrivial: not square")
{
        int m = (int)g.u(1, 12), n = (int)g.u(1, 12), k = (int)g.u(1, 12), la = m + (int)g.u(0, 3), lb = k + (int)g.u(0, 3), lc = m + (int)g.u(0, 3), kind = (int)g.u(0, 2); double sc = gscale(g, 40);
        V A(la * k), B(lb * n), C(lc * n, 77), C0; for (auto &x : A) x = entry(g, kind, sc); for (auto &x : B) x = entry(g, kind, sc); g.note("%dx%d times %dx%d, ld %d %d %d", m, k, k, n, la, lb, lc);
        nx_dmat_mul(m, n, k, A.data(), la, B.data(), lb, C.data(), lc);
        for (int c = 0; c < n; ++c) for (int r = 0; r < lc; ++r) {
                if (r >= m) { CHECK(C[c * lc + r] == 77, "product wrote below column %d", c); continue; }
                ld s = 0, t = 0; for (int j = 0; j < k; ++j) { s += (ld)A[j * la + r] * B[c * lb + j]; t += fabsl((ld)A[j * la + r] * B[c * lb + j]); }
                CHECK(near_(C[c * lc + r], (double)s, 0, 1e-14 * (double)t), "entry (%d,%d) of the product is %.17g, expected %.17g", r, c, C[c * lc + r], (double)s);
        }
        double val = entry(g, 1, sc); V D(lc * n, 77); nx_dmat_set(m, n, D.data(), lc, val); for (int i = 0; i < lc * n; ++i) CHECK(D[i] == (i % lc < m ? val : 77), "set, element %d", i);
        nx_dmat_set_zero(m, n, D.data(), lc); for (int i = 0; i < lc * n; ++i) CHECK(D[i] == (i % lc < m ? 0 : 77), "set_zero, element %d", i);
        int tm = (int)(g.b(0.1) ? g.u(1, 90) : m), tn = n; if (g.b(0.01)) { tm = (int)g.u(1, 300); tn = (int)g.u(1, 120); } V T(tm * tn), T0; for (auto &x : T) x = g.unit(); T0 = T; nx_dmat_transpose(tm, tn, T.data());
        for (int r = 0; r < tm; ++r) for (int c = 0; c < tn; ++c) CHECK(T[r * tn + c] == T0[c * tm + r], "transpose of %dx%d: entry (%d,%d)", tm, tn, r, c);
        // fixed size
        double P[16], Q[16], R[16]; float p[16], q[16], r[16]; for (int i = 0; i < 16; ++i) { P[i] = entry(g, kind, sc); Q[i] = entry(g, kind, sc); p[i] = (float)entry(g, kind, 1); q[i] = (float)entry(g, kind, 1); }
        for (int N : {3, 4}) {
                if (N == 3) { nx_dmat3_mul(R, P, Q); nx_smat3_mul(r, p, q); } else { nx_dmat4_mul(R, P, Q); nx_smat4_mul(r, p, q); }
                for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { ld s = 0, t = 0, s2 = 0; for (int l = 0; l < N; ++l) { s += (ld)P[l * N + i] * Q[j * N + l]; t += fabsl((ld)P[l * N + i] * Q[j * N + l]); s2 += (ld)p[l * N + i] * q[j * N + l]; }
                        CHECK(near_(R[j * N + i], (double)s, 0, 1e-14 * (double)t), "%dx%d product entry (%d,%d)", N, N, i, j); CHECK(near_(r[j * N + i], (double)s2, 0, 1e-4), "float %dx%d product entry (%d,%d)", N, N, i, j); }
        }
        // upper triangular factor: entries below the diagonal are not used
        double U[9]; memcpy(U, P, sizeof U); U[1] = U[2] = U[5] = NAN; double UA[9]; nx_dmat3_mul_ua(UA, U, Q);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld s = 0, t = 0; for (int l = i; l < 3; ++l) { s += (ld)P[l * 3 + i] * Q[j * 3 + l]; t += fabsl((ld)P[l * 3 + i] * Q[j * 3 + l]); } CHECK(near_(UA[j * 3 + i], (double)s, 0, 1e-14 * (double)t), "triangular product entry (%d,%d)", i, j); }
        double v[3] = {Q[9], Q[10], Q[11]}, v0[3] = {v[0], v[1], v[2]}; nx_dmat3_transform(P, v); for (int i = 0; i < 3; ++i) { ld s = 0, t = 0; for (int l = 0; l < 3; ++l) { s += (ld)P[l * 3 + i] * v0[l]; t += fabsl((ld)P[l * 3 + i] * v0[l]); } CHECK(near_(v[i], (double)s, 0, 1e-14 * (double)t), "transform entry %d", i); }
        double x[2] = {Q[0], Q[1]}, xp[2] = {Q[2], Q[3]}; ld e = 0, et = 0; double hx[3] = {x[0], x[1], 1}, hp[3] = {xp[0], xp[1], 1}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { e += (ld)hp[i] * P[j * 3 + i] * hx[j]; et += fabsl((ld)hp[i] * P[j * 3 + i] * hx[j]); }
        CHECK(near_(nx_dmat3_xptFx(P, x, xp), (double)e, 0, 1e-14 * (double)et), "x'Fx is %g, expected %g", nx_dmat3_xptFx(P, x, xp), (double)e);
        ld fs = 0; for (int i = 0; i < 9; ++i) fs += (ld)P[i] * P[i]; CHECK(near_(nx_dmat3_frob_norm(P), (double)sqrtl(fs), 1e-14, 0), "Frobenius norm");
        double S[9]; nx_dmat3_copy(S, P); nx_dmat3_sub(S, Q); for (int i = 0; i < 9; ++i) CHECK(S[i] == P[i] - Q[i], "difference");
        double M[16]; nx_dmat4_eye(M); for (int i = 0; i < 16; ++i) CHECK(M[i] == (i % 5 == 0), "4x4 identity"); nx_dmat4_set_rotation(M, P); nx_dmat4_set_translation(M, Q);
        for (int i = 0; i < 16; ++i) { int rr = i % 4, cc = i / 4; double w = rr == 3 ? cc == 3 : cc == 3 ? Q[rr] : P[cc * 3 + rr]; CHECK(M[i] == w, "4x4 with rotation and translation, element %d", i); }
        float Ms[16]; nx_dmat4_to_s(Ms, M); for (int i = 0; i < 16; ++i) CHECK(Ms[i] == (float)M[i], "4x4 to float");
        double E[9]; nx_dmat3_eye(E); for (int i = 0; i < 9; ++i) CHECK(E[i] == (i % 4 == 0), "3x3 identity");
        g.nontrivial(m != n || n != k);
}
FACET(inverse3, 1.0, "determinant and inverse of random, ill-scaled and singular 3x3 matrices in both precisions: determinant equals extended precision, product with the inverse is the identity within the conditioning, exactly singular matrices give 0 and the zero matrix; nontrivial: regular")
{
        int kind = (int)g.u(0, 3); double sc = kind == 0 ? 1 : std::exp2((double)g.i(-30, 30)), A[9]; for (auto &x : A) x = entry(g, std::min(kind, 2), sc);
        if (kind == 3) { A[6] = A[0] + A[3] * 0.5; A[7] = A[1] + A[4] * 0.5; A[8] = A[2] + A[5] * 0.5 + sc * 1e-3; }
        bool sing = g.b(0.2); if (sing) { for (auto &x : A) x = (double)g.i(-4, 4); int z = (int)g.u(0, 2); if (z == 0) for (int i = 0; i < 3; ++i) A[6 + i] = A[i] - 2 * A[3 + i]; else if (z == 1) for (int i = 0; i < 3; ++i) A[3 * i + 1] = 0; else for (int i = 0; i < 3; ++i) A[3 + i] = A[i]; }
        auto at = [&](int r, int c) { return (ld)A[c * 3 + r]; }; ld det = 0, perm = 0; int pr[6][4] = {{0, 1, 2, 1}, {1, 2, 0, 1}, {2, 0, 1, 1}, {0, 2, 1, -1}, {1, 0, 2, -1}, {2, 1, 0, -1}};
        for (auto &q : pr) { ld t = at(q[0], 0) * at(q[1], 1) * at(q[2], 2); det += q[3] * t; perm += fabsl(t); }
        g.note("det %.6g of [%g %g %g; %g %g %g; %g %g %g]", (double)det, A[0], A[3], A[6], A[1], A[4], A[7], A[2], A[5], A[8]);
        CHECK(near_(nx_dmat3_det(A), (double)det, 0, 1e-14 * (double)perm), "determinant is %.17g, expected %.17g", nx_dmat3_det(A), (double)det);
        double I[9]; for (auto &x : I) x = NAN; double d = nx_dmat3_inv(I, A); float As[9], Is[9], It[9]; for (int i = 0; i < 9; ++i) { As[i] = (float)A[i]; Is[i] = It[i] = NAN; }
        CHECK(near_(d, (double)det, 0, 1e-14 * (double)perm), "inverse reports determinant %.17g, expected %.17g", d, (double)det);
        float ds = nx_smat3_inv(Is, As); double dt = nx_sdmat3_inv(It, As); CHECK(near_(ds, (double)det, 0, 1e-5 * (double)perm) && near_(dt, (double)det, 0, 1e-5 * (double)perm), "float inverse reports determinant %g / %g, expected %g", ds, dt, (double)det);
        if (sing) { CHECK(d == 0 && ds == 0 && dt == 0, "singular matrix has determinant %g", d); for (int i = 0; i < 9; ++i) CHECK(I[i] == 0 && Is[i] == 0 && It[i] == 0, "inverse of a singular matrix is not zero"); return; }
        if (fabsl(det) < 1e-3L * perm || perm == 0) g.discard();
        auto resid = [&](auto *inv, auto *src, double eps, const char *what) {
                for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { ld s = 0, t = 0; for (int k = 0; k < 3; ++k) { s += (ld)src[k * 3 + r] * inv[c * 3 + k]; t += fabsl((ld)src[k * 3 + r] * inv[c * 3 + k]); }
                        CHECK(std::fabs((double)(s - (r == c))) <= eps * (double)(perm / fabsl(det)) * (1 + (double)t) * 10, "%s: entry (%d,%d) of A*inv(A) is %.12g", what, r, c, (double)s); }
        };
        resid(I, A, 1e-15, "dmat3_inv"); if (sc > 1e-8 && sc < 1e8) { resid(Is, As, 3e-7, "smat3_inv"); resid(It, As, 3e-7, "sdmat3_inv"); }
        g.nontrivial();
}
template <class T> struct Svd;
template <> struct Svd<double> { static constexpr double eps = 1e-12; static void all(double *U, int lu, double *S, double *V, int lv, int m, int n, double *A, int la) { nx_dsvd_usvt(U, lu, S, V, lv, m, n, A, la); } static void us(double *U, int lu, double *S, int m, int n, double *A, int la) { nx_dsvd_us(U, lu, S, m, n, A, la); } static void sv(double *S, double *V, int lv, int m, int n, double *A, int la) { nx_dsvd_svt(S, V, lv, m, n, A, la); } static void s(double *S, int m, int n, double *A, int la) { nx_dsvd_only_s(S, m, n, A, la); } };
template <> struct Svd<float> { static constexpr double eps = 1e-5; static void all(float *U, int lu, float *S, float *V, int lv, int m, int n, float *A, int la) { nx_ssvd_usvt(U, lu, S, V, lv, m, n, A, la); } static void us(float *U, int lu, float *S, int m, int n, float *A, int la) { nx_ssvd_us(U, lu, S, m, n, A, la); } static void sv(float *S, float *V, int lv, int m, int n, float *A, int la) { nx_ssvd_svt(S, V, lv, m, n, A, la); } static void s(float *S, int m, int n, float *A, int la) { nx_ssvd_only_s(S, m, n, A, la); } };
template <class T> static void svd_case(Gen &g)
{
        int m = (int)(g.b(0.1) ? g.u(1, 40) : g.u(1, 10)), n = (int)(g.b(0.1) ? g.u(1, 40) : g.u(1, 10)); if (g.b(0.005)) (g.b() ? m : n) = (int)g.u(40, 300); int kind = (int)g.u(0, 3), k = std::min(m, n); double sc = gscale(g, sizeof(T) == 8 ? 200 : 30); bool pad = g.b(); int la = m + (pad ? (int)g.u(0, 4) : 0), lu = m + (pad ? (int)g.u(0, 4) : 0), lv = n + (pad ? (int)g.u(0, 4) : 0);
        std::vector<T> A((size_t)la * n); Gen *pg = &g;
        if (kind == 3) { std::vector<double> a(m), b(n); for (auto &x : a) x = pg->real(-1, 1); for (auto &x : b) x = pg->real(-1, 1); for (int c = 0; c < n; ++c) for (int r = 0; r < m; ++r) A[c * la + r] = (T)(sc * a[r] * b[c]); }
        else for (int c = 0; c < n; ++c) for (int r = 0; r < la; ++r) A[c * la + r] = (T)entry(g, kind, sc);
        for (int c = 0; c < n; ++c) for (int r = m; r < la; ++r) A[c * la + r] = (T)123;
        g.note("%s %dx%d kind %d scale %g ld %d %d %d", sizeof(T) == 8 ? "double" : "float", m, n, kind, sc, la, lu, lv);
        auto A0 = A; std::vector<T> U((size_t)lu * m, (T)77), W((size_t)lv * n, (T)77), S(k + 1, (T)77), S1(k + 1, (T)77), S2(k + 1, (T)77), S3(k + 1, (T)77);
        Svd<T>::all(U.data(), lu, S.data(), W.data(), lv, m, n, A.data(), la);
        double nrm = 0; for (int c = 0; c < n; ++c) for (int r = 0; r < m; ++r) nrm = std::max(nrm, (double)std::fabs(A0[c * la + r])); double e = Svd<T>::eps * (m + n);
        for (int i = 0; i < k; ++i) CHECK(S[i] >= 0 && (i == 0 || S[i] <= S[i - 1]), "singular value %d is %g after %g", i, (double)S[i], i ? (double)S[i - 1] : 0);
        CHECK(S[k] == (T)77, "more than %d singular values written", k);
        auto orth = [&](const std::vector<T> &Q, int N, int ldq, const char *what) {
                for (int i = 0; i < N; ++i) { for (int j = 0; j <= i; ++j) { ld s = 0; for (int r = 0; r < N; ++r) s += (ld)Q[i * ldq + r] * Q[j * ldq + r]; CHECK(std::fabs((double)(s - (i == j))) < e, "%s of %dx%d: columns %d and %d have product %g", what, m, n, i, j, (double)s); } for (int r = N; r < ldq; ++r) CHECK(Q[i * ldq + r] == (T)77, "%s wrote below column %d", what, i); } };
        orth(U, m, lu, "U"); orth(W, n, lv, "Vt");
        for (int r = 0; r < m; ++r) for (int c = 0; c < n; ++c) { ld s = 0; for (int i = 0; i < k; ++i) s += (ld)U[i * lu + r] * S[i] * W[c * lv + i]; CHECK(std::fabs((double)(s - A0[c * la + r])) <= e * nrm * std::sqrt((double)m * n), "U S Vt of %dx%d differs at (%d,%d): %g for %g", m, n, r, c, (double)s, (double)A0[c * la + r]); }
        auto B = A0; std::vector<T> U2((size_t)lu * m, (T)77), W2((size_t)lv * n, (T)77);
        Svd<T>::s(S1.data(), m, n, B.data(), la); B = A0; Svd<T>::us(U2.data(), lu, S2.data(), m, n, B.data(), la); B = A0; Svd<T>::sv(S3.data(), W2.data(), lv, m, n, B.data(), la);
        orth(U2, m, lu, "U (us)"); orth(W2, n, lv, "Vt (svt)");
        for (int i = 0; i < k; ++i) for (auto *q : {&S1, &S2, &S3}) CHECK(std::fabs((double)(*q)[i] - S[i]) <= e * (double)S[0], "singular value %d differs between the variants: %g and %g", i, (double)(*q)[i], (double)S[i]);
        for (auto *q : {&S1, &S2, &S3}) CHECK((*q)[k] == (T)77, "singular values written beyond min(m,n)");
        // singular directions: |A^T u_i| = s_i and |A v_i| = s_i
        for (int i = 0; i < k; ++i) { ld x = 0, y = 0; for (int c = 0; c < n; ++c) { ld s = 0; for (int r = 0; r < m; ++r) s += (ld)A0[c * la + r] * U2[i * lu + r]; x += s * s; } for (int r = 0; r < m; ++r) { ld s = 0; for (int c = 0; c < n; ++c) s += (ld)A0[c * la + r] * W2[c * lv + i]; y += s * s; }
                CHECK(std::fabs((double)(sqrtl(x) - S[i])) <= e * nrm * std::sqrt((double)m * n) && std::fabs((double)(sqrtl(y) - S[i])) <= e * nrm * std::sqrt((double)m * n), "singular direction %d: lengths %g %g, value %g", i, (double)sqrtl(x), (double)sqrtl(y), (double)S[i]); }
        g.nontrivial(m != n && kind != 0);
}
FACET(svd, 1.5, "SVD of random, integer, sparse and rank-one matrices up to 40x300, any scale and leading dimensions, all variants and precisions: orthonormal factors, sorted non-negative values, product restores the matrix, variants agree, nothing else written; nontrivial: not square")
{
        if (g.b(0.15)) { double A[9], A0[9], U[9], S[3], W[9]; for (auto &x : A) x = entry(g, 1, 3); memcpy(A0, A, sizeof A); nx_dmat3_svd(A, U, S, W); for (int i = 0; i < 9; ++i) CHECK(A[i] == A0[i], "3x3 SVD changed its input"); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { double s = 0; for (int i = 0; i < 3; ++i) s += U[i * 3 + r] * S[i] * W[c * 3 + i]; CHECK(std::fabs(s - A[c * 3 + r]) < 1e-12, "3x3 SVD does not restore the matrix"); } CHECK(S[0] >= S[1] && S[1] >= S[2] && S[2] >= 0, "order of singular values"); return; }
        if (g.b()) svd_case<double>(g); else svd_case<float>(g);
}
FACET(solver, 1.0, "symmetric indefinite systems up to 12x12 with several right sides, either triangle (the other one holds NaN) and leading dimensions, also the 2x2 and 3x3 helpers: residual within numerical accuracy and true is returned, systems with a zero row return false; nontrivial: indefinite and more than one unknown")
{
        int n = g.len(1, 12, 60, 0.01), nr = (int)g.u(1, 4), la = n + (int)g.u(0, 3), lb = n + (int)g.u(0, 3), kind = (int)g.u(0, 2); bool up = g.b(); double sc = gscale(g, 60);
        V S(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) S[i * n + j] = S[j * n + i] = entry(g, kind, sc);
        bool zero = g.b(0.15); if (zero) { int z = (int)g.u(0, n - 1); for (int i = 0; i < n; ++i) S[z * n + i] = S[i * n + z] = 0; }
        V A(la * n, NAN), B(lb * nr, 55), B0; for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) if (up ? r <= c : r >= c) A[c * la + r] = S[c * n + r];
        for (int c = 0; c < nr; ++c) for (int r = 0; r < n; ++r) B[c * lb + r] = entry(g, 1, gscale(g, 10)); B0 = B;
        std::vector<int> ip(n); g.note("n=%d nrhs=%d %s ld %d %d kind %d%s", n, nr, up ? "upper" : "lower", la, lb, kind, zero ? " zero row" : "");
        NXBool ok = nx_dsym_solver(up ? NX_SYMMETRIC_UPPER : NX_SYMMETRIC_LOWER, n, nr, A.data(), la, B.data(), lb, ip.data());
        auto chk = [&](const V &s, int N, const double *x, const double *b, const char *what) {
                double nx = 0, na = 0, nb = 0; for (int i = 0; i < N; ++i) { nx = std::max(nx, std::fabs(x[i])); nb = std::max(nb, std::fabs(b[i])); } for (double q : s) na = std::max(na, std::fabs(q)); if (!(na * nx < 1e200)) return;
                for (int r = 0; r < N; ++r) { ld q = 0; for (int c = 0; c < N; ++c) q += (ld)s[c * N + r] * x[c]; CHECK(std::fabs((double)(q - b[r])) <= 1e-11 * N * (na * nx + nb), "%s: equation %d gives %g, right side %g", what, r, (double)q, b[r]); } };
        if (zero) { CHECK(!ok, "a system with a zero row is reported as solved"); }
        else if (ok) for (int c = 0; c < nr; ++c) chk(S, n, &B[c * lb], &B0[c * lb], "symmetric solver");
        else {  // must really be singular: smallest singular value is negligible
                V T = S, sv(n); nx_dsvd_only_s(sv.data(), n, n, T.data(), n); CHECK(sv[n - 1] <= 1e-10 * sv[0], "regular system (condition %g) reported as singular", sv[0] / sv[n - 1]); }
        for (int i = 0; i < lb * nr; ++i) if (i % lb >= n) CHECK(B[i] == 55, "solver wrote below the right side");
        if (n == 2 || n == 3) { V b(B0.begin(), B0.begin() + n), b0 = b, A2 = S, A20 = S; NXBool o2 = n == 2 ? nx_dmat2_sym_solve_single(A2.data(), b.data()) : nx_dmat3_sym_solve_single(A2.data(), b.data()); CHECK(A2 == A20, "small solver changed the matrix"); if (zero) CHECK(!o2, "small solver accepts a singular system"); else if (o2) chk(S, n, b.data(), b0.data(), "small solver"); }
        g.nontrivial(!zero && n > 1);
}
FACET(text, 1.2, "matrices of any shape (1x1 up to long lines) and any values, infinities and NaN included, written as text and read back: same shape, bit-equal entries; also with other spacing and a missing last newline; ragged rows, blank lines between rows and text that is not a number end in a fatal error, empty text gives no matrix; nontrivial: more than one row and column")
{
        int m = (int)(g.b(0.1) ? g.u(1, 200) : g.u(1, 8)), n = (int)(g.b(0.1) ? g.u(1, 200) : g.u(1, 8)); if (g.b(0.01)) { m = (int)g.u(1, 400); n = (int)g.u(1, 40); } else if ((long)m * n > 4000) n = 20; int kind = (int)g.u(0, 3); V A((size_t)m * n);
        for (auto &x : A) x = kind == 0 ? (double)g.i(-9, 9) : kind == 1 ? g.real(-1, 1) : g.b(0.03) ? g.pick<double>({INFINITY, -INFINITY, NAN, -0.0}) : g.any_double();
        std::string t = capture([&](FILE *f) { nx_dmat_xwrite(f, m, n, A.data()); }); int var = (int)g.u(0, 8); bool bad = false; g.note("%dx%d kind %d variant %d", m, n, kind, var);
        size_t lines = 0; for (char c : t) lines += c == '\n'; CHECK((int)lines == m, "%dx%d matrix written in %zu lines", m, n, lines);
        if (var == 1) { std::string s; for (char c : t) s += c == ' ' ? g.pick<std::string>({"  ", "\t", " \t "}) : c == '\n' ? g.pick<std::string>({"\n", " \n", "\r\n"}) : std::string(1, c); t = " " + s; }
        else if (var == 2) t.pop_back();
        else if (var == 3 && m > 1) { size_t e = t.size() - 1; while (e > 0 && t[e - 1] != ' ' && t[e - 1] != '\n') --e; t = t.substr(0, e) + (n > 1 ? "\n" : "1 2\n"); bad = true; }      // last row has another number of entries
        else if (var == 4 && m > 1) { size_t e = t.find('\n'); t.insert(e + 1, "\n"); bad = true; }
        else if (var == 5) { std::vector<size_t> pos; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\n') pos.push_back(i); t.insert(pos[(size_t)g.u(0, pos.size() - 1)], g.pick<std::string>({" x", ",", " 1,2", " #", " -", "5e5e5", " ;"})); bad = true; }
        else if (var == 6) { t = g.pick<std::string>({"", "\n", "  \n", "\n\n"}); int a = 5, b = 5; FILE *f = open_mem(t); double *r = nx_dmat_xread(f, &a, &b); fclose(f); CHECK(r == NULL && a == 0 && b == 0, "empty text gives a %dx%d matrix", a, b); return; }
        FILE *f = open_mem(t); int a = -1, b = -1; double *r = nullptr; std::string msg; size_t h0 = c_heap_bytes();
        bool fat = fatal([&] { r = nx_dmat_xread(f, &a, &b); }, &msg);
        if (bad) { CHECK(fat, "malformed text %s read as a %dx%d matrix", show(t.substr(0, 200)).c_str(), a, b); fclose(f); return; }
        CHECK(!fat, "reading ended in: %s", msg.c_str()); V R(r, r + std::max(0, a * b)); nx_free(r); CHECK(c_heap_bytes() <= h0 + 65536, "reading keeps memory"); fclose(f);
        CHECK(a == m && b == n, "%dx%d matrix read back as %dx%d", m, n, a, b);
        for (size_t i = 0; i < A.size(); ++i) CHECK(memcmp(&A[i], &R[i], 8) == 0 || (std::isnan(A[i]) && std::isnan(R[i])), "entry %zu written as %s came back as %s", i, showd(A[i]).c_str(), showd(R[i]).c_str());
        g.nontrivial(m > 1 && n > 1);
}
