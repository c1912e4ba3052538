// C22: fundamental/essential matrices, pose recovery, pinhole projection and triangulation on generated two-view scenes.
#include "../epi.hpp"
#include "virg/nexus/vg_fundamental_matrix.hpp"
using namespace geo; using namespace virg::nexus;
static void __attribute__((noinline)) dirty() { volatile double a[4000]; for (int i = 0; i < 4000; ++i) a[i] = 1e3 + i; }
static void fillnan(double *p, int n) { while (n--) *p++ = NAN; }

FACET(exactF, 1.3, "8-40 correspondences of a scene in general position (conditioning verified by an independent eigen solver), picked by index, all, or as inliers among wild matches: F equals K'^-T [t]x R K^-1 up to scale, rank two, every point on its epipolar line, residual 0; fewer than eight give DBL_MAX; nontrivial: exactly eight")
{
        bool eightp = g.b(0.4); int n = eightp ? 8 : g.len(8, 40, 300, 0.01), wild = g.b() ? (int)g.u(1, 12) : 0; Scene s = gen_scene(g, n, false); auto v = views(s); std::vector<ld> sv; double M[9], T[9]; eight(v, sv, M); if (sv[1] < 3e-3 * sv[8]) g.discard(); ess(s.R, s.t, T);
        auto w = v; std::vector<int> pos; for (int i = 0; i < wild; ++i) w.insert(w.begin() + g.u(0, w.size()), match(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), false)); auto w0 = w; for (size_t i = 0; i < w.size(); ++i) if (w[i].is_inlier) pos.push_back((int)i); for (size_t i = pos.size() - 1; i > 0; --i) std::swap(pos[i], pos[g.u(0, i)]);
        g.note("n=%d wild=%d t=(%g,%g,%g) condition %g", n, wild, s.t[0], s.t[1], s.t[2], (double)(sv[1] / sv[8]));
        double F[3][9], r[3]; for (auto &f : F) fillnan(f, 9); dirty(); r[0] = nx_fundamental_estimate(F[0], n, v.data()); dirty(); r[1] = nx_fundamental_estimate_inliers(F[1], (int)w.size(), w.data()); dirty(); r[2] = n == 8 ? nx_fundamental_estimate_8pt(F[2], pos.data(), w.data()) : 0;
        CHECK(memcmp(w.data(), w0.data(), sizeof(w[0]) * w.size()) == 0, "matches changed");
        static const char *nm[] = {"all", "inliers", "eight points"};
        for (int k = 0; k < (n == 8 ? 3 : 2); ++k) {
                double e = upto(F[k], T); CHECK(e < 1e-3, "estimate from %s differs from the true matrix by %g", nm[k], e); double q[3]; sv3(F[k], q); CHECK(q[0] < 1e-6 * q[2], "estimate from %s has singular values %g %g %g", nm[k], q[0], q[1], q[2]);
                for (auto &m : v) CHECK(epidist(F[k], m) < 1e-3 || epidist(T, m) > 1e-4 || std::isnan(epidist(T, m)), "point at distance %g from its epipolar line, estimate from %s", epidist(F[k], m), nm[k]);
                CHECK(r[k] >= 0 && r[k] < 1e-4 * (double)sv[8], "residual of exact correspondences (%s) is %g", nm[k], r[k]);
        }
        int few = (int)g.u(0, 7); double d = nx_fundamental_estimate(F[0], few, v.data()); CHECK(d == DBL_MAX, "%d correspondences: %g", few, d); for (int i = few; i < n; ++i) w[pos[i]].is_inlier = NX_FALSE; d = nx_fundamental_estimate_inliers(F[0], (int)w.size(), w.data()); CHECK(d == DBL_MAX, "%d inliers: %g", few, d);
        g.nontrivial(n == 8);
}
FACET(noisyF, 0.8, "9-40 noisy correspondences, normalised or pixel coordinates: residual is the smallest singular value of the constraints and F the nearest rank-two matrix to the minimiser, against an independent Jacobi eigen solver; nontrivial: always")
{
        int n = g.len(9, 40, 300, 0.01); bool px = g.b(0.4); Scene s = gen_scene(g, n, px); auto v = views(s); double a = px ? g.real(0.05, 2) : g.real(1e-3, 0.05); for (auto &m : v) { m.xp[0] += (float)(a * g.gauss()); m.xp[1] += (float)(a * g.gauss()); }
        std::vector<ld> sv; double M[9], F[9], q[3], qm[3]; eight(v, sv, M); g.note("n=%d %s noise %g sv %g %g .. %g", n, px ? "pixel" : "normalised", a, (double)sv[0], (double)sv[1], (double)sv[8]); if (sv[1] - sv[0] < 1e-3 * sv[1] || sv[1] < (px ? 1e-7L : 1e-3L) * sv[8]) g.discard();
        fillnan(F, 9); auto w = v; bool inl = g.b(); if (inl) { for (auto &m : w) m.is_inlier = NX_TRUE; for (int i = (int)g.u(0, 6); i > 0; --i) w.insert(w.begin() + g.u(0, w.size()), match(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), false)); } double r = inl ? nx_fundamental_estimate_inliers(F, (int)w.size(), w.data()) : nx_fundamental_estimate(F, n, v.data()), tol = 1e-12 * (double)(sv[8] / (sv[1] - sv[0])) + 1e-7; CHECK(near_(r, (double)sv[0], 1e-6, (double)sv[8] * 1e-11), "residual %g, smallest singular value %g", r, (double)sv[0]); sv3(F, q); sv3(M, qm); CHECK(q[0] < 1e-9 * q[2], "singular values %g %g %g", q[0], q[1], q[2]);
        // nearest rank-two matrix: same leading singular values, distance equal to the dropped one
        double nf = frob(F), c = 0, d = 0; for (int i = 0; i < 9; ++i) c += F[i] * M[i]; for (int i = 0; i < 9; ++i) d += std::pow(F[i] - (c < 0 ? -1 : 1) * M[i], 2); d = std::sqrt(d); CHECK(std::fabs(nf - std::sqrt(qm[1] * qm[1] + qm[2] * qm[2])) < tol, "norm %g", nf); CHECK(std::fabs(d - qm[0]) < tol + 1e-3 * qm[0], "distance to the minimiser %g, its smallest singular value is %g", d, qm[0]);
        g.nontrivial();
}
FACET(distance, 1.0, "epipolar distance, epipolar lines and inlier marking for random matrices (true, perturbed, arbitrary) and matches near the tolerance: equal the point-line distance definition, only marks change and their number is returned; C++ class agrees; nontrivial: inliers and outliers")
{
        bool px = g.b(); int n = g.len(0, 40, 400, 0.01); Scene s = gen_scene(g, n, px); auto v = views(s); double E[9], F[9]; ess(s.R, s.t, E); H3 Ki = inv(*(H3 *)s.K), Kpi = inv(*(H3 *)s.Kp), KT; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) KT.h[j * 3 + i] = Kpi.h[i * 3 + j]; H3 f = mul(mul(KT, *(H3 *)E), Ki); memcpy(F, f.h, sizeof F);
        if (g.b(0.3)) for (double &x : F) x = g.real(-2, 2); double sc = g.pick<double>({1, 1, -1, 1e-6, 1e5}); for (double &x : F) x *= sc; double tol = (px ? 300 : 1) * g.real(0.001, 0.1); for (auto &m : v) { double a = g.real(0, 6.3), d = tol * g.pick<double>({0, 0.5, 0.95, 1.05, 2}); m.xp[0] += (float)(d * std::cos(a)); m.xp[1] += (float)(d * std::sin(a)); m.is_inlier = g.b() ? NX_TRUE : NX_FALSE; }
        auto w = v; int k = nx_fundamental_mark_inliers(F, n, w.data(), tol), c = 0, in = 0; VGFundamentalMatrix V; { const double d[9] = { 0, 0, 0, 0, 0, 1, 0, -1, 0 }; for (int q = 0; q < 9; ++q) CHECK(V.data()[q] == d[q], "element %d of a new fundamental matrix is %g", q, V.data()[q]); } V.set(F); g.note("n=%d tol=%g %s", n, tol, px ? "pixel" : "normalised");
        for (int i = 0; i < n; ++i) { double d = epidist(F, v[i]), got = nx_fundamental_epipolar_distance_fwd(F, &v[i]); if (std::isfinite(d)) CHECK(near_(got, d, 1e-6, 1e-7 * tol) && V.epipolar_distance_fwd(&v[i]) == got, "distance %g, definition %g", got, d); c += w[i].is_inlier ? 1 : 0; if (std::fabs(d - tol) > 1e-6 * tol) CHECK((w[i].is_inlier != 0) == (d < tol), "match at distance %g marked %d, tolerance %g", d, w[i].is_inlier, tol); in += d < tol; auto z = w[i]; z.is_inlier = v[i].is_inlier; CHECK(memcmp(&z, &v[i], sizeof z) == 0, "marking changed a match");
                double x[2] = {v[i].x[0], v[i].x[1]}, l[3]; V.epipolar_line_fwd(l, x); for (int j = 0; j < 3; ++j) CHECK(near_(l[j], F[j] * x[0] + F[3 + j] * x[1] + F[6 + j], 1e-9, 1e-12 * frob(F) * 1e3), "epipolar line"); }
        CHECK(k == c, "%d inliers returned, %d marked", k, c); g.nontrivial(in > 0 && in < n);
}
FACET(essential, 1.0, "essential matrix from R,t and from F with two calibrations: equals [t]x R and K'^T F K; its four decompositions have proper rotations, unit translations, reproduce E up to sign and are pairwise distinct including the true pose; nontrivial: always")
{
        Scene s = gen_scene(g, 1, true); if (g.b(0.5)) rot(g, 2, s.R); double E[9], T[9], F[9], E2[9]; nx_essential_from_Rt(E, s.R, s.t); ess(s.R, s.t, T); g.note("t=(%g,%g,%g) R diag (%g,%g,%g)", s.t[0], s.t[1], s.t[2], s.R[0], s.R[4], s.R[8]); for (int i = 0; i < 9; ++i) CHECK(near_(E[i], T[i], 1e-10, 1e-12), "[t]x R entry %d is %g, got %g", i, T[i], E[i]);
        for (double &x : F) x = g.real(-1, 1); nx_essential_from_fundamental(E2, F, s.K, s.Kp); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld e = 0, m = 0; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { ld t = (ld)s.Kp[i * 3 + a] * F[b * 3 + a] * s.K[j * 3 + b]; e += t; m += fabsl(t); } CHECK(fabsl(E2[j * 3 + i] - e) <= 1e-12L * m, "K'^T F K entry (%d,%d) is %g, got %g", i, j, (double)e, E2[j * 3 + i]); }
        double Rb[4][9], tb[4][3], *R[4], *t[4]; for (int i = 0; i < 4; ++i) { fillnan(Rb[i], 9); fillnan(tb[i], 3); R[i] = Rb[i]; t[i] = tb[i]; } double sc = g.pick<double>({1, -1, 10, 1e-3}); for (double &x : E) x *= sc; double Ec[9]; memcpy(Ec, E, sizeof E); double z = nx_essential_decompose_to_Rt(E, R, t); CHECK(memcmp(E, Ec, sizeof E) == 0, "E changed"); CHECK(std::fabs(z) < 1e-9 * frob(E), "third singular value %g", z); int hit = 0; double nt = std::sqrt(s.t[0] * s.t[0] + s.t[1] * s.t[1] + s.t[2] * s.t[2]);
        for (int i = 0; i < 4; ++i) {
                double d = (double)det(R[i]); CHECK(std::fabs(d - 1) < 1e-9, "rotation %d has determinant %g", i, d); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double p = 0; for (int k = 0; k < 3; ++k) p += R[i][a * 3 + k] * R[i][b * 3 + k]; CHECK(std::fabs(p - (a == b)) < 1e-9, "rotation %d is not orthogonal", i); }
                CHECK(std::fabs(t[i][0] * t[i][0] + t[i][1] * t[i][1] + t[i][2] * t[i][2] - 1) < 1e-9, "translation %d is not a unit vector", i); double e[9]; ess(R[i], t[i], e); CHECK(upto(e, E) < 1e-8, "pose %d does not give the essential matrix", i);
                for (int j = 0; j < i; ++j) { double q = 0; for (int k = 0; k < 9; ++k) q += std::fabs(R[i][k] - R[j][k]); for (int k = 0; k < 3; ++k) q += std::fabs(t[i][k] - t[j][k]); CHECK(q > 1e-3, "poses %d and %d are the same", i, j); }
                double q = 0; for (int k = 0; k < 9; ++k) q = std::max(q, std::fabs(R[i][k] - s.R[k])); for (int k = 0; k < 3; ++k) q = std::max(q, std::fabs(t[i][k] - s.t[k] / nt)); hit += q < 1e-7;
        }
        CHECK(hit == 1, "the true pose is among the four %d times", hit); g.nontrivial();
}
FACET(pose, 1.0, "pose recovery from a scene: of four candidate poses in any order the one picked is the true one, and the reported depth-sign sum is the number of positive minus negative depths in both views for it; nontrivial: more than one point")
{
        int n = g.len(1, 25, 300, 0.01); Scene s = gen_scene(g, n, false); auto v = views(s); double nt = std::sqrt(s.t[0] * s.t[0] + s.t[1] * s.t[1] + s.t[2] * s.t[2]), b[3]; for (int i = 0; i < 3; ++i) b[i] = -(s.R[3 * i] * s.t[0] + s.R[3 * i + 1] * s.t[1] + s.R[3 * i + 2] * s.t[2]) / nt;
        // rays nearly along the baseline carry no depth information
        for (auto &m : v) { double u[3] = {m.x[0], m.x[1], 1}, n2 = std::sqrt(u[0] * u[0] + u[1] * u[1] + 1), c = std::fabs(u[0] * b[0] + u[1] * b[1] + u[2] * b[2]) / n2; if (c > 0.995) g.discard(); }
        double E[9]; ess(s.R, s.t, E); double Rb[4][9], tb[4][3], *R[4], *t[4]; for (int i = 0; i < 4; ++i) { R[i] = Rb[i]; t[i] = tb[i]; } nx_essential_decompose_to_Rt(E, R, t); const double *Rp[4], *tp[4]; int o[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(o[i], o[g.u(0, i)]); for (int i = 0; i < 4; ++i) { Rp[i] = R[o[i]]; tp[i] = t[o[i]]; } auto v0 = v;
        int zs = -12345, k = nx_epipolar_pick_best_Rt(Rp, tp, n, v.data(), &zs), k2 = nx_epipolar_pick_best_Rt(Rp, tp, n, v.data(), nullptr); g.note("n=%d pick %d sum %d", n, k, zs); CHECK(memcmp(v.data(), v0.data(), sizeof(v[0]) * n) == 0, "matches changed"); CHECK(k == k2, "pick depends on the output argument"); CHECK(k >= 0 && k < 4, "pick %d", k); double q = 0; for (int i = 0; i < 9; ++i) q = std::max(q, std::fabs(Rp[k][i] - s.R[i])); for (int i = 0; i < 3; ++i) q = std::max(q, std::fabs(tp[k][i] - s.t[i] / nt)); CHECK(q < 1e-6, "picked pose differs from the true one by %g", q); CHECK(zs == 2 * n, "all depths are positive but the sum is %d for %d points", zs, n);
        g.nontrivial(n > 1);
}
FACET(pinhole, 1.0, "projection matrices from K,R,t (any of them absent) and projection of 1-30 points, Euclidean and homogeneous: equal K(RX+t), smallest absolute depth returned, inputs unchanged; nontrivial: several points")
{
        bool px = g.b(); int n = g.len(1, 30, 600, 0.01); Scene s = gen_scene(g, n, px); if (g.b(0.3)) { rot(g, 2, s.R); for (double &x : s.t) x = g.real(-3, 3); } bool k = g.b(0.7), r = g.b(0.7), t = g.b(0.7); double P[12]; fillnan(P, 12); nx_pinhole_projection_from_krt(P, k ? s.Kp : nullptr, r ? s.R : nullptr, t ? s.t : nullptr); std::vector<float> x(2 * n, NAN), Xh(4 * n), xh(3 * n, NAN); auto X0 = s.X; for (int i = 0; i < n; ++i) { float w = (float)g.pick<double>({1, 1, 0, 2, -1, 0.5}); for (int j = 0; j < 3; ++j) Xh[4 * i + j] = s.X[3 * i + j]; Xh[4 * i + 3] = w; }
        double m = nx_pinhole_project(P, n, s.X.data(), x.data()), want = INFINITY; nx_pinhole_project_h(P, n, Xh.data(), xh.data()); CHECK(s.X == X0, "points changed"); g.note("n=%d K%d R%d t%d", n, k, r, t);
        for (int i = 0; i < n; ++i) { ld o[3]; proj(k ? s.Kp : nullptr, r ? s.R : nullptr, t ? s.t : nullptr, &s.X[3 * i], o); want = std::min(want, (double)fabsl(o[2])); double sc = 1e-5 * (double)(1 + fabsl(o[0] / o[2]) + fabsl(o[1] / o[2])) * (1 + (px ? 1000 : 1) / std::max(1e-3, (double)fabsl(o[2]))); CHECK(std::fabs(x[2 * i] - (double)(o[0] / o[2])) < sc && std::fabs(x[2 * i + 1] - (double)(o[1] / o[2])) < sc, "point %d projects to (%g,%g), not (%g,%g)", i, (double)(o[0] / o[2]), (double)(o[1] / o[2]), x[2 * i], x[2 * i + 1]);
                ld z[3]; float zero[3] = {0, 0, 0}; proj(k ? s.Kp : nullptr, r ? s.R : nullptr, t ? s.t : nullptr, zero, z); for (int j = 0; j < 3; ++j) { ld e = o[j] + (Xh[4 * i + 3] - 1) * z[j]; CHECK(fabsl(xh[3 * i + j] - e) < 1e-6L * (fabsl(o[j]) + 2 * fabsl(z[j]) + (px ? 1000 : 1)), "homogeneous point %d component %d is %g, not %g", i, j, xh[3 * i + j], (double)e); } }
        CHECK(near_(m, want, 1e-6, 1e-6), "smallest absolute depth is %g, got %g", want, m); g.nontrivial(n > 1);
}
FACET(triangulate, 1.3, "triangulation of the inliers of 0-30 matches with room for fewer, as many or more points: the scene points in match order with their indices, the number written is the smaller of room and inliers, nothing written beyond (exact buffers under ASan); nontrivial: some matches not inliers")
{
        bool px = g.b(); int n = g.len(0, 30, 600, 0.01); Scene s = gen_scene(g, n, px); auto v = views(s); std::vector<int> in; double P0[12], P1[12]; nx_pinhole_projection_from_krt(P0, s.K, nullptr, nullptr); nx_pinhole_projection_from_krt(P1, s.Kp, s.R, s.t); for (int i = 0; i < n; ++i) { if (!g.b(0.75)) v[i].is_inlier = NX_FALSE; else in.push_back(i); }
        int room = (int)(g.b(0.4) ? in.size() : g.u(0, n + 3)); std::vector<float> X(3 * room, -777.0f); std::vector<int> id(room, -777); auto v0 = v; g.note("n=%d inliers=%d room=%d", n, (int)in.size(), room); int k = nx_pinhole_triangulate(room, X.data(), id.data(), n, v.data(), P0, P1), want = std::min(room, (int)in.size()); CHECK(k == want, "%d points returned, %d inliers, room for %d", k, (int)in.size(), room); CHECK(memcmp(v.data(), v0.data(), sizeof(v[0]) * n) == 0, "matches changed");
        for (int i = 0; i < room; ++i) { if (i >= k) { CHECK(id[i] == -777 && X[3 * i] == -777.0f && X[3 * i + 1] == -777.0f && X[3 * i + 2] == -777.0f, "entry %d beyond the result was written", i); continue; } CHECK(id[i] == in[i], "point %d has index %d, expected %d", i, id[i], in[i]); const float *T = &s.X[3 * in[i]]; double e = std::hypot(std::hypot(X[3 * i] - T[0], X[3 * i + 1] - T[1]), X[3 * i + 2] - T[2]);
                // parallax: angle between the rays bounds the attainable accuracy
                double c2[3]; for (int j = 0; j < 3; ++j) c2[j] = T[j] + (s.R[3 * j] * s.t[0] + s.R[3 * j + 1] * s.t[1] + s.R[3 * j + 2] * s.t[2]); double n1 = std::sqrt((double)T[0] * T[0] + T[1] * T[1] + T[2] * T[2]), n2 = std::sqrt(c2[0] * c2[0] + c2[1] * c2[1] + c2[2] * c2[2]), cr = std::sqrt(std::max(0.0, 1 - std::pow((T[0] * c2[0] + T[1] * c2[1] + T[2] * c2[2]) / n1 / n2, 2))); if (cr > 0.02) CHECK(e < (px ? 3e-4 : 1e-4) * n1 / cr, "point %d at (%g,%g,%g), scene point (%g,%g,%g), parallax %g", i, X[3 * i], X[3 * i + 1], X[3 * i + 2], T[0], T[1], T[2], cr); }
        g.nontrivial((int)in.size() < n && k > 0);
}
