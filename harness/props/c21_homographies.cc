// C21: homography estimation and transfer on correspondences generated by known homographies.
#include "../geo.hpp"
#include "virg/nexus/vg_homography.hpp"
using namespace geo; using namespace virg::nexus;
// leaves noise on the stack so that results taken from unset locals show
static void __attribute__((noinline)) dirty() { volatile double a[4000]; for (int i = 0; i < 4000; ++i) a[i] = 1e3 + i; }

FACET(unit, 0.8, "homography of four corners to the unit square for random quadrangles (random homography of the square, either orientation, any scale and shift): corners map to (0,0),(1,0),(1,1),(0,1); nontrivial: perspective")
{
        H3 h = gen_h(g); double s = std::exp(g.real(-3, 5)), k = g.pick<double>({0, 0.5, 3}); h = mul(sim(s, g.real(-k, k) * s, g.real(-k, k) * s), h); double c[8], e[8] = {0, 0, 1, 0, 1, 1, 0, 1}, u[9];
        double sq[8] = {-1, -1, 1, -1, 1, 1, -1, 1}; for (int i = 0; i < 4; ++i) apply(h.h, sq[2 * i], sq[2 * i + 1], c[2 * i], c[2 * i + 1]);
        g.note("(%g,%g) (%g,%g) (%g,%g) (%g,%g)", c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]);
        // result is scaled to h[8]=1: the origin must not map near infinity
        H3 U = mul(H3{{0.5, 0, 0, 0, 0.5, 0, 0.5, 0.5, 1}}, inv(h)); double m = 0; for (int i = 0; i < 4; ++i) { double w = U.h[2] * c[2 * i] + U.h[5] * c[2 * i + 1] + U.h[8]; m = std::max(m, std::fabs(w)); } if (std::fabs(U.h[8]) < 0.05 * m) g.discard();
        double d = nx_homography_estimate_unit(u, c); CHECK(d != 0 && std::isfinite(d), "determinant %g", d);
        for (int i = 0; i < 4; ++i) { double X, Y; apply(u, c[2 * i], c[2 * i + 1], X, Y); CHECK(std::fabs(X - e[2 * i]) < 1e-5 && std::fabs(Y - e[2 * i + 1]) < 1e-5, "corner %d maps to (%.9g,%.9g)", i, X, Y); }
        g.nontrivial(std::fabs(h.h[2]) + std::fabs(h.h[5]) > 0.01 / s);
}
FACET(exact4, 1.2, "four correspondences in general position, in any order, of a random homography in normalised or pixel coordinates, picked by index from a longer list: the homography is recovered; nontrivial: pixel coordinates")
{
        H3 h0 = gen_h(g); Frame f = gen_frame(g); H3 h = in_frame(h0, f); int n = (int)g.u(4, 12); std::vector<NXPointMatch2D> v(n); int id[4], used = 0; double q[8]; gen_quad(g, q);
        for (auto &m : v) m = match(g.real(-9, 9), g.real(-9, 9), g.real(-9, 9), g.real(-9, 9), g.b());
        for (int i = 0; i < 4; ++i) { int k; do k = (int)g.u(0, n - 1); while (used >> k & 1); used |= 1 << k; id[i] = k; double x = f.s * q[2 * i] + f.ox, y = f.s * q[2 * i + 1] + f.oy, X, Y; x = (float)x; y = (float)y; apply(h.h, x, y, X, Y); v[k] = match(x, y, X, Y, g.b()); }
        g.note("%s %s", str(h).c_str(), f.pixel ? "pixel" : "normalised"); auto v0 = v; double r[9]; for (auto &x : r) x = NAN;
        // internal maps are scaled by their last entry: corner quadrangles sending (0,0) near infinity are ill-posed there
        auto bad = [&](bool second) { double c[8]; for (int i = 0; i < 4; ++i) { const float *p = second ? v[id[i]].xp : v[id[i]].x; c[2 * i] = p[0]; c[2 * i + 1] = p[1]; }
                return ill_unit(c); };
        if (bad(false) || bad(true)) g.discard();
        double d = nx_homography_estimate_4pt(r, id, v.data()); CHECK(memcmp(v.data(), v0.data(), sizeof(v[0]) * n) == 0, "matches changed"); CHECK(d != 0, "determinant 0 for points in general position");
        double e = hdist(r, h, f); CHECK(e < 2e-3, "recovered homography differs by %g of the spread: %s for %s", e, str(*(H3 *)r).c_str(), str(h).c_str());
        g.nontrivial(f.pixel);
}
FACET(dlt, 1.5, "4-40 correspondences of a random homography, with wild ones among them not marked as inliers for the inlier variant, normalised or pixel coordinates: least squares recovers the homography, its return value is the residual (0), fewer than four give DBL_MAX; matches unchanged; nontrivial: wild matches present")
{
        H3 h0 = gen_h(g); Frame f = gen_frame(g); H3 h = in_frame(h0, f); int n = (int)(g.b(0.3) ? 4 : g.len(4, 40, 500, 0.01)), wild = g.b() ? (int)g.u(1, 10) : 0; std::vector<NXPointMatch2D> v; double q[8]; gen_quad(g, q, 0.3);
        for (int i = 0; i < n; ++i) { double x = (float)(f.s * (i < 4 ? q[2 * i] : g.real(-1, 1)) + f.ox), y = (float)(f.s * (i < 4 ? q[2 * i + 1] : g.real(-1, 1)) + f.oy), X, Y; apply(h.h, x, y, X, Y); v.push_back(match(x, y, X, Y, true)); }
        auto all = v; for (int i = 0; i < wild; ++i) v.insert(v.begin() + g.u(0, v.size()), match(f.s * g.real(-1, 1) + f.ox, f.s * g.real(-1, 1) + f.oy, f.sp * g.real(-1, 1) + f.oxp, f.sp * g.real(-1, 1) + f.oyp, false));
        g.note("%s %s n=%d wild=%d", str(h).c_str(), f.pixel ? "pixel" : "normalised", n, wild); auto v0 = v; double r[9], r2[9]; for (int i = 0; i < 9; ++i) r[i] = r2[i] = NAN;
        dirty(); double s = nx_homography_estimate_dlt(r, n, all.data()); dirty(); double s2 = nx_homography_estimate_dlt_inliers(r2, (int)v.size(), v.data());
        CHECK(memcmp(v.data(), v0.data(), sizeof(v[0]) * v.size()) == 0, "matches changed");
        double tol = f.pixel ? 0.02 : 1e-4, e = hdist(r, h, f), e2 = hdist(r2, h, f); CHECK(e < tol, "least squares differs by %g of the spread", e); CHECK(e2 < tol, "least squares on inliers differs by %g of the spread", e2);
        double big = f.pixel ? f.s * f.sp * 10 : 10; CHECK(s >= 0 && s <= 1e-5 * big && s2 >= 0 && s2 <= 1e-5 * big, "residual of exact correspondences is %g / %g", s, s2);
        int few = (int)g.u(0, 3); double t = nx_homography_estimate_dlt(r, few, all.data()); CHECK(t == DBL_MAX, "%d correspondences give residual %g", few, t);
        for (int i = few; i < n; ++i) all[i].is_inlier = NX_FALSE; t = nx_homography_estimate_dlt_inliers(r, n, all.data()); CHECK(t == DBL_MAX, "%d inliers give residual %g", few, t);
        g.nontrivial(wild > 0);
}
FACET(dlt_noise, 0.6, "more than four correspondences with noise: the returned vector has unit norm, minimises the algebraic residual (no better than random perturbations of it), and the returned value is that residual; nontrivial: always")
{
        H3 h = gen_h(g); int n = g.len(5, 25, 300, 0.01); double sg = g.real(0.001, 0.1); std::vector<NXPointMatch2D> v; for (int i = 0; i < n; ++i) { double x = g.real(-1, 1), y = g.real(-1, 1), X, Y; apply(h.h, x, y, X, Y); v.push_back(match(x, y, X + sg * g.gauss(), Y + sg * g.gauss(), true)); }
        double r[9], s; if (g.b()) s = nx_homography_estimate_dlt(r, n, v.data()); else { auto w = v; for (int i = (int)g.u(0, 6); i > 0; --i) w.insert(w.begin() + g.u(0, w.size()), match(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), false)); s = nx_homography_estimate_dlt_inliers(r, (int)w.size(), w.data()); } g.note("n=%d sigma %g residual %g", n, sg, s);
        auto res = [&](const double *q) { ld nn = 0, e = 0; for (int i = 0; i < 9; ++i) nn += (ld)q[i] * q[i]; for (auto &m : v) { ld a = (ld)q[0] * m.x[0] + (ld)q[3] * m.x[1] + q[6], b = (ld)q[1] * m.x[0] + (ld)q[4] * m.x[1] + q[7], c = (ld)q[2] * m.x[0] + (ld)q[5] * m.x[1] + q[8]; e += (a - m.xp[0] * c) * (a - m.xp[0] * c) + (b - m.xp[1] * c) * (b - m.xp[1] * c); } return (double)sqrtl(e / nn); };
        double R = res(r), nn = 0; for (double q : r) nn += q * q; CHECK(near_(nn, 1, 1e-9, 0), "squared norm of the estimate is %g", nn); CHECK(near_(s, R, 1e-4, 1e-5), "returned %g, residual is %g", s, R);
        for (int t = 0; t < 10; ++t) { double p[9]; double am = std::pow(10, -g.real(0, 4)); for (int i = 0; i < 9; ++i) p[i] = r[i] + am * g.real(-1, 1); CHECK(res(p) >= R * (1 - 1e-6) - 1e-6, "a perturbed homography has residual %g, the estimate %g", res(p), R); }
        g.nontrivial();
}
FACET(transfer, 1.0, "mapping of points and mean transfer errors (forward, backward, both) over inliers, and inlier marking by a homography or its inverse for a tolerance, with matches at, inside and outside the tolerance: equal the definition, number equals the marks, only the marks change; C++ class agrees; nontrivial: inliers and outliers")
{
        H3 h0 = gen_h(g); Frame f = gen_frame(g); H3 h = in_frame(h0, f); double sc = g.b(0.2) ? -1 : g.b(0.3) ? g.real(0.01, 100) : 1; for (auto &x : h.h) x *= sc; H3 hi = inv(h); int n = g.len(0, 40, 600, 0.01); std::vector<NXPointMatch2D> v; double tol = f.sp * g.real(0.001, 0.3), eps = 2e-6 * (f.pixel ? 6 * std::max(f.s, f.sp) : 10), ff = 0, bb = 0; int ni = 0;
        for (int i = 0; i < n; ++i) { double x = (float)(f.s * g.real(-1, 1) + f.ox), y = (float)(f.s * g.real(-1, 1) + f.oy), X, Y; apply(h.h, x, y, X, Y); double a = g.real(0, 6.3), d = tol * g.pick<double>({0, 0.5, 0.99, 1.01, 1.5, 3}); v.push_back(match(x, y, X + d * std::cos(a), Y + d * std::sin(a), g.b())); }
        g.note("%s n=%d tol=%g", str(h).c_str(), n, tol); std::vector<double> df(n), db(n);
        for (int i = 0; i < n; ++i) {
                double X, Y; apply(h.h, v[i].x[0], v[i].x[1], X, Y); df[i] = std::hypot(X - v[i].xp[0], Y - v[i].xp[1]); float o[2]; double s = nx_homography_transfer_fwd(h.h, o, v[i].x); CHECK(std::fabs(o[0] - X) < eps && std::fabs(o[1] - Y) < eps, "point maps to (%g,%g), not (%g,%g)", X, Y, o[0], o[1]); CHECK(near_(s, h.h[2] * v[i].x[0] + h.h[5] * v[i].x[1] + h.h[8], 1e-9, 1e-12), "scale %g", s);
                VGHomography V; for (int q = 0; q < 9; ++q) CHECK(V.data()[q] == (q % 4 == 0 ? 1.0 : 0.0), "element %d of a new homography is %g", q, V.data()[q]); V.set(h.h); float of[2]; double od[2], xd[2] = {v[i].x[0], v[i].x[1]}; V.transfer_fwd<float>(of, v[i].x); V.transfer_fwd<double>(od, xd); CHECK(std::fabs(of[0] - X) < eps && std::fabs(of[1] - Y) < eps && std::fabs(od[0] - X) < eps * 1e-3 && std::fabs(od[1] - Y) < eps * 1e-3, "C++ transfer");
                apply(hi.h, v[i].xp[0], v[i].xp[1], X, Y); db[i] = std::hypot(X - v[i].x[0], Y - v[i].x[1]); if (v[i].is_inlier) { ++ni; ff += df[i]; bb += db[i]; }
        }
        if (ni) { ff /= ni; bb /= ni; double a = nx_homography_transfer_error_fwd(h.h, n, v.data()), b = nx_homography_transfer_error_bwd(h.h, n, v.data()), c = nx_homography_transfer_error_sym(h.h, n, v.data());
                CHECK(near_(a, ff, 1e-5, 2 * eps), "forward error %g, mean over inliers %g", a, ff); CHECK(near_(b, bb, 1e-5, 20 * eps), "backward error %g, mean over inliers %g", b, bb); CHECK(near_(c, 0.5 * (ff + bb), 1e-5, 20 * eps), "symmetric error %g, expected %g", c, 0.5 * (ff + bb));
                VGPointCorrespondence2D C; for (auto &m : v) C.add_match(m.id, m.x[0], m.x[1], 1, m.idp, m.xp[0], m.xp[1], 1, 0, m.is_inlier); VGHomography V; V.set(h.h); CHECK(V.transfer_error_fwd(C) == a && V.transfer_error_bwd(C) == b && V.transfer_error_sym(C) == c, "C++ transfer errors"); }
        for (bool invd : {false, true}) {
                auto w = v; double t = invd ? tol * f.s / f.sp : tol; int k = invd ? nx_homography_mark_inliers_inv(hi.h, n, w.data(), t) : nx_homography_mark_inliers(h.h, n, w.data(), t), c = 0;
                for (int i = 0; i < n; ++i) { double d = invd ? db[i] : df[i]; c += w[i].is_inlier ? 1 : 0; if (std::fabs(d - t) > 20 * eps) CHECK((w[i].is_inlier != 0) == (d < t), "match with %s error %.9g marked %d at tolerance %.9g", invd ? "backward" : "forward", d, w[i].is_inlier, t); auto z = w[i]; z.is_inlier = v[i].is_inlier; CHECK(memcmp(&z, &v[i], sizeof z) == 0, "marking changed a match"); }
                CHECK(k == c && k == nx_point_match_2d_count_inliers(n, w.data()), "%d inliers reported, %d marked", k, c);
        }
        g.nontrivial(ni > 0 && ni < n);
}
FACET(check, 0.8, "acceptance test of a homography for random homographies of any size and both orientations: false exactly when the image of the square around the origin is mirrored or the cosine between its diagonals exceeds the bound; nontrivial: not mirrored")
{
        H3 h = gen_h(g); if (g.b(0.2)) { h.h[2] += h.h[8] * g.real(-2, 2); h.h[5] += h.h[8] * g.real(-2, 2); } double s = std::exp(g.real(-5, 5)), sk = g.b() ? 1 : std::exp(g.real(-4, 0)); h = mul(sim(s, g.real(-2, 2) * s, g.real(-2, 2) * s), h); for (int i = 0; i < 3; ++i) h.h[i] *= sk; double fl = g.pick<double>({1, 1, -1, 0.1}); for (auto &x : h.h) x *= fl; double mc = g.pick<double>({0.965926, 0.5, 0.9, 0.99}), p[8], sq[8] = {-1, -1, 1, -1, 1, 1, -1, 1}; int pos = 0;
        for (int i = 0; i < 4; ++i) pos += apply(h.h, sq[2 * i], sq[2 * i + 1], p[2 * i], p[2 * i + 1]); bool cross = pos != 0 && pos != 4;
        double ac[2] = {p[4] - p[0], p[5] - p[1]}, bd[2] = {p[6] - p[2], p[7] - p[3]}, cr = ac[0] * bd[1] - ac[1] * bd[0], cs = std::fabs(ac[0] * bd[0] + ac[1] * bd[1]) / std::hypot(ac[0], ac[1]) / std::hypot(bd[0], bd[1]); g.note("%s cos %g bound %g", str(h).c_str(), cs, mc);
        // convexity of the image: B and D lie on opposite sides of AC
        auto side = [&](int k) { return ac[0] * (p[2 * k + 1] - p[1]) - ac[1] * (p[2 * k] - p[0]); }; bool want = side(1) < 0 && side(3) > 0; double st = 1e-9 * (s * s + std::hypot(ac[0], ac[1]) * std::hypot(bd[0], bd[1]) + std::hypot(ac[0], ac[1]) * (std::fabs(p[0]) + std::fabs(p[1]))); if (std::fabs(side(1)) < st || std::fabs(side(3)) < st || std::fabs(cs - mc) < 1e-6) g.discard();
        (void)cr; if (cross) g.note("the square crosses the horizon"); want = want && cs <= mc; NXBool got = nx_homography_check(h.h, mc); CHECK((got != 0) == want, "check gives %d: cosine between diagonals %g (bound %g), sides %g %g", got, cs, mc, side(1), side(3));
        g.nontrivial(side(1) < 0 && side(3) > 0);
}
