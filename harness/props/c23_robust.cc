// C23: RANSAC / USAC estimation of homographies and fundamental matrices on generated consistent and wild matches.
#include "../epi.hpp"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_usac.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/vg_homography.hpp"
#include "virg/nexus/vg_fundamental_matrix.hpp"
using namespace geo; using namespace virg::nexus;
static void __attribute__((noinline)) dirty(double v) { volatile double a[6000]; for (int i = 0; i < 6000; ++i) a[i] = v * (1 + i % 7); }
typedef std::vector<NXPointMatch2D> Ms;
enum { RANSAC, NORM, USAC };
// the estimators draw from the shared sampler: seed it per case so that failures replay
static void seed(Gen &g) { nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), (uint32_t)g.u(0, 0xffffffffu)); }
static const char *nm[] = {"ransac", "normalised ransac", "usac"};
static int run_h(int k, double *h, Ms &v, double tol, int it, bool cpp = false)
{
        if (cpp) { VGPointCorrespondence2D C; for (auto &m : v) C.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); VGHomography V; int r = V.estimate_ransac(C, tol, it); memcpy(h, V.data(), 72); for (size_t i = 0; i < v.size(); ++i) v[i] = C[(int)i]; return r; }
        return k == RANSAC ? nx_homography_estimate_ransac(h, (int)v.size(), v.data(), tol, it) : k == NORM ? nx_homography_estimate_norm_ransac(h, (int)v.size(), v.data(), tol, it) : nx_usac_estimate_homography(h, (int)v.size(), v.data(), tol, it);
}
static int run_f(int k, double *F, Ms &v, double tol, int it, bool cpp = false)
{
        if (cpp) { VGPointCorrespondence2D C; for (auto &m : v) C.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); VGFundamentalMatrix V; int r = V.estimate_ransac(C, tol, it); memcpy(F, V.data(), 72); for (size_t i = 0; i < v.size(); ++i) v[i] = C[(int)i]; return r; }
        return k == RANSAC ? nx_fundamental_estimate_ransac(F, (int)v.size(), v.data(), tol, it) : nx_fundamental_estimate_norm_ransac(F, (int)v.size(), v.data(), tol, it);
}
// same matches (by id) with unaltered contents except the marks; returns the number marked. eps: rounding allowed in coordinates
static int same(const Ms &a, const Ms &b, double eps)
{
        std::map<uint64_t, const NXPointMatch2D *> by; for (auto &m : a) by[m.id] = &m; std::set<uint64_t> seen; int c = 0;
        for (auto &m : b) { auto p = by.find(m.id); CHECK(p != by.end() && seen.insert(m.id).second, "match %llu lost or repeated", (unsigned long long)m.id); auto &o = *p->second; CHECK(m.idp == o.idp && m.match_cost == o.match_cost, "match %llu altered", (unsigned long long)m.id); for (int i = 0; i < 2; ++i) CHECK(std::fabs(m.x[i] - o.x[i]) <= eps && std::fabs(m.xp[i] - o.xp[i]) <= eps, "coordinates (%g,%g)-(%g,%g) of match %llu became (%g,%g)-(%g,%g)", o.x[0], o.x[1], o.xp[0], o.xp[1], (unsigned long long)m.id, m.x[0], m.x[1], m.xp[0], m.xp[1]); CHECK(near_(m.sigma_x, o.sigma_x, 1e-5, 0) && near_(m.sigma_xp, o.sigma_xp, 1e-5, 0), "sigma of match altered"); c += m.is_inlier ? 1 : 0; }
        return c;
}
static double herr(const double *h, const NXPointMatch2D &m) { double X, Y; apply(h, m.x[0], m.x[1], X, Y); return std::hypot(X - m.xp[0], Y - m.xp[1]); }
template <class D> static void marks(const Ms &v, double tol, double slack, D d, const char *what) { for (auto &m : v) { double e = d(m); if (std::fabs(e - tol) > slack && !std::isnan(e)) CHECK((m.is_inlier != 0) == (e < tol), "%s: match with error %.9g marked %d, tolerance %.9g", what, e, m.is_inlier, tol); if (std::isnan(e)) CHECK(!m.is_inlier, "%s: match with undefined error marked", what); } }
static void costs(Gen &g, Ms &v) { seed(g); int mode = (int)g.u(0, 2); uint64_t id = 1; for (auto &m : v) { m.id = id++; m.idp = g.u(0, 1 << 20); m.match_cost = mode == 0 ? 0 : mode == 1 ? (float)g.u(0, 5) : (float)g.real(0, 50); m.sigma_x = (float)g.real(0.5, 4); m.sigma_xp = (float)g.real(0.5, 4); } for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.u(0, i - 1)]); }
static double cosdiag(const H3 &h, bool &mir) { double p[8], sq[8] = {-1, -1, 1, -1, 1, 1, -1, 1}; for (int i = 0; i < 4; ++i) apply(h.h, sq[2 * i], sq[2 * i + 1], p[2 * i], p[2 * i + 1]); double a = p[4] - p[0], b = p[5] - p[1], c = p[6] - p[2], d = p[7] - p[3]; mir = a * d - b * c < 0; return std::fabs(a * c + b * d) / std::hypot(a, b) / std::hypot(c, d); }

// whether some minimal sample is ill-posed for the closed-form estimate, or the model is refused, in the frame used
static bool ill(const Ms &v, bool norm, const H3 &h)
{
        int n = (int)v.size(); double m[4] = {0, 0, 0, 0}, d[2] = {1, 1}; if (norm) { for (auto &p : v) { m[0] += p.x[0] / n; m[1] += p.x[1] / n; m[2] += p.xp[0] / n; m[3] += p.xp[1] / n; } d[0] = d[1] = 0; for (auto &p : v) { d[0] += std::hypot(p.x[0] - m[0], p.x[1] - m[1]) / n; d[1] += std::hypot(p.xp[0] - m[2], p.xp[1] - m[3]) / n; } }
        H3 z = mul(mul(inv(sim(d[1], m[2], m[3])), h), sim(d[0], m[0], m[1])); for (double x : {-1.0, 1.0}) for (double y : {-1.0, 1.0}) if (z.h[2] * x + z.h[5] * y + z.h[8] < 0.1 * std::fabs(z.h[8])) return true; bool mir; if (!(cosdiag(z, mir) < 0.9) || mir) return true;
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) for (int e = 0; e < n; ++e) if (a != b && a != c && a != e && b != c && b != e && c != e) { int id[4] = {a, b, c, e}; double q[8], w[8]; for (int i = 0; i < 4; ++i) { q[2 * i] = (v[id[i]].x[0] - m[0]) / d[0]; q[2 * i + 1] = (v[id[i]].x[1] - m[1]) / d[0]; w[2 * i] = (v[id[i]].xp[0] - m[2]) / d[1]; w[2 * i + 1] = (v[id[i]].xp[1] - m[3]) / d[1]; } if (ill_unit(q) || ill_unit(w)) return true; }
        return false;
}
// consistent matches spread over the image: few coincide and they do not gather along a line
static bool spread(const Ms &v, int lo, int hi, const Frame &f)
{
        double sx = 0, sy = 0, xx = 0, xy = 0, yy = 0; int n = hi - lo, dup = 0; if (n < 4) return false;
        for (int i = lo; i < hi; ++i) { double x = (v[i].x[0] - f.ox) / f.s, y = (v[i].x[1] - f.oy) / f.s; sx += x / n; sy += y / n; xx += x * x / n; xy += x * y / n; yy += y * y / n; for (int j = lo; j < i; ++j) if (std::hypot(v[i].x[0] - v[j].x[0], v[i].x[1] - v[j].x[1]) < 1e-3 * f.s) { ++dup; break; } }
        xx -= sx * sx; xy -= sx * sy; yy -= sy * sy; double t = (xx + yy) / 2, d = std::sqrt(std::max(0.0, t * t - (xx * yy - xy * xy)));
        return dup * 5 <= n && t - d > 0.03;
}
FACET(homography, 1.2, "12-450 matches of a homography, some with an error near the tolerance, inlier ratio 0.55-1, little or no noise, random costs, gross outliers; all three estimators (C++ too): the model explains the consistent matches, marks are exactly the matches within tolerance of it, their number is returned, matches only reordered; nontrivial: outliers present")
{
        int k = (int)g.u(0, 2); bool px = k == NORM && g.b(0.7); H3 h0 = gen_h(g, false); Frame f; f.pixel = px; if (px) f = gen_frame(g); if (!px || !f.pixel) { f = Frame{1, 0, 0, 1, 0, 0, false}; } H3 h = in_frame(h0, f); bool mir; if (cosdiag(h0, mir) > 0.9 || mir) g.discard();
        int n = g.len(12, 80, 450, 0.02), mid = g.b(0.4) ? (int)g.u(1, 1 + n / 10) : 0, out = g.b(0.25) ? 0 : std::min((int)(n * g.real(0.02, 0.45)), (n - 8) / 2); if (n < 20) mid = std::min(mid, 1); double tol = f.sp * g.real(0.01, 0.03), noise = g.b() ? 0 : tol * g.real(0, 0.2); Ms v; int cons = 0; double q[8]; gen_quad(g, q, 0.3);
        for (int i = 0; i < n; ++i) { bool in = i >= out; double x = (float)(f.s * (in && i - out < 4 ? q[2 * (i - out)] : g.real(-1, 1)) + f.ox), y = (float)(f.s * (in && i - out < 4 ? q[2 * (i - out) + 1] : g.real(-1, 1)) + f.oy), X, Y; apply(h.h, x, y, X, Y); if (in) { ++cons; v.push_back(match(x, y, X + noise * g.real(-1, 1) * 0.7, Y + noise * g.real(-1, 1) * 0.7, g.b())); } else { double a = g.real(0, 6.3), d = f.sp * g.real(0.3, 2); v.push_back(match(x, y, X + d * std::cos(a), Y + d * std::sin(a), g.b())); } }
        // some matches neither consistent nor gross outliers, so that the tolerance itself matters
        for (int i = 0; i < mid; ++i) { double x = (float)(f.s * g.real(-1, 1) + f.ox), y = (float)(f.s * g.real(-1, 1) + f.oy), X, Y, a = g.real(0, 6.3), d = tol * std::pow(10, g.real(-0.7, 0.9)); apply(h.h, x, y, X, Y); v.push_back(match(x, y, X + d * std::cos(a), Y + d * std::sin(a), g.b())); }
        if (!spread(v, out, n, f)) g.discard();
        costs(g, v); Ms v0 = v; double r[9]; for (double &x : r) x = g.real(-1, 1); bool cpp = k == RANSAC && g.b(0.3); dirty(g.real(-1, 1)); int it = 600, c = run_h(k, r, v, tol, it, cpp); g.note("%s n=%d near=%d outliers=%d tol=%g noise=%g %s", nm[k], n, mid, out, tol, noise, str(h).c_str());
        double eps = k == NORM ? (px ? 2e-3 : 1e-5) : 0; int m = same(v0, v, eps); CHECK(c == m, "%s returned %d, %d matches marked", nm[k], c, m); marks(v, tol, std::max(1e-3 * tol, 3 * eps), [&](const NXPointMatch2D &p) { return herr(r, p); }, nm[k]);
        CHECK(c >= (mid ? cons * 0.7 : cons), "%s found %d inliers of %d consistent matches", nm[k], c, cons); double e = hdist(r, h, f); CHECK(e < 1, "%s: model differs from the true one by %g of the spread", nm[k], e);
        g.nontrivial(out > 0);
}
FACET(fundamental, 1.2, "40-350 matches of a scene, inlier ratio 0.7-1, little or no noise, outliers; plain and normalised estimation (C++ too): the model explains the consistent matches, marks are exactly the matches within tolerance, their number is returned, matches only reordered, rank two; nontrivial: outliers present")
{
        int k = (int)g.u(0, 1); bool px = k == NORM && g.b(0.7); int n = g.len(40, 110, 350, 0.02), out = g.b(0.25) ? 0 : (int)(n * g.real(0.02, 0.3)); Scene s = gen_scene(g, n, px); Ms v = views(s); double u = px ? 300 : 1, tol = u * g.real(0.003, 0.006), noise = g.b() ? 0 : tol * 0.03 * g.unit(); for (auto &m : v) { m.xp[0] += (float)(noise * g.real(-1, 1)); m.xp[1] += (float)(noise * g.real(-1, 1)); m.is_inlier = g.b(); }
        { Ms w(v.begin() + out, v.end()); Scene t = s; t.pixel = false; memcpy(t.K, H3{{1, 0, 0, 0, 1, 0, 0, 0, 1}}.h, 72); memcpy(t.Kp, t.K, 72); t.X.erase(t.X.begin(), t.X.begin() + 3 * out); Ms z = views(t); std::vector<ld> sv; double M[9]; eight(z, sv, M); if (sv[1] < 1e-2 * sv[8]) g.discard(); }
        for (int i = 0; i < out; ++i) { double a = g.real(0, 6.3), d = u * g.real(0.2, 1); v[i].xp[0] += (float)(d * std::cos(a)); v[i].xp[1] += (float)(d * std::sin(a)); } int cons = n - out; std::set<uint64_t> good; std::vector<uint64_t> raw; costs(g, v); Ms v0 = v; double r[9]; for (double &x : r) x = g.real(-1, 1); bool cpp = k == RANSAC && g.b(0.3); dirty(g.real(-1, 1)); int c = run_f(k, r, v, tol, 1500, cpp);
        g.note("%s n=%d outliers=%d tol=%g noise=%g %s", nm[k], n, out, tol, noise, px ? "pixel" : "normalised"); double eps = k == NORM ? (px ? 2e-3 : 1e-5) : 0; int m = same(v0, v, eps); CHECK(c == m, "%s returned %d, %d matches marked", nm[k], c, m); marks(v, tol, std::max(2e-3 * tol, 5 * eps), [&](const NXPointMatch2D &p) { return epidist(r, p); }, nm[k]); double q[3]; sv3(r, q); CHECK(q[0] < 1e-5 * q[2], "rank");
        CHECK(c >= cons * 0.6, "%s found %d inliers of %d consistent matches", nm[k], c, cons); g.nontrivial(out > 0);
}
FACET(single, 1.0, "every match consistent, as few as a minimal sample (4 or 8) and a small iteration limit: any sample suffices, so all matches are inliers of the returned model, whatever the stack or the output array held before; nontrivial: minimal number")
{
        if (g.b()) {
                int k = (int)g.u(0, 2), n = g.b(0.6) ? 4 : (int)g.u(5, 7); H3 h = gen_h(g, false); bool mir; if (cosdiag(h, mir) > 0.9 || mir) g.discard(); Ms v; double q[8]; gen_quad(g, q, 0.3); for (int i = 0; i < n; ++i) { double x, y; if (i < 4) { x = q[2 * i]; y = q[2 * i + 1]; } else { x = g.real(-1, 1); y = g.real(-1, 1); for (auto &a : v) for (auto &b : v) if (&a != &b) { float p[2] = {(float)x, (float)y}; if (area(a.x, b.x, p) < 0.02) g.discard(); } } double X, Y; x = (float)x; y = (float)y; apply(h.h, x, y, X, Y); v.push_back(match(x, y, X, Y, g.b())); }
                if (ill(v, k == NORM, h)) g.discard();
                costs(g, v); Ms v0 = v; double r[9]; for (double &x : r) x = g.real(-1, 1); int it = k == USAC ? (int)g.u(2, 4) : (int)g.u(1, 3); dirty(g.real(-1, 1)); int c = run_h(k, r, v, 0.05, it); g.note("%s n=%d iterations=%d", nm[k], n, it); int m = same(v0, v, k == NORM ? 1e-5 : 0); CHECK(c == n && m == n, "%s: %d inliers returned, %d marked, all %d are consistent", nm[k], c, m, n); g.nontrivial(n == 4);
        } else {
                int k = (int)g.u(0, 1), n = g.b(0.6) ? 8 : (int)g.u(9, 12); Scene s = gen_scene(g, n, false); Ms v = views(s); for (int i = 0; i < n - 7 && n <= 9; ++i) { } std::vector<ld> sv; double M[9];
                // every 8-subset must be well conditioned: drop each n-8 subset for n=8,9; otherwise sample only n=8
                if (n > 9) { n = 9; v.resize(9); } for (int d = 0; d < (n == 8 ? 1 : 9); ++d) { Ms w = v; if (n == 9) w.erase(w.begin() + d); eight(w, sv, M); if (sv[1] < 2e-3 * sv[8]) g.discard(); }
                costs(g, v); Ms v0 = v; double r[9]; for (double &x : r) x = g.real(-1, 1); int it = (int)g.u(1, 3); dirty(g.real(-1, 1)); int c = run_f(k, r, v, 0.02, it); g.note("F %s n=%d iterations=%d", nm[k], n, it); int m = same(v0, v, k == NORM ? 1e-5 : 0); CHECK(c == n && m == n, "%s: %d inliers returned, %d marked, all %d are consistent", nm[k], c, m, n); g.nontrivial(n == 8);
        }
}
FACET(hopeless, 1.0, "0-30 matches without a common model (random, coincident, collinear, duplicated, mirrored), any iteration limit from 0: returns without crash; number returned is 0 or the number marked; too few matches are left untouched; the outcome does not depend on what the stack or output array held; nontrivial: degenerate")
{
        bool fm = g.b(); int k = (int)g.u(0, fm ? 1 : 2), n = g.b(0.2) ? (int)g.u(0, 8) : (int)g.u(0, 30), mode = (int)g.u(0, 4); Ms v; double px = g.real(-1, 1), py = g.real(-1, 1), dx = g.real(-1, 1), dy = g.real(-1, 1); H3 h = mul(gen_h(g, false), H3{{1, 0, 0, 0, -1, 0, 0, 0, 1}});
        for (int i = 0; i < n; ++i) { double x = g.real(-1, 1), y = g.real(-1, 1), X = g.real(-1, 1), Y = g.real(-1, 1); if (mode == 1) { x = X = px; y = Y = py; } if (mode == 2) { double a = g.real(-1, 1); x = px + a * dx; y = py + a * dy; X = x; Y = y; } if (mode == 3 && i) { auto &m = v[g.u(0, v.size() - 1)]; x = m.x[0]; y = m.x[1]; X = m.xp[0]; Y = m.xp[1]; } if (mode == 4) apply(h.h, x, y, X, Y); v.push_back(match(x, y, X, Y, g.b())); }
        costs(g, v); Ms v0 = v; double tol = g.pick<double>({0.001, 0.01, 0.1}), r[2][9]; int it = g.b(0.3) ? (int)g.u(0, 1) : (int)g.u(0, 30), minn = fm ? 8 : 4; g.note("%s %s n=%d mode=%d iterations=%d tol=%g", fm ? "F" : "H", nm[k], n, mode, it, tol);
        for (int t = 0; t < 2; ++t) {
                Ms w = v0; for (double &x : r[t]) x = t ? 0 : 1e3; if (t) { r[t][0] = r[t][4] = r[t][8] = 1; } dirty(t ? 0.37 : -5); int c = fm ? run_f(k, r[t], w, tol, it) : run_h(k, r[t], w, tol, it), m = same(v0, w, k == NORM ? 1e-5 : 0);
                if (n < minn) { CHECK(c == 0, "%d matches give %d inliers", n, c); if (k != NORM) for (int i = 0; i < n; ++i) CHECK(w[i].id == v0[i].id && w[i].is_inlier == v0[i].is_inlier, "too few matches, yet marks or order changed"); continue; }
                CHECK(c == m || (!fm && c == 0), "returned %d, %d matches marked", c, m); if (it == 0) CHECK(m == 0 && c == 0, "without iterations %d inliers are reported, %d marked", c, m); if (!fm && mode == 1) CHECK(c == 0, "%d inliers of a homography from coincident points", c);
        }
        g.nontrivial(n >= minn && mode > 0);
}

// scripted problem for the generic engine: every callback answers from the generated script and logs what it was given
struct Script { struct Mod { bool ok, nondeg, refine; double score, rscore; }; struct It { bool sample_ok; std::vector<Mod> m; }; std::vector<It> it; size_t at = 0; int m, ns; double gscore; int cur_sample = 0, next_model = 0, cur_models = 0; const It *cur = nullptr; std::vector<double> seen_best; std::vector<double> seen_score; const Mod *mod = nullptr; bool asked_refine = false, global = false; std::string err; bool grow; };
static void tagm(const Script &s, double *p, double id) { for (int i = 0; i < s.m; ++i) p[i] = id + 0.001 * i; }
FACET(engine, 0.8, "generic USAC engine with generated callbacks (sample refused, 0-3 models per sample with growing buffer, models refused or degenerate, local and global refinement better or worse): result and score equal a direct simulation, best score passed to termination never decreases, no leak; nontrivial: several candidate models")
{
        static thread_local Script *S; Script s; S = &s; s.m = (int)g.u(1, 9); s.ns = (int)g.u(1, 5); int n = (int)g.u(0, 8), nm = 0; s.gscore = g.pick<double>({-1, 0, 5, 20}); auto sc = [&]() { return (double)g.u(0, 12) - 2; };
        for (int i = 0; i < n; ++i) { Script::It t; t.sample_ok = g.b(0.8); int k = (int)g.u(0, 3); for (int j = 0; j < k; ++j) { t.m.push_back({g.b(0.8), g.b(0.8), g.b(), sc(), sc()}); ++nm; } s.it.push_back(t); }
        // model ids: 100*(iteration+1)+10*index; refined +5; global 7
        double best = -DBL_MAX; double bid = 0; bool has = false; std::vector<double> want_best; for (int i = 0; i < n; ++i) { want_best.push_back(best); auto &t = s.it[i]; if (!t.sample_ok) continue; for (size_t j = 0; j < t.m.size(); ++j) { auto &m = t.m[j]; double id = 100 * (i + 1) + 10 * (double)j; if (!m.ok || !(m.score > best) || !m.nondeg) continue; if (m.refine && m.rscore > m.score) { best = m.rscore; bid = id + 5; } else { best = m.score; bid = id; } has = true; } } want_best.push_back(best); if (s.gscore > best) { best = s.gscore; bid = 7; has = true; }
        NXUSACConfig c; 
        c.termination_fn = [](const double *, double b, void *d) -> NXBool { auto &s = *(Script *)d; s.seen_score.push_back(b); if (s.at >= s.it.size()) return NX_TRUE; s.cur = &s.it[s.at++]; return NX_FALSE; };
        c.sampling_fn = [](int *ids, void *d) { auto &s = *(Script *)d; for (int i = 0; i < s.ns; ++i) ids[i] = (int)s.at * 10 + i; };
        c.sample_check_fn = [](const int *ids, void *d) -> NXBool { auto &s = *(Script *)d; if (ids[0] != (int)s.at * 10) s.err = "sample check got other ids than were sampled"; return s.cur->sample_ok ? NX_TRUE : NX_FALSE; };
        c.model_fit_fn = [](int *maxn, double **models, const int *ids, void *d) -> int { auto &s = *(Script *)d; if (!s.cur->sample_ok) s.err = "refused sample was fitted"; if (ids[s.ns - 1] != (int)s.at * 10 + s.ns - 1) s.err = "fit got other ids"; int k = (int)s.cur->m.size(); if (k > *maxn) { nx_free(*models); *models = NX_NEW_D((size_t)k * s.m); *maxn = k; } for (int j = 0; j < k; ++j) tagm(s, *models + s.m * j, 100.0 * s.at + 10 * j); return k; };
        static auto idx = [](const Script &s, const double *p) { int j = (int)((p[0] - 100.0 * s.at) / 10 + 0.01); return j; };
        c.model_check_fn = [](double *p, const int *, void *d) -> NXBool { auto &s = *(Script *)d; int j = idx(s, p); if (j < 0 || j >= (int)s.cur->m.size()) { s.err = "unknown model checked"; return NX_FALSE; } return s.cur->m[j].ok ? NX_TRUE : NX_FALSE; };
        c.model_score_fn = [](double *p, const int *, void *d) -> double { auto &s = *(Script *)d; if (std::fabs(p[0] - 7) < 0.01) return s.gscore; double r = p[0] - 100.0 * s.at; int j = (int)(r / 10 + 0.01); if (j < 0 || j >= (int)s.cur->m.size()) { s.err = "unknown model scored"; return -1e9; } if (!s.cur->m[j].ok) s.err = "refused model scored"; return r - 10 * j > 4 ? s.cur->m[j].rscore : s.cur->m[j].score; };
        c.degeneracy_check_fn = [](double *p, const int *, void *d) -> NXBool { auto &s = *(Script *)d; int j = idx(s, p); return s.cur->m[j].nondeg ? NX_TRUE : NX_FALSE; };
        c.local_refinement_fn = [](double *q, const double *p, const int *, void *d) -> NXBool { auto &s = *(Script *)d; int j = idx(s, p); if (!s.cur->m[j].refine) { tagm(s, q, -999); return NX_FALSE; } tagm(s, q, p[0] + 5); return NX_TRUE; };
        c.global_refinement_fn = [](double *q, const double *, void *d) { auto &s = *(Script *)d; s.global = true; tagm(s, q, 7); };
        std::vector<double> model(s.m, NAN); nx_uniform_sampler_instance(); size_t h0 = pbt::c_heap_bytes(); double r = nx_usac(s.m, model.data(), s.ns, &c, &s); size_t h1 = pbt::c_heap_bytes(); g.note("m=%d samples=%d iterations=%d models=%d best=%g", s.m, s.ns, n, nm, best);
        CHECK(s.err.empty(), "%s", s.err.c_str()); CHECK(r == best, "score %g, best offered is %g", r, best); if (has) for (int i = 0; i < s.m; ++i) CHECK(std::fabs(model[i] - bid - 0.001 * i) < 1e-9, "model %g returned, best is %g", model[i], bid); CHECK(s.seen_score.size() >= want_best.size(), "stopped early"); for (size_t i = 0; i < want_best.size(); ++i) CHECK(s.seen_score[i] == want_best[i], "termination test %zu saw best score %g, expected %g", i, s.seen_score[i], want_best[i]);
        CHECK(h1 <= h0 + 0 || s.seen_score.empty(), "%zu bytes leaked", h1 - h0); g.nontrivial(nm > 2);
}
