// C34: keypoints, matches, normalisation of match sets and of the models estimated on them.
#include "../core.hpp"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
#include "../limited.hpp"
static bool near_(double a, double b, double r) { return pbt::near_(a, b, r, 0.0); } using pbt::near_;
using namespace pbt; using virg::nexus::VGPointCorrespondence2D;
typedef NXPointMatch2D M;

static NXKeypoint gen_key(Gen &g)
{
        NXKeypoint k; memset(&k, 0, sizeof k);
        bool wild = g.b(0.1);
        k.x = wild ? g.any_int() : (int)g.i(-50, 3000); k.y = wild ? g.any_int() : (int)g.i(-50, 3000);
        k.xs = wild ? (float)(g.gauss() * 1e6) : (float)(k.x + g.unit() - 0.5); k.ys = wild ? (float)(g.gauss() * 1e6) : (float)(k.y + g.unit() - 0.5);
        k.level = (int)g.i(0, 12); k.scale = g.b() ? (float)std::ldexp(1.0, k.level) : (float)std::pow(g.pick<double>({1.2, 1.1, 1.5, 0.5}), k.level);
        k.sigma = (float)g.real(0, 20); k.score = (float)g.gauss(); k.ori = (float)g.real(-3.2, 6.3); k.id = g.b() ? g.bits64() : g.u(0, 1000);
        return k;
}
static M gen_match(Gen &g, double mag, double off)
{
        M m; memset(&m, 0, sizeof m);
        for (int i = 0; i < 2; ++i) { m.x[i] = (float)(off + mag * g.gauss()); m.xp[i] = (float)(-off + mag * g.gauss()); }
        m.match_cost = g.b(0.3) ? (float)g.i(0, 4) : (float)g.gauss(); m.sigma_x = (float)g.real(0.1, 9); m.sigma_xp = (float)g.real(0.1, 9); m.id = g.bits64(); m.idp = g.u(0, 99); m.is_inlier = g.b() ? NX_TRUE : NX_FALSE; return m;
}
static bool same_key(const NXKeypoint &a, const NXKeypoint &b) { auto e = [](float x, float y) { return !memcmp(&x, &y, 4); }; return a.x == b.x && a.y == b.y && e(a.xs, b.xs) && e(a.ys, b.ys) && a.level == b.level && e(a.scale, b.scale) && e(a.sigma, b.sigma) && e(a.score, b.score) && e(a.ori, b.ori) && a.id == b.id; }
static bool same_match(const M &a, const M &b) { return a.x[0] == b.x[0] && a.x[1] == b.x[1] && a.xp[0] == b.xp[0] && a.xp[1] == b.xp[1] && a.match_cost == b.match_cost && a.sigma_x == b.sigma_x && a.sigma_xp == b.sigma_xp && a.id == b.id && a.idp == b.idp && !!a.is_inlier == !!b.is_inlier; }

FACET(keypoint_io, 1.0, "0-300 keypoints written to a stream and read back, whole or cut at any byte: every field returns bit for bit, a short stream gives the number of whole keypoints and is fatal for the checked reader; nontrivial: several keypoints")
{
        int n = (int)(g.b(0.8) ? g.u(0, 12) : g.u(13, 300)); std::vector<NXKeypoint> k(n), r(n + 1); for (auto &x : k) x = gen_key(g);
        std::string f = scratch_file("keys"); { FILE *o = fopen(f.c_str(), "wb"); int w = n; if (g.b()) w = nx_keypoint_write(k.data(), n, o); else nx_keypoint_xwrite(k.data(), n, o); fclose(o); CHECK(w == n, "wrote %d of %d", w, n); }
        std::string s = slurp(f); CHECK(n == 0 || s.size() % n == 0, "%d keypoints take %zu bytes", n, s.size());
        for (auto &x : r) memset(&x, 0xA5, sizeof x);
        NXKeypoint guard = r[n];
        { FILE *i = fopen(f.c_str(), "rb"); int q = n; if (g.b()) q = nx_keypoint_read(r.data(), n, i); else nx_keypoint_xread(r.data(), n, i); int c = fgetc(i); fclose(i); CHECK(q == n, "read %d of %d", q, n); CHECK(c == EOF, "bytes left"); }
        for (int i = 0; i < n; ++i) CHECK(same_key(k[i], r[i]), "keypoint %d differs: x %d/%d y %d/%d xs %g/%g ys %g/%g level %d/%d scale %g/%g sigma %g/%g score %g/%g ori %g/%g", i, k[i].x, r[i].x, k[i].y, r[i].y, k[i].xs, r[i].xs, k[i].ys, r[i].ys, k[i].level, r[i].level, k[i].scale, r[i].scale, k[i].sigma, r[i].sigma, k[i].score, r[i].score, k[i].ori, r[i].ori);
        CHECK(!memcmp(&guard, &r[n], sizeof guard), "keypoint after the last one changed");
        if (n) { size_t one = s.size() / n, cut = g.u(0, s.size() - 1); spit(f, s.substr(0, cut)); FILE *i = fopen(f.c_str(), "rb"); int q = nx_keypoint_read(r.data(), n, i); CHECK(q == (int)(cut / one), "%zu bytes of %zu per keypoint: %d read", cut, one, q); for (int j = 0; j < q; ++j) CHECK(same_key(k[j], r[j]), "keypoint %d of a cut stream", j); rewind(i); CHECK(fatal([&] { nx_keypoint_xread(r.data(), n, i); }), "short stream accepted"); fclose(i);
                FILE *o = fopen("/dev/full", "wb"); if (o) { setvbuf(o, NULL, _IONBF, 0); CHECK(nx_keypoint_write(k.data(), n, o) == 0, "write to a full device"); CHECK(fatal([&] { nx_keypoint_xwrite(k.data(), n, o); }), "failed write accepted"); fclose(o); } }
        unlink(f.c_str()); g.note("%d keypoints", n); g.nontrivial(n > 1);
}
FACET(from_keypoints, 1.0, "any two keypoints: the match holds their base-image coordinates, scaled sigma, ids, cost and inlier flag; nontrivial: some scale differs from 1")
{
        NXKeypoint k = gen_key(g), p = gen_key(g); float s0 = (float)g.real(0.1, 4), c = (float)g.gauss(); bool in = g.b(); bool cls = g.b(); M m; if (cls) { VGPointCorrespondence2D v; for (int i = (int)g.u(0, 3); i--;) v.add_match(1, 2, 3, 4, 5, 6, 7, 8, 9, true); int n = v.size(); CHECK(v.add_keypoint_match(&k, &p, s0, c, in) == n + 1, "size returned by add_keypoint_match"); m = v[n]; } else { auto *volatile fn = nx_point_match_2d_from_keypoints; alignas(M) unsigned char raw[sizeof(M)]; memset(raw, 0, sizeof raw); M *q = (M *)raw; q->is_inlier = in ? NX_FALSE : NX_TRUE; q->id = ~k.id; q->idp = ~p.id; asm volatile("" ::: "memory"); new (raw) M(fn(&k, &p, s0, c, in ? NX_TRUE : NX_FALSE)); m = *q; }
        auto want = [&](float got, double w, const char *what) { CHECK(near_(got, w, 3e-7, 0), "%s is %.9g, expected %.9g", what, got, w); };
        want(m.x[0], (double)k.xs * k.scale, "x"); want(m.x[1], (double)k.ys * k.scale, "y"); want(m.xp[0], (double)p.xs * p.scale, "x'"); want(m.xp[1], (double)p.ys * p.scale, "y'"); want(m.sigma_x, (double)s0 * k.scale, "sigma"); want(m.sigma_xp, (double)s0 * p.scale, "sigma'"); CHECK(m.match_cost == c && m.id == k.id && m.idp == p.id && !!m.is_inlier == in, "cost, ids or inlier flag");
        want(nx_keypoint_xs0(&k), (double)k.xs * k.scale, "xs0"); want(nx_keypoint_ys0(&k), (double)k.ys * k.scale, "ys0");
        double bx = (double)k.x * k.scale, by = (double)k.y * k.scale; if (std::fabs(bx) < 2e9 && std::fabs(by) < 2e9) { CHECK(std::fabs(nx_keypoint_x0(&k) - bx) <= 1 + std::fabs(bx) * 3e-7, "x0 is %d for %d at scale %g", nx_keypoint_x0(&k), k.x, k.scale); CHECK(std::fabs(nx_keypoint_y0(&k) - by) <= 1 + std::fabs(by) * 3e-7, "y0 is %d for %d at scale %g", nx_keypoint_y0(&k), k.y, k.scale); }
        g.note("scale %g %g", k.scale, p.scale); g.nontrivial(k.scale != 1 || p.scale != 1);
}
// relation between a match list before and after normalisation, in long double
static void check_normalised(const std::vector<M> &a, const M *b, const NXPointMatch2DStats *st)
{
        size_t n = a.size(); if (!n) { CHECK(st->m[0] == 0 && st->m[1] == 0 && st->mp[0] == 0 && st->mp[1] == 0 && st->d == 1 && st->dp == 1, "statistics of no matches"); return; }
        for (int side = 0; side < 2; ++side) {
                auto co = [&](const M &m, int i) -> long double { return side ? m.xp[i] : m.x[i]; };
                long double mx = 0, my = 0, d = 0, big = 0; for (auto &m : a) { mx += co(m, 0); my += co(m, 1); big = std::max({big, fabsl(co(m, 0)), fabsl(co(m, 1))}); } mx /= n; my /= n; for (auto &m : a) d += hypotl(co(m, 0) - mx, co(m, 1) - my); d /= n;
                const double *sm = side ? st->mp : st->m; double sd = side ? st->dp : st->d;
                CHECK(near_(sm[0], (double)mx, 1e-12, 1e-13 * (double)big) && near_(sm[1], (double)my, 1e-12, 1e-13 * (double)big), "mean (%.17g %.17g), expected (%.17Lg %.17Lg)", sm[0], sm[1], mx, my);
                bool flat = d <= big * 1e-12L; if (flat) { if (d == 0) CHECK(sd == 1, "coincident points scaled by %g", sd); else return; } else CHECK(near_(sd, (double)d, 1e-6), "mean distance %.17g, expected %.17Lg", sd, d);
                long double s = flat ? 1 : d, zx = 0, zy = 0, zd = 0; for (size_t i = 0; i < n; ++i) { for (int c = 0; c < 2; ++c) { long double w = (co(a[i], c) - (c ? my : mx)) / s; CHECK(near_(co(b[i], c), (double)w, 1e-6, 1e-12 * (double)(big / s)), "match %zu coordinate %d normalised to %.9Lg, expected %.9Lg", i, c, co(b[i], c), w); } zx += co(b[i], 0); zy += co(b[i], 1); zd += hypotl(co(b[i], 0), co(b[i], 1)); long double sg = (side ? a[i].sigma_xp : a[i].sigma_x) / s, gs = side ? b[i].sigma_xp : b[i].sigma_x; CHECK(near_((double)gs, (double)sg, 1e-6), "sigma of match %zu is %.9Lg, expected %.9Lg", i, gs, sg); }
                CHECK(fabsl(zx / n) < 1e-6 + 1e-6 * (flat ? big : 0) && fabsl(zy / n) < 1e-6 + 1e-6 * (flat ? big : 0), "mean after normalisation (%Lg %Lg)", zx / n, zy / n); if (!flat) CHECK(near_((double)(zd / n), 1.0, 1e-5), "mean distance after normalisation %Lg", zd / n);
        }
        for (size_t i = 0; i < n; ++i) CHECK(a[i].match_cost == b[i].match_cost && a[i].id == b[i].id && a[i].idp == b[i].idp && !!a[i].is_inlier == !!b[i].is_inlier, "normalisation changed cost, ids or inlier flag of match %zu", i);
}
static void check_denormalised(const std::vector<M> &a, const M *b, const NXPointMatch2DStats &st)
{
        for (size_t i = 0; i < a.size(); ++i) { for (int c = 0; c < 2; ++c) { double w = st.d * a[i].x[c] + st.m[c], wp = st.dp * a[i].xp[c] + st.mp[c]; CHECK(near_(b[i].x[c], w, 2e-7, 1e-13 * std::fabs(st.m[c])), "match %zu x[%d] denormalised to %.9g, expected %.9g", i, c, b[i].x[c], w); CHECK(near_(b[i].xp[c], wp, 2e-7, 1e-13 * std::fabs(st.mp[c])), "match %zu xp[%d] denormalised to %.9g, expected %.9g", i, c, b[i].xp[c], wp); } CHECK(near_(b[i].sigma_x, a[i].sigma_x * st.d, 2e-7) && near_(b[i].sigma_xp, a[i].sigma_xp * st.dp, 2e-7), "sigma of match %zu", i); CHECK(a[i].match_cost == b[i].match_cost && a[i].id == b[i].id && a[i].idp == b[i].idp && !!a[i].is_inlier == !!b[i].is_inlier, "denormalisation changed cost, ids or inlier flag of match %zu", i); }
}
static std::vector<M> gen_matches(Gen &g, int lo, int hi)
{
        int n = (int)g.u(lo, hi); double mag = g.pick<double>({1, 100, 1000, 1e-3, 1e5}), off = g.pick<double>({0, 0, 300, -2000, 1e4}); std::vector<M> v; for (int i = 0; i < n; ++i) v.push_back(gen_match(g, mag, off)); int kind = (int)g.u(0, 9); if (n && kind < 3) for (auto &m : v) { if (kind != 1) { m.x[0] = v[0].x[0]; m.x[1] = v[0].x[1]; } if (kind != 0) { m.xp[0] = v[0].xp[0]; m.xp[1] = v[0].xp[1]; } } if (kind == 3) for (auto &m : v) m.x[1] = v[0].x[1]; g.note("%d matches, magnitude %g offset %g, shape %d", n, mag, off, kind); return v;
}
FACET(cost_order, 0.4, "any two matches, costs of any magnitude, equal or infinite: the comparison by cost has the sign of their order; nontrivial: different costs")
{
        M a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); auto cost = [&] { return g.b(0.3) ? (float)g.i(-2, 2) : g.b(0.1) ? (g.b() ? INFINITY : -INFINITY) : (float)g.gauss() * std::pow(10.0f, (float)g.i(-20, 20)); };
        a.match_cost = cost(); b.match_cost = g.b(0.2) ? a.match_cost : cost(); a.id = g.u(0, 3); b.id = g.u(0, 3); a.x[0] = (float)g.gauss(); b.x[0] = (float)g.gauss(); int r = nx_point_match_2d_cmp_match_cost(&a, &b), w = (a.match_cost > b.match_cost) - (a.match_cost < b.match_cost);
        g.note("%g against %g gives %d", a.match_cost, b.match_cost, r); g.nontrivial(w != 0); CHECK((r > 0) - (r < 0) == w, "%g against %g compares as %d", a.match_cost, b.match_cost, r);
}
FACET(normalise, 2.0, "0-1500 matches of any magnitude and offset, coincident or collinear on either side: normalised coordinates have zero mean and mean distance one with sigma scaled alike, nothing else changes, and denormalising restores coordinates and sigma to single precision; nontrivial: several matches")
{
        std::vector<M> a = gen_matches(g, 0, g.b(0.9) ? 20 : g.b(0.9) ? 200 : 1500), b = a; NXPointMatch2DStats *st = nx_point_match_2d_stats_new(); struct F { NXPointMatch2DStats *s; ~F() { nx_point_match_2d_stats_free(s); } } f{st}; if (g.b(0.3)) { std::vector<M> o = gen_matches(g, 1, 5); nx_point_match_2d_stats_normalize_matches(st, (int)o.size(), o.data()); }
        nx_point_match_2d_stats_normalize_matches(st, (int)b.size(), b.data()); check_normalised(a, b.data(), st); std::vector<M> c = b; NXPointMatch2DStats s0 = *st; nx_point_match_2d_stats_denormalize_matches(st, (int)c.size(), c.data()); CHECK(!memcmp(&s0, st, sizeof s0), "denormalising changed the statistics"); check_denormalised(b, c.data(), s0);
        for (size_t i = 0; i < a.size(); ++i) for (int k = 0; k < 2; ++k) { CHECK(near_(c[i].x[k], a[i].x[k], 3e-7, 3e-7 * std::fabs(s0.m[k]) + 3e-7 * s0.d * (1 + std::fabs(b[i].x[k]))), "x[%d] of match %zu is %.9g after the round trip, was %.9g", k, i, c[i].x[k], a[i].x[k]); CHECK(near_(c[i].xp[k], a[i].xp[k], 3e-7, 3e-7 * std::fabs(s0.mp[k]) + 3e-7 * s0.dp * (1 + std::fabs(b[i].xp[k]))), "xp[%d] of match %zu is %.9g after the round trip, was %.9g", k, i, c[i].xp[k], a[i].xp[k]); CHECK(near_(c[i].sigma_x, a[i].sigma_x, 5e-7) && near_(c[i].sigma_xp, a[i].sigma_xp, 5e-7), "sigma of match %zu after the round trip", i); } g.nontrivial(a.size() > 1);
}
FACET(models, 2.0, "any normalisation and any homography or fundamental matrix: the denormalised model acts on original coordinates exactly as the given one acts on normalised coordinates; nontrivial: scales differ from one")
{
        NXPointMatch2DStats st; bool id = g.b(0.05); st.m[0] = g.gauss() * 500; st.m[1] = g.gauss() * 500; st.mp[0] = g.gauss() * 500; st.mp[1] = g.gauss() * 500; st.d = std::pow(10.0, g.real(-2, 4)); st.dp = std::pow(10.0, g.real(-2, 4)); VGPointCorrespondence2D v; bool cls = g.b(0.4); if (id) nx_point_match_2d_stats_reset(&st); if (cls) { std::vector<M> a = gen_matches(g, 1, 12); for (auto &m : a) v.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); v.normalize(); st = *v.stats(); }
        double A[9], B[9]; for (int i = 0; i < 9; ++i) A[i] = B[i] = g.b(0.15) ? 0 : g.gauss(); bool hom = g.b(); if (cls) hom ? v.denormalize_homography(B) : v.denormalize_fundamental(B); else hom ? nx_point_match_2d_stats_denormalize_homography(&st, B) : nx_point_match_2d_stats_denormalize_fundamental(&st, B); g.note("%s d %g dp %g", hom ? "homography" : "fundamental", st.d, st.dp);
        for (int rep = 0; rep < 4; ++rep) { long double u[3] = {g.gauss() * 3, g.gauss() * 3, 1}, w[3] = {g.gauss() * 3, g.gauss() * 3, 1}; long double x[3] = {u[0] * st.d + st.m[0], u[1] * st.d + st.m[1], 1}, xp[3] = {w[0] * st.dp + st.mp[0], w[1] * st.dp + st.mp[1], 1};
                if (hom) { // B x ~ T'^-1 A u as homogeneous vectors; compare B x with T'^-1 (A u)
                        long double p[3], q[3], mp[3], r[3]; for (int i = 0; i < 3; ++i) { p[i] = q[i] = mp[i] = 0; for (int j = 0; j < 3; ++j) { p[i] += A[j * 3 + i] * u[j]; q[i] += B[j * 3 + i] * x[j]; mp[i] += fabsl(B[j * 3 + i] * x[j]); } } r[0] = st.dp * p[0] + st.mp[0] * p[2]; r[1] = st.dp * p[1] + st.mp[1] * p[2]; r[2] = p[2]; /* any common factor allowed */ long double nr = hypotl(r[0], hypotl(r[1], r[2])), nq = hypotl(q[0], hypotl(q[1], q[2])); long double scale = 0; for (int i = 0; i < 3; ++i) scale += fabsl(r[i]); long double amag = 0; for (int j = 0; j < 9; ++j) amag += fabsl((long double)A[j]); if (amag == 0) { CHECK(nq == 0, "zero matrix"); continue; } long double err = 1e-11L * amag * (1 + 3 + fabsl((long double)st.m[0]) / st.d + fabsl((long double)st.m[1]) / st.d + 10); // relative to the cancellation in A T
                        // cross product of q and r, in units where the third axis is comparable
                        long double D = st.dp + fabsl((long double)st.mp[0]) + fabsl((long double)st.mp[1]); long double Q[3] = {q[0] / D, q[1] / D, q[2]}, R[3] = {r[0] / D, r[1] / D, r[2]}; long double nQ = hypotl(Q[0], hypotl(Q[1], Q[2])), nR = hypotl(R[0], hypotl(R[1], R[2])); if (nR < err * 1e4 || nQ == 0) continue; for (int i = 0; i < 3; ++i) { long double c = Q[(i + 1) % 3] * R[(i + 2) % 3] - Q[(i + 2) % 3] * R[(i + 1) % 3]; CHECK(fabsl(c) / (nQ * nR) < 10 * err / nR * (nQ >= nR ? 1 : nR / nQ) + 1e-12L, "denormalised homography sends (%Lg %Lg) to (%Lg %Lg %Lg), expected (%Lg %Lg %Lg)", x[0], x[1], q[0], q[1], q[2], r[0], r[1], r[2]); } (void)nr; (void)mp; }
                else { long double e = 0, f = 0, mag = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { long double t = (long double)A[j * 3 + i] * w[i] * u[j]; e += t; mag += fabsl(t); f += (long double)B[j * 3 + i] * xp[i] * x[j]; } long double k = 1 + (fabsl((long double)st.m[0]) + fabsl((long double)st.m[1])) / st.d, kp = 1 + (fabsl((long double)st.mp[0]) + fabsl((long double)st.mp[1])) / st.dp; long double am = 0; for (double a : A) am += fabsl((long double)a); CHECK(fabsl(e - f) <= 1e-12L * am * 100 * k * kp + 1e-12L * mag, "denormalised fundamental matrix gives residual %Lg, expected %Lg", f, e); } }
        g.nontrivial(st.d != 1 || st.dp != 1);
}
FACET(correspondence, 2.0, "1-30 operations (add, add keypoint, set inlier, write, normalise, denormalise, sort, clear, reserve, clone and continue on either copy) on a match set; each operation changes exactly what it should and clones are independent; nontrivial: a normalisation followed by other operations")
{
        VGPointCorrespondence2D v; std::vector<M> a; int ops = (int)g.u(1, 30), norm = 0; auto snap = [&](const VGPointCorrespondence2D &q) { std::vector<M> r; for (int i = 0; i < q.size(); ++i) r.push_back(q[i]); return r; };
        std::string hist; auto same = [&](const VGPointCorrespondence2D &q, const std::vector<M> &w, const char *what) { CHECK(q.size() == (int)w.size(), "%s: %d matches, expected %zu", what, q.size(), w.size()); for (size_t i = 0; i < w.size(); ++i) { CHECK(same_match(q[(int)i], w[i]), "%s: match %zu differs", what, i); CHECK(same_match(q.matches()[i], w[i]), "%s: match %zu differs through matches()", what, i); CHECK(q.is_inlier((int)i) == !!w[i].is_inlier, "%s: inlier flag %zu", what, i); } int c = 0; for (auto &m : w) c += !!m.is_inlier; CHECK(nx_point_match_2d_count_inliers((int)w.size(), q.matches()) == c, "%s: inlier count", what); };
        while (ops--) { NXPointMatch2DStats s0 = *v.stats(); int op = (int)g.u(0, 9); hist += "arwindscke"[op]; switch (op) {
                case 0: case 1: { int k = (int)g.u(1, 6); while (k--) { M m = gen_match(g, 100, 50); if (op == 1 && g.b(0.2)) m.match_cost = 0; int r = v.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); a.push_back(m); CHECK(r == (int)a.size(), "add_match returned %d", r); } same(v, a, "add"); break; }
                case 2: if (a.size()) { int i = (int)g.u(0, a.size() - 1); a[i] = gen_match(g, 10, 0); v[i] = a[i]; same(v, a, "write"); } break;
                case 3: if (a.size()) { int i = (int)g.u(0, a.size() - 1); bool in = g.b(); if (in && g.b()) v.set_inlier(i); else v.set_inlier(i, in); a[i].is_inlier = in; same(v, a, "set_inlier"); } break;
                case 4: v.normalize(); check_normalised(a, v.matches(), v.stats()); a = snap(v); norm++; s0 = *v.stats(); break;
                case 5: v.denormalize(); CHECK(v.size() == (int)a.size(), "size"); check_denormalised(a, v.matches(), s0); { auto *s = v.stats(); CHECK(s->m[0] == 0 && s->m[1] == 0 && s->mp[0] == 0 && s->mp[1] == 0 && s->d == 1 && s->dp == 1, "statistics after denormalising"); } a = snap(v); s0 = *v.stats(); break;
                case 6: { v.sort_by_match_cost(); auto b = snap(v); CHECK(b.size() == a.size(), "size"); for (size_t i = 1; i < b.size(); ++i) CHECK(b[i - 1].match_cost <= b[i].match_cost, "not sorted at %zu", i); auto key = [](const M &x, const M &y) { return std::make_tuple(x.id, x.idp, x.x[0], x.match_cost, x.xp[1]) < std::make_tuple(y.id, y.idp, y.x[0], y.match_cost, y.xp[1]); }; auto p = a, q = b; std::sort(p.begin(), p.end(), key); std::sort(q.begin(), q.end(), key); for (size_t i = 0; i < p.size(); ++i) CHECK(same_match(p[i], q[i]), "sorting lost or changed a match"); auto c = a; qsort(c.data(), c.size(), sizeof(M), nx_point_match_2d_cmp_match_cost); for (size_t i = 0; i < c.size(); ++i) CHECK(c[i].match_cost == b[i].match_cost, "comparison function orders differently at %zu", i); a = b; break; }
                case 7: if (g.b(0.3)) { v.clear(); a.clear(); nx_point_match_2d_stats_reset(&s0); same(v, a, "clear"); } break;
                case 8: { VGPointCorrespondence2D c = v.clone(); same(c, a, "clone"); CHECK(!memcmp(c.stats(), &s0, sizeof s0), "clone has other statistics"); VGPointCorrespondence2D &o = g.b() ? v : c; VGPointCorrespondence2D &keep = &o == &v ? c : v; o.add_match(1, 2, 3, 4, 5, 6, 7, 8, 9, false); if (a.size()) o[0].x[0] = 777; o.normalize(); if (g.b()) o.clear(); same(keep, a, "the other copy"); CHECK(!memcmp(keep.stats(), &s0, sizeof s0), "changing one copy changed the other's statistics"); if (&keep == &c) v = std::move(c); same(v, a, "kept copy"); break; }
                default: v.reserve((int)g.u(0, 100)); same(v, a, "reserve"); }
                CHECK(!memcmp(v.stats(), &s0, sizeof s0), "statistics changed by operation %c", hist.back()); }
        g.note("%s", hist.c_str()); g.nontrivial(norm > 0 && hist.size() > 3);
}
FACET(refused, 0.4, "keypoints written to a stream that takes any number of bytes below the whole and then fails, for good or once: the number of whole keypoints written is returned (checked variant: fatal); nontrivial: some bytes fit")
{
        int n = (int)g.u(1, 12); std::vector<NXKeypoint> k((size_t)n); for (auto &q : k) { memset(&q, 0, sizeof q); q.x = (int)g.u(0, 99); q.id = g.bits64(); } bool x = g.b(); int wrote = 0; bool bad = false; auto w = [&](FILE *f) { if (x) { bad = fatal([&] { nx_keypoint_xwrite(k.data(), n, f); }); } else { wrote = nx_keypoint_write(k.data(), n, f); bad = wrote != n; } }; size_t all = full_size(w); CHECK(!bad, "failure reported on a stream that takes everything"); size_t room = g.b(0.3) ? all - 1 : (size_t)g.u(0, (int64_t)all - 1); g.note("%zu of %zu bytes fit", room, all); { Limited l(room, g.b()); w(l.f); CHECK(bad, "success reported though only %zu of %zu bytes fit", room, all); if (!x) CHECK(wrote == (int)(room / (all / (size_t)n)), "%d keypoints reported written, %zu of %zu bytes fit for %d", wrote, room, all, n); } { Limited l(all); w(l.f); CHECK(!bad && l.taken == all, "fails with exactly enough room"); } g.nontrivial(room > 0);
}
