// C25: Harris derivative products, score image and keypoints against direct computation; C++ detector against the C functions.
#include "../filt.hpp"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/vg_harris_detector.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
using namespace im; using namespace virg::nexus;
static int ksize(float s, bool &edge) { double t = 2.0 * 3.0f * s + 1.0; if (std::fabs(t - std::round(t)) < 1e-4) edge = true; int n = (int)t; if (n % 2 == 0) n++; return std::max(n, 3); }
static Mod fmod_(int w, int h) { Mod m; m.w = w; m.h = h; m.nc = 1; m.f32 = true; m.v.assign((size_t)w * h, 0); return m; }
static double dx(const Mod &m, int x, int y) { if (m.w == 1) return 0; if (x == 0) return 2 * (m.at(1, y) - m.at(0, y)) / 255; if (x == m.w - 1) return 2 * (m.at(x, y) - m.at(x - 1, y)) / 255; return (m.at(x + 1, y) - m.at(x - 1, y)) / 255; }
static double dy(const Mod &m, int x, int y) { if (m.h == 1) return 0; if (y == 0) return 2 * (m.at(x, 1) - m.at(x, 0)) / 255; if (y == m.h - 1) return 2 * (m.at(x, y) - m.at(x, y - 1)) / 255; return (m.at(x, y + 1) - m.at(x, y - 1)) / 255; }
static void products(const Mod &m, float s, Mod o[3], bool &edge)
{
        for (int i = 0; i < 3; ++i) o[i] = fmod_(m.w, m.h); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { double a = dx(m, x, y), b = dy(m, x, y); o[0].at(x, y) = a * a; o[1].at(x, y) = b * b; o[2].at(x, y) = a * b; }
        if (s > 0) { auto k = gauss_kernel(ksize(s, edge) / 2 + 1, s); for (int i = 0; i < 3; ++i) { Iv v{o[i], o[i]}; v = pass(pass(v, k, true, 0), k, false, 0); o[i] = v.lo; } }
}
struct Set3 { NXImage *d[3] = {nullptr, nullptr, nullptr}; ~Set3() { for (auto p : d) nx_image_free(p); } };
FACET(products, 1.0, "derivative products of any 8-bit image (from 1x1, any stride, window width 0 to 12, fresh or reused output images): smoothed I_x^2, I_y^2, I_x I_y at every pixel; nontrivial: window and at least 4x4")
{
        Mod m = gen_mod(g, 1, 40, 1, 40, 1, false); Holder im(make(m, gen_stride(g, m), g.bits64())); float s = (float)(g.b(0.3) ? g.pick<double>({0, 1.2, 0.5, 2}) : g.b(0.9) ? g.real(0.3, 4) : g.real(4, 12)); bool edge = false; Mod w[3]; products(m, s, w, edge); if (edge) g.discard(); Set3 t; for (auto &p : t.d) if (g.b()) p = gen_dest(g); nx_harris_deriv_images(t.d, im.p, s); g.note("%dx%d sigma %g", m.w, m.h, s);
        static const char *nm[] = {"Ix^2", "Iy^2", "IxIy"}; for (int i = 0; i < 3; ++i) { check_shape(t.d[i], m.w, m.h, 1, true, nm[i]); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { double v = get(t.d[i], x, y); CHECK(std::fabs(v - w[i].at(x, y)) < 2e-5, "%s at (%d,%d) is %g, direct computation %g", nm[i], x, y, v, w[i].at(x, y)); } } check_same(im.p, m, "input"); g.nontrivial(s > 0 && m.w >= 4 && m.h >= 4);
}
FACET(score, 0.8, "score image of arbitrary derivative products of any size and strides and any k: det - k trace^2 at every pixel, inputs unchanged; nontrivial: always")
{
        int w = gen_dim(g, 1, 30), h = gen_dim(g, 1, 30); if (g.b(0.02)) (g.b() ? w : h) = (int)g.u(30, 1200); Mod m[3]; Set3 t; for (int i = 0; i < 3; ++i) { m[i] = fmod_(w, h); Rng r{g.bits64()}; double a = g.pick<double>({1, 4, 0.01}); for (auto &v : m[i].v) v = (float)(a * (i == 2 ? 2 * r.unit() - 1 : r.unit())); t.d[i] = make(m[i], gen_stride(g, m[i]), g.bits64()); } float k = (float)g.pick<double>({0.04, 0.06, 0, 0.25, 0.05}); Holder o(gen_dest(g)); nx_harris_score_image(o.p, t.d, k); g.note("%dx%d k %g", w, h, k); check_shape(o.p, w, h, 1, true, "score");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = m[0].at(x, y), b = m[1].at(x, y), c = m[2].at(x, y), e = a * b - c * c - (double)k * (a + b) * (a + b), v = get(o.p, x, y); CHECK(std::fabs(v - e) <= 1e-6 * (a * b + c * c + k * (a + b) * (a + b)) + 1e-12, "score at (%d,%d) is %g, not %g", x, y, v, e); } for (int i = 0; i < 3; ++i) check_same(t.d[i], m[i], "product image"); g.nontrivial();
}
struct KP { int x, y; float s; };
// strict 3x3 maxima above the threshold, at least two pixels from the border, raster order
static std::vector<KP> maxima(const NXImage *p, float t) { std::vector<KP> r; for (int y = 2; y < p->height - 2; ++y) for (int x = 2; x < p->width - 2; ++x) { float v = (float)get(p, x, y); bool ok = v > t; for (int j = -1; j <= 1 && ok; ++j) for (int i = -1; i <= 1; ++i) if ((i || j) && !(v > (float)get(p, x + i, y + j))) { ok = false; break; } if (ok) r.push_back({x, y, v}); } return r; }
FACET(keypoints, 1.2, "keypoints of generated score images (noise, few levels with ties, plateaus, negative, maxima next to the border) with any threshold, stride and room: exactly the strict local maxima above the threshold in raster order with their scores; nontrivial: several found and some values above threshold not maxima")
{
        bool big = g.b(0.01); int w = gen_dim(g, 1, big ? 400 : 40), h = gen_dim(g, 1, big ? 150 : 40), kind = (int)g.u(0, 2), lev = (int)g.u(2, 6); Mod m = fmod_(w, h); Rng r{g.bits64()}; for (auto &v : m.v) v = (float)(kind == 0 ? r.unit() * 2 - 1 : kind == 1 ? (double)(r() % lev) : (r() % 6 ? 0 : (double)(r() % 100) - 20)); Holder im(make(m, gen_stride(g, m), g.bits64())); float t = (float)(g.b(0.4) ? g.pick<double>({0, 1, -1, 0.5, 1e9}) : g.real(-1, 2)); auto want = maxima(im.p, t); int room = g.b(0.7) ? (int)want.size() + (int)g.u(0, 2) : (int)g.u(0, 8); std::vector<NXKeypoint> k(std::max(room, 1)); memset((void *)k.data(), 0x5a, k.size() * sizeof k[0]); int n = nx_harris_detect_keypoints(room, k.data(), im.p, t); g.note("%dx%d threshold %g room %d: %zu maxima", w, h, t, room, want.size());
        CHECK(n == std::min(room, (int)want.size()), "%d keypoints, %zu maxima, room %d", n, want.size(), room); for (int i = 0; i < n; ++i) CHECK(k[i].x == want[i].x && k[i].y == want[i].y && k[i].score == want[i].s && k[i].xs == (float)k[i].x && k[i].ys == (float)k[i].y && k[i].level == 0 && k[i].scale == 1.0f && k[i].id == (uint64_t)i && k[i].ori == 0.0f, "keypoint %d is (%d,%d) score %g id %llu, expected (%d,%d) score %g", i, k[i].x, k[i].y, k[i].score, (unsigned long long)k[i].id, want[i].x, want[i].y, want[i].s); check_same(im.p, m, "score image"); g.nontrivial(n > 1);
}
static std::vector<KP> direct(const NXImage *im, float s, float k, float t) { Set3 d; nx_harris_deriv_images(d.d, im, s); Holder o(nx_image_alloc()); nx_harris_score_image(o.p, d.d, k); return maxima(o.p, t); }
static Mod blocks(Gen &g) { Mod m; m.w = gen_dim(g, 8, 60); m.h = gen_dim(g, 8, 60); m.nc = 1; m.f32 = false; Rng r{g.bits64()}; int kind = (int)g.u(0, 1), b = 2 + (int)(r() % 7); m.v.assign((size_t)m.w * m.h, 0); std::vector<int> c(64 * 64); for (auto &x : c) x = (int)(r() & 255); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.at(x, y) = kind ? c[(y / b) * 64 + x / b] : (int)(r() & 255); return m; }
FACET(detector, 1.2, "C++ detector used repeatedly with changing images and pyramids: the first keypoints, up to the number asked for, of the local maxima of each level from the coarsest, with level, scale, sigma and running ids; nontrivial: pyramid with keypoints on several levels")
{
        VGHarrisDetector D; const float s = 1.2f, k = 0.06f, t = 0.000005f; /* its parameters: the declared setters have no definition */ std::vector<NXKeypoint> keys((size_t)g.u(0, 3)); int steps = (int)g.u(1, 4); bool multi = false;
        for (int i = 0; i < steps; ++i) {
                Mod m = blocks(g); VGImage im(make(m, gen_stride(g, m), g.bits64()), true); int mx = g.b() ? 2000 : (int)g.u(1, 40);
                struct E { KP p; int level; float scale, sigma; }; std::vector<E> want; int n; bool pyr = g.b(0.6);
                if (!pyr) { for (auto &q : direct(im.nx_img(), s, k, t)) want.push_back({q, 0, 1.0f, -1}); n = D.detect(im, keys, mx, false); }
                else { VGImagePyr P = VGImagePyr::build_fast_from(im, (int)g.u(1, 3), 0.5f); int L = (int)g.u(1, P.n_levels()); for (int l = L - 1; l >= 0; --l) for (auto &q : direct(P[l].nx_img(), s, k, t)) want.push_back({q, l, P.level_scale(l), P.level_sigma(l)}); n = D.detect_pyr(P, keys, L, mx, false); }
                g.note("%dx%d sigma %g k %g t %g max %d %s: %zu", m.w, m.h, s, k, t, mx, pyr ? "pyramid" : "image", want.size()); CHECK(n == std::min(mx, (int)want.size()) && keys.size() == (size_t)n, "%d keypoints in %zu entries, %zu exist, %d asked for", n, keys.size(), want.size(), mx); std::set<int> lv; for (int j = 0; j < n; ++j) { auto &q = keys[j]; auto &e = want[j]; CHECK(q.x == e.p.x && q.y == e.p.y && q.score == e.p.s && q.level == e.level && q.scale == e.scale && (e.sigma < 0 || q.sigma == e.sigma) && q.id == (uint64_t)j && q.xs == (float)q.x && q.ys == (float)q.y, "keypoint %d is (%d,%d) level %d scale %g sigma %g score %g id %llu, expected (%d,%d) level %d scale %g sigma %g score %g", j, q.x, q.y, q.level, q.scale, q.sigma, q.score, (unsigned long long)q.id, e.p.x, e.p.y, e.level, e.scale, e.sigma, e.p.s); lv.insert(q.level); } multi |= lv.size() > 1;
        }
        g.nontrivial(multi);
}
FACET(adapt, 0.4, "threshold adaptation on a fixed image: every result consists of the maxima above some threshold, the number never falls when far too few were found, and the threshold moves by less than a factor of 8 at a time; nontrivial: more maxima than the limit")
{
        Mod m = blocks(g); VGImage im(make(m, gen_stride(g, m), g.bits64()), true); auto all = direct(im.nx_img(), 1.2f, 0.06f, 0); int mx = (int)g.u(1, 30), last = -1; double U = 5e-6, L = 5e-6; VGHarrisDetector D; std::vector<NXKeypoint> keys; g.note("%dx%d maxima %zu limit %d", m.w, m.h, all.size(), mx);
        for (int i = 0; i < 60; ++i) { int n = D.detect(im, keys, mx, true); CHECK(n <= mx && keys.size() == (size_t)n, "%d keypoints, limit %d", n, mx); double low = INFINITY; for (auto &k : keys) { CHECK(k.score >= L * 0.99, "score %g reported, threshold can be no lower than %g", k.score, L); low = std::min(low, (double)k.score); } if (n < mx) { std::set<std::pair<int, int>> in; for (auto &k : keys) in.insert({k.x, k.y}); for (auto &a : all) { CHECK(a.s <= U * 1.01 || in.count({a.x, a.y}), "maximum (%d,%d) with score %g missing in call %d, threshold can be no higher than %g", a.x, a.y, a.s, i, U); if (!in.count({a.x, a.y})) L = std::max(L, (double)a.s * 0.99); } } U = 8 * std::min(U, low); L /= 8; if (n < mx) { float lo = INFINITY; std::set<std::pair<int, int>> got; for (auto &k : keys) { lo = std::min(lo, k.score); got.insert({k.x, k.y}); } for (auto &a : all) CHECK(got.count({a.x, a.y}) || a.s <= lo, "maximum (%d,%d) with score %g missing, weaker %g reported", a.x, a.y, a.s, lo); if (last >= 0 && last < mx && last < (int)(0.9 * mx)) CHECK(n >= last, "%d keypoints after %d of %d", n, last, mx); } last = n; }
        g.nontrivial((int)all.size() > mx);
}
