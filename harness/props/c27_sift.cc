// C27: SIFT keypoints and descriptors against a direct double-precision evaluation on the scale space, plus
// metamorphic relations, cache transparency, storage and matching.
#include "../img.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_options.h"
using namespace im; using namespace pbt;

typedef NXSIFTDetectorParams Par;
struct Det { NXSIFTDetector *p; explicit Det(const Par &q) : p(nx_sift_detector_new(q)) {} ~Det() { nx_sift_detector_free(p); } Det(const Det &) = delete; };
struct Keys {
        int cap = 0, n = 0; NXKeypoint *k = nullptr; uchar *d = nullptr;
        Keys() {} explicit Keys(int c) : cap(c) { if (c) { k = (NXKeypoint *)nx_xmalloc(sizeof(NXKeypoint) * c); d = (uchar *)nx_xmalloc(128 * c); memset((void *)k, 0x5a, sizeof(NXKeypoint) * c); memset(d, 0x5a, 128 * c); } }
        ~Keys() { nx_free(k); nx_free(d); } Keys(const Keys &) = delete; Keys &operator=(const Keys &) = delete;
};
static bool same(const NXKeypoint &a, const NXKeypoint &b) { return a.x == b.x && a.y == b.y && memcmp(&a.xs, &b.xs, 4) == 0 && memcmp(&a.ys, &b.ys, 4) == 0 && a.level == b.level && memcmp(&a.scale, &b.scale, 4) == 0 && memcmp(&a.sigma, &b.sigma, 4) == 0 && memcmp(&a.score, &b.score, 4) == 0 && memcmp(&a.ori, &b.ori, 4) == 0 && a.id == b.id; }
static void check_equal(const Keys &a, const Keys &b, const char *what) { CHECK(a.n == b.n, "%s: %d keypoints, expected %d", what, a.n, b.n); for (int i = 0; i < a.n; ++i) { CHECK(same(a.k[i], b.k[i]), "%s: keypoint %d at (%g,%g) level %d, expected (%g,%g) level %d", what, i, a.k[i].xs, a.k[i].ys, a.k[i].level, b.k[i].xs, b.k[i].ys, b.k[i].level); CHECK(memcmp(a.d + 128 * i, b.d + 128 * i, 128) == 0, "%s: descriptor %d differs", what, i); } }
static Par gen_par(Gen &g)
{
        Par p = nx_sift_default_parameters(); p.double_image = g.b(0.35); if (g.b(0.3)) { p.peak_threshold = 0.02f; return p; }
        p.n_scales_per_octave = (int)g.u(1, 5); p.sigma0 = (float)g.real(0.4, 2.4); p.kernel_truncation_factor = (float)g.real(2, 4.5); p.border_distance = (int)g.u(2, 9); p.peak_threshold = (float)g.real(0.003, 0.06); p.edge_threshold = (float)g.real(2, 25); p.magnification_factor = (int)g.u(1, 4); return p;
}
// textured image: blurred noise, blobs, blocks, symmetric patterns, or one of the general kinds
static Mod gen_tex(Gen &g, int lo, int hi, bool f32, bool generic = false)
{
        int kind = generic ? (int)g.u(0, 1) : (int)g.u(0, 5); Mod m; if (kind == 5) { m = gen_mod(g, lo, hi, lo, hi, 1, f32); return m; }
        m.w = (int)g.u(lo, hi); m.h = (int)g.u(lo, hi); m.f32 = f32; m.v.assign((size_t)m.w * m.h, 0.5); Rng r{g.bits64()};
        if (kind == 0 || kind == 4) { int s = (int)g.u(2, 7), gw = m.w / s + 3, gh = m.h / s + 3; std::vector<double> n(gw * gh); for (auto &x : n) x = r.unit(); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { double u = (double)x / s, v = (double)y / s; int i = (int)u, j = (int)v; u -= i; v -= j; u = u * u * (3 - 2 * u); v = v * v * (3 - 2 * v); auto at = [&](int a, int b) { return n[b * gw + a]; }; m.at(x, y) = (at(i, j) * (1 - u) + at(i + 1, j) * u) * (1 - v) + (at(i, j + 1) * (1 - u) + at(i + 1, j + 1) * u) * v; } }
        else if (kind == 1) { int n = (int)g.u(1, 8); for (int t = 0; t < n; ++t) { double cx = r.unit() * m.w, cy = r.unit() * m.h, sx = 1 + 4 * r.unit(), sy = sx * (0.6 + 0.8 * r.unit()), a = r.unit() - 0.5; for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.at(x, y) += a * std::exp(-0.5 * ((x - cx) * (x - cx) / sx / sx + (y - cy) * (y - cy) / sy / sy)); } }
        else { int bs = (int)g.u(3, 9), n = (int)g.u(1, 6); for (int t = 0; t < n; ++t) { int x0 = (int)(r.unit() * m.w), y0 = (int)(r.unit() * m.h); double a = r.unit(); for (int y = y0; y < std::min(m.h, y0 + bs); ++y) for (int x = x0; x < std::min(m.w, x0 + bs); ++x) m.at(x, y) = a; } }
        if (kind == 4) for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.at(x, y) = m.at(std::min(x, m.w - 1 - x), std::min(y, m.h - 1 - y));
        for (auto &x : m.v) { x = std::min(1.0, std::max(0.0, x)); x = f32 ? (double)(float)x : std::floor(x * 255 + 0.5); } return m;
}
static void run(NXSIFTDetector *d, NXImage *im, Keys &k) { k.n = nx_sift_detector_compute(d, im, &k.cap, &k.k, &k.d); CHECK(k.cap >= k.n && k.n >= 0, "%d keypoints with a capacity of %d", k.n, k.cap); }

// ---- direct evaluation
struct Oct { int w, h, oct; float sigma; std::vector<std::vector<float>> lev, dog, gx, gy; };
static std::vector<float> grab(const NXImage *p) { std::vector<float> v((size_t)p->width * p->height); for (int y = 0; y < p->height; ++y) memcpy(&v[(size_t)y * p->width], p->data.f32 + (size_t)y * p->row_stride, 4 * p->width); return v; }
static std::vector<Oct> scale_space(const Par &p, NXImage *im)
{
        std::vector<Oct> r; Holder base(nx_image_alloc()), up(nx_image_alloc()); float sg = 0.5f; int oct = 0; NXImage *src = im; if (p.double_image) { nx_image_upsample(up, im); src = up; sg *= 2; oct = -1; }
        nx_image_resize(base, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32); nx_image_convert_dtype(base, src); auto ks = [](float a, float b) { return (float)std::sqrt((double)(b * b - a * a)); };
        if (p.sigma0 > sg) { float k = ks(sg, p.sigma0); nx_image_smooth(base, base, k, k, p.kernel_truncation_factor, NULL); sg = p.sigma0; }
        int n = p.n_scales_per_octave; float mul = (float)std::pow(2.0, 1.0 / n);
        while (base->width > 2 * p.border_distance + 2 && base->height > 2 * p.border_distance + 2) {
                Oct o; o.w = base->width; o.h = base->height; o.oct = oct++; o.sigma = sg; Holder l(nx_image_alloc()), nxt(nx_image_alloc()), gx(nx_image_alloc()), gy(nx_image_alloc()); nx_image_copy(l, base); float s = sg;
                for (int i = 0; i < n + 3; ++i) { if (i) { float k = ks(s, mul * s); nx_image_smooth(l, l, k, k, p.kernel_truncation_factor, NULL); s *= mul; } o.lev.push_back(grab(l)); if (i < n) { nx_image_deriv_x(gx, l); nx_image_deriv_y(gy, l); o.gx.push_back(grab(gx)); o.gy.push_back(grab(gy)); } if (i == n) nx_image_copy(nxt, l); }
                for (int i = 0; i < n + 2; ++i) { std::vector<float> d(o.lev[i].size()); for (size_t t = 0; t < d.size(); ++t) d[t] = o.lev[i][t] - o.lev[i + 1][t]; o.dog.push_back(d); }
                r.push_back(std::move(o)); nx_image_downsample(base, nxt);
        }
        return r;
}
struct Hist { double h[38], peak, amb; bool wild; };
static Hist ori_hist(const Oct &o, int lv, double x, double y, double sigma)
{
        Hist q; memset(&q, 0, sizeof q); sigma *= 1.5; double f = -0.5 / (sigma * sigma); int r = (int)(sigma * 3); if (std::fabs(sigma * 3 - std::round(sigma * 3)) < 1e-4) q.wild = true; int xi = (int)(x + 0.5), yi = (int)(y + 0.5); if (std::fabs(x + 0.5 - std::round(x + 0.5)) < 1e-5 || std::fabs(y + 0.5 - std::round(y + 0.5)) < 1e-5) q.wild = true;
        double raw[36] = {0}; for (int v = std::max(1, yi - r); v <= std::min(o.h - 3, yi + r); ++v) for (int u = std::max(1, xi - r); u <= std::min(o.w - 3, xi + r); ++u) { double d2 = (u - x) * (u - x) + (v - y) * (v - y), lim = r * r + 0.5; if (d2 > lim + 1e-3) continue; double gx = o.gx[lv][(size_t)v * o.w + u], gy = -(double)o.gy[lv][(size_t)v * o.w + u], a = std::atan2(gy, gx), t = 36 * (a + M_PI + 0.00001) / (2 * M_PI), w = std::exp(f * d2) * std::hypot(gx, gy); if (std::fabs(d2 - lim) < 1e-3 || std::fabs(t - std::round(t)) < 2e-5) q.amb += w; if (d2 > lim) continue; int b = std::min(35, (int)t); raw[b] += w; }
        for (int i = 0; i < 6; ++i) { double t[36]; for (int j = 0; j < 36; ++j) t[j] = (raw[(j + 35) % 36] + raw[j] + raw[(j + 1) % 36]) / 3; memcpy(raw, t, sizeof t); } for (int j = 0; j < 36; ++j) { q.h[j + 1] = raw[j]; q.peak = std::max(q.peak, raw[j]); } q.h[0] = raw[35]; q.h[37] = raw[0]; return q;
}
static void real_desc(const Par &p, const Oct &o, int lv, const NXKeypoint &k, double *out)
{
        double d[128] = {0}, ps = (double)k.sigma * p.magnification_factor, rp = 2.5, c = std::cos((double)k.ori), s = std::sin((double)k.ori); int R = (int)(ps * rp * std::sqrt(2.0) + 1.5); 
        for (int dy = -R; dy <= R; ++dy) for (int dx = -R; dx <= R; ++dx) { int v = k.y + dy, u = k.x + dx; if (v < 0 || u < 0 || v >= o.h || u >= o.w) continue; double ex = u - (double)k.xs, ey = v - (double)k.ys, px = (c * ex - s * ey) / ps, py = (s * ex + c * ey) / ps; if (std::fabs(px) >= rp || std::fabs(py) >= rp) continue; double gx = o.gx[lv][(size_t)v * o.w + u], gy = -(double)o.gy[lv][(size_t)v * o.w + u], w = std::hypot(gx, gy) * std::exp(-0.5 * (px * px + py * py) / 4), h = std::atan2(gy, gx) - (double)k.ori; h = 8 * (h / (2 * M_PI) - std::floor(h / (2 * M_PI))); px += 1.5; py += 1.5; double fx = std::floor(px), fy = std::floor(py), fh = std::floor(h); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int t = 0; t < 2; ++t) { int X = (int)fx + a, Y = (int)fy + b, H = ((int)fh + t) % 8; if (X < 0 || X > 3 || Y < 0 || Y > 3) continue; d[(Y * 4 + X) * 8 + H] += w * (a ? px - fx : 1 - px + fx) * (b ? py - fy : 1 - py + fy) * (t ? h - fh : 1 - h + fh); } }
        for (int pass = 0; pass < 2; ++pass) { double n = 0; for (double x : d) n += x * x; n = std::sqrt(n); for (double &x : d) { if (n > 0) x /= n; if (pass == 0 && x > 0.2) x = 0.2; } } for (int i = 0; i < 128; ++i) out[i] = 512 * d[i];
}
struct Cand { int o, lv; bool wild, maybe; double x, y, sc, val; };
// position, scale and value of the interpolated extremum; false: none
static int interp(const Par &p, const Oct &o, int i, int x, int y, Cand &c)
{
        double b[3] = {0, 0, 0}, val = 0; bool wild = false; int n = 5;
        while (n-- > 0) {
                auto D = [&](int k, int u, int v) { return (double)o.dog[i + k][(size_t)(y + v) * o.w + x + u]; };
                double gr[3] = {(D(0, 1, 0) - D(0, -1, 0)) / 2, (D(0, 0, 1) - D(0, 0, -1)) / 2, (D(1, 0, 0) - D(-1, 0, 0)) / 2}, a = D(0, -1, 0) - 2 * D(0, 0, 0) + D(0, 1, 0), e = D(0, 0, -1) - 2 * D(0, 0, 0) + D(0, 0, 1), k = D(-1, 0, 0) - 2 * D(0, 0, 0) + D(1, 0, 0), h = (D(0, 1, 1) - D(0, -1, 1) - D(0, 1, -1) + D(0, -1, -1)) / 4, s = (D(1, 1, 0) - D(1, -1, 0) - D(-1, 1, 0) + D(-1, -1, 0)) / 4, t = (D(1, 0, 1) - D(1, 0, -1) - D(-1, 0, 1) + D(-1, 0, -1)) / 4;
                double C[6] = {e * k - t * t, s * t - h * k, h * t - s * e, a * k - s * s, h * s - a * t, a * e - h * h}, det = a * C[0] + h * C[1] + s * C[2], mx = 0; for (double z : {a, e, k, h, s, t}) mx = std::max(mx, std::fabs(z)); if (std::fabs(det) < 1e-12 * mx * mx * mx || det == 0) { c.wild = true; c.x = x; c.y = y; return 1; }
                double R[3] = {-gr[0], -gr[1], -gr[2]}; b[0] = (C[0] * R[0] + C[1] * R[1] + C[2] * R[2]) / det; b[1] = (C[1] * R[0] + C[3] * R[1] + C[4] * R[2]) / det; b[2] = (C[2] * R[0] + C[4] * R[1] + C[5] * R[2]) / det; double inv = 0; for (double z : C) inv = std::max(inv, std::fabs(z / det)); double err = 3e-7 * inv * 3 * (1 + std::fabs(b[0]) + std::fabs(b[1]) + std::fabs(b[2])); if (err > 0.02) wild = true; val = D(0, 0, 0) + 0.5 * (gr[0] * b[0] + gr[1] * b[1] + gr[2] * b[2]);
                for (int q = 0; q < 2; ++q) if (std::fabs(std::fabs(b[q]) - 0.6) < err + 1e-5) wild = true;
                int dx = b[0] > 0.6 && x < o.w - 3 ? 1 : b[0] < -0.6 && x > 3 ? -1 : 0, dy = b[1] > 0.6 && y < o.h - 3 ? 1 : b[1] < -0.6 && y > 3 ? -1 : 0; c.val = err; if (!dx && !dy) break; x += dx; y += dy;
        }
        double err = c.val, thr = (double)p.peak_threshold / p.n_scales_per_octave; c.wild = wild; c.x = x + b[0]; c.y = y + b[1]; c.sc = i + b[2]; c.val = val; if (wild) { c.x = x; c.y = y; return 1; }
        for (double z : b) { if (std::fabs(std::fabs(z) - 1.5) < err + 1e-5) c.maybe = true; else if (std::fabs(z) > 1.5) return 0; } if (std::fabs(std::fabs(val) - thr) < 1e-6) c.maybe = true; else if (std::fabs(val) < thr) return 0; return 1;
}
static int verify(Gen &g, const Par &p, NXImage *im, const Keys &K)
{
        auto sp = scale_space(p, im); std::vector<Cand> cs; int n = p.n_scales_per_octave, B = p.border_distance; double thr = 0.8 * (double)p.peak_threshold / n; const double E = 2e-7;
        for (size_t o = 0; o < sp.size(); ++o) for (int i = 1; i <= n; ++i) for (int y = B; y < sp[o].h - B; ++y) for (int x = B; x < sp[o].w - B; ++x) {
                auto D = [&](int k, int u, int v) { return (double)sp[o].dog[i + k][(size_t)(y + v) * sp[o].w + x + u]; }; double d = D(0, 0, 0); if (std::fabs(d) < thr - E) continue; bool may = std::fabs(d) < thr + E, no = false; double sg = d > 0 ? 1 : -1; for (int k = -1; k < 2 && !no; ++k) for (int v = -1; v < 2 && !no; ++v) for (int u = -1; u < 2; ++u) if (k || u || v) { double df = sg * (d - D(k, u, v)); if (df < -E) { no = true; break; } if (df < E) may = true; } if (no) continue;
                double HA = D(0, 0, -1) - 2 * d + D(0, 0, 1), HB = D(0, -1, 0) - 2 * d + D(0, 1, 0), HC = (D(0, 1, 1) - D(0, -1, 1) - D(0, 1, -1) + D(0, -1, -1)) / 4, et = (double)p.edge_threshold, l = (HA * HB - HC * HC) * (et + 1) * (et + 1), rr = et * (HA + HB) * (HA + HB), tol = 3e-6 * (std::fabs(HA) + std::fabs(HB) + std::fabs(HC)) * (et + 1) * (et + 1) ; if (l < rr - tol) continue; if (l < rr + tol) may = true;
                Cand c; c.o = (int)o; c.lv = i - 1; c.maybe = may; if (interp(p, sp[o], i, x, y, c)) cs.push_back(c);
        }
        std::vector<char> used(K.n, 0); std::vector<int> of(K.n, -1); int must = 0;
        for (int pass = 0; pass < 2; ++pass) for (auto &c : cs) {
                if (c.wild) continue; const Oct &o = sp[c.o]; double sg = (double)o.sigma * std::pow(2.0, c.sc / n); auto at = [&](int k) { const NXKeypoint &q = K.k[k]; return q.level == o.oct && std::fabs(q.xs - c.x) < 0.03 && std::fabs(q.ys - c.y) < 0.03 && std::fabs(q.sigma - sg) < 0.03 * sg && near_(q.score, c.val, 1e-3, 1e-5); }; auto dist = [&](int k) { return std::fabs(K.k[k].xs - c.x) + std::fabs(K.k[k].ys - c.y) + std::fabs(K.k[k].sigma - sg); }; if ((pass == 1) != c.maybe) continue; int f = -1; for (int k = 0; k < K.n; ++k) if (at(k) && (f < 0 || used[f] > used[k] || (used[f] == used[k] && dist(k) < dist(f)))) f = k; auto mine = [&](int k) { return at(k) && K.k[k].xs == K.k[f].xs && K.k[k].ys == K.k[f].ys && K.k[k].sigma == K.k[f].sigma; };
                Hist h = f < 0 ? ori_hist(o, c.lv, (float)c.x, (float)c.y, sg) : ori_hist(o, c.lv, K.k[f].xs, K.k[f].ys, K.k[f].sigma); double e = 5e-5 * h.peak + h.amb; bool any = c.maybe || h.wild || e > 0.02 * h.peak || f < 0;
                for (int first = 1; first >= 0; --first) for (int b = 1; b <= 36; ++b) { double m = std::min(std::min(h.h[b] - h.h[b - 1], h.h[b] - h.h[b + 1]), h.h[b] - 0.8 * h.peak); if (m < -2 * e && !h.wild) continue; bool sure = m > 2 * e && !any; if (sure != (first == 1)) continue; double two = h.h[b - 1] + h.h[b + 1] - 2 * h.h[b], off = -0.5 * (h.h[b + 1] - h.h[b - 1]) / two, ori = M_PI * (2 * (b - 0.5 + off) / 36 - 1), to = 2 * M_PI / 36 * std::min(1.0, 6 * e / std::fabs(two)) + 2e-4; if (!sure || !(to < 0.05)) to = std::max(to, 0.18); int hit = -1; double best = to; for (int k = 0; k < K.n; ++k) if (!used[k] && mine(k)) { double da = std::fabs(std::remainder(K.k[k].ori - ori, 2 * M_PI)); if (da < best) { hit = k; best = da; } } if (sure && !c.maybe) { ++must; CHECK(hit >= 0, "no keypoint at (%.3f,%.3f) octave %d sigma %.3f orientation %.4f (peak of bin %d)", c.x, c.y, o.oct, sg, ori, b); } if (hit >= 0) { used[hit] = 1; of[hit] = (int)(&c - &cs[0]); } }
                if (f < 0 && !c.maybe && !h.wild && h.amb < 1e-3 * h.peak) for (int b = 1; b <= 36; ++b) { double m = std::min(std::min(h.h[b] - h.h[b - 1], h.h[b] - h.h[b + 1]), h.h[b] - 0.8 * h.peak); CHECK(m < 0.01 * h.peak, "no keypoint at all at (%.3f,%.3f) octave %d sigma %.3f although orientation bin %d is a peak", c.x, c.y, o.oct, sg, b); }
        }
        for (int k = 0; k < K.n; ++k) {
                const NXKeypoint &q = K.k[k]; CHECK(q.id == (uint64_t)k, "keypoint %d has id %llu", k, (unsigned long long)q.id); CHECK(q.x == (int)(q.xs + 0.5f) && q.y == (int)(q.ys + 0.5f), "keypoint %d integer position (%d,%d) for (%g,%g)", k, q.x, q.y, q.xs, q.ys); CHECK(near_(q.scale, std::ldexp(1.0, q.level), 1e-6, 0), "scale %g of level %d", q.scale, q.level); CHECK(q.xs >= 0 && q.ys >= 0 && nx_keypoint_xs0(&q) <= im->width && nx_keypoint_ys0(&q) <= im->height, "keypoint (%g,%g) of level %d lies outside the %dx%d image", q.xs, q.ys, q.level, im->width, im->height); CHECK(q.ori >= -M_PI - 0.1 && q.ori <= M_PI + 0.1, "orientation %g", q.ori);
                int nn = 0; for (int j = 0; j < 128; ++j) nn += K.d[128 * k + j] * K.d[128 * k + j]; CHECK(nn == 0 || (nn > 380 * 380 && nn < 513 * 513), "descriptor %d has squared length %d", k, nn);
                if (!used[k]) { bool ok = false; for (auto &c : cs) if (c.wild && sp[c.o].oct == q.level && std::fabs(q.xs - c.x) < 7.5 && std::fabs(q.ys - c.y) < 7.5) ok = true; CHECK(ok, "keypoint %d at (%.3f,%.3f) octave %d sigma %.3f orientation %.4f score %g is no extremum of the scale space", k, q.xs, q.ys, q.level, q.sigma, q.ori, q.score); continue; }
                // extrema of neighbouring levels may refine to the same point: the level used may be that of any candidate there
                int bad = -1; double want = 0; bool fine = false; for (int pass = 0; pass < 2 && !fine; ++pass) for (auto &c : cs) { if ((&c == &cs[of[k]]) != (pass == 0) || (pass == 1 && (c.wild || sp[c.o].oct != q.level || std::fabs(q.xs - c.x) > 0.05 || std::fabs(q.ys - c.y) > 0.05))) continue; double d[128]; real_desc(p, sp[c.o], c.lv, q, d); int j = 0; for (; j < 128; ++j) { double w = d[j]; int got = K.d[128 * k + j]; if (!(got <= w + 0.05 && (got >= w - 1.05 || got == 255))) break; } if (j == 128) { fine = true; break; } if (pass == 0) { bad = j; want = d[j]; } }
                CHECK(fine, "descriptor %d element %d is %d, direct evaluation %.3f (position (%g,%g) sigma %g orientation %g octave %d)", k, bad, K.d[128 * k + bad], want, q.xs, q.ys, q.sigma, q.ori, q.level);
        }
        g.note("%zu candidates, %d certain, %d keypoints", cs.size(), must, K.n); return must;
}
FACET(reference, 2.0, "detection with generated parameters on 8-bit and float images of any stride: the set of keypoints (position, scale, orientation, score) and every descriptor element equals a direct double-precision evaluation on the scale space, decisions within rounding of a threshold left open; nontrivial: certain keypoints exist")
{
        Par p = gen_par(g); Mod m = gen_tex(g, 8, 60, g.b(0.4)); Holder im(make(m, gen_stride(g, m), g.bits64())); Det d(p); Keys k((int)(g.b(0.3) ? g.u(0, 3) : g.u(1, 200))); g.note("%s double %d scales %d sigma0 %g border %d peak %g edge %g", brief(m).c_str(), p.double_image, p.n_scales_per_octave, p.sigma0, p.border_distance, p.peak_threshold, p.edge_threshold); run(d.p, im, k); check_same(im, m, "input image after detection"); int must = verify(g, p, im, k); g.nontrivial(must > 0);
}
FACET(reuse, 0.6, "one detector over several images of different sizes, types and strides, with output arrays of any capacity including none: every result equals that of a fresh detector on a tightly packed copy; nontrivial: keypoints found after an earlier image")
{
        Par p = gen_par(g); Det d(p); int n = (int)g.u(2, 4); bool nt = false; for (int i = 0; i < n; ++i) { Mod m = gen_tex(g, 1, 50, g.b(0.4)); Holder a(make(m, gen_stride(g, m), g.bits64())), b(make(m, -1, 1)); Keys k((int)g.u(0, 4)), w(64); run(d.p, a, k); Det f(p); run(f.p, b, w); g.note("image %d %s: %d", i, brief(m).c_str(), w.n); check_equal(k, w, "reused detector"); nt |= i > 0 && w.n > 0; } g.nontrivial(nt);
}
FACET(turns, 0.7, "quarter turns and transpositions of textured images: keypoints of the first octave away from the border turn with the image, orientations included, and descriptors stay equal; nontrivial: at least eight keypoints compared")
{
        Par p = gen_par(g); p.double_image = NX_FALSE; p.n_scales_per_octave = std::min(p.n_scales_per_octave, 3); p.sigma0 = std::min(p.sigma0, 1.6f); Mod m = gen_tex(g, 45, 110, true, true); int t = (int)g.u(1, 3), W = m.w, H = m.h; Mod r = m; if (t & 1) { r.w = H; r.h = W; } for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { int X = x, Y = y; if (t == 1) { X = y; Y = W - 1 - x; } else if (t == 2) { X = W - 1 - x; Y = H - 1 - y; } else { X = H - 1 - y; Y = x; } r.at(X, Y) = m.at(x, y); }
        Holder a(make(m)), b(make(r)); Det d(p); Keys k(64), q(64); run(d.p, a, k); run(d.p, b, q); int cmp = 0, bad = 0; double worst = 0; std::vector<char> used(q.n, 0);
        for (int i = 0; i < k.n; ++i) { auto &z = k.k[i]; double marg = z.sigma * 1.5 * 3 + 4; if (z.level != 0 || z.xs < marg || z.ys < marg || z.xs > W - 1 - marg || z.ys > H - 1 - marg) continue; double X = z.xs, Y = z.ys; if (t == 1) { X = z.ys; Y = W - 1 - z.xs; } else if (t == 2) { X = W - 1 - z.xs; Y = H - 1 - z.ys; } else { X = H - 1 - z.ys; Y = z.xs; } double ori = z.ori + (t == 1 ? M_PI / 2 : t == 2 ? M_PI : -M_PI / 2); ++cmp; int f = -1; for (int j = 0; j < q.n; ++j) { auto &s = q.k[j]; if (!used[j] && s.level == 0 && std::fabs(s.xs - X) < 0.02 && std::fabs(s.ys - Y) < 0.02 && std::fabs(s.sigma - z.sigma) < 0.02 * z.sigma && std::fabs(std::remainder(s.ori - ori, 2 * M_PI)) < 0.02) { f = j; break; } } if (f < 0) { ++bad; continue; } used[f] = 1; double R = z.sigma * p.magnification_factor * 2.5 * 1.5 + 3; if (z.sigma * p.magnification_factor < 2 || std::fabs(std::remainder(q.k[f].ori - ori, 2 * M_PI)) > 1e-3 || std::fabs(q.k[f].xs - X) > 1e-3 || std::fabs(q.k[f].ys - Y) > 1e-3 || z.xs < R || z.ys < R || z.xs > W - 1 - R || z.ys > H - 1 - R) continue; int dd = 0; for (int e = 0; e < 128; ++e) dd = std::max(dd, std::abs((int)k.d[128 * i + e] - (int)q.d[128 * f + e])); worst = std::max(worst, (double)dd); CHECK(dd <= 12, "descriptor of the keypoint at (%g,%g) sigma %g changes by %d in one element when the image is turned", z.xs, z.ys, z.sigma, dd); }
        g.note("%dx%d turned %d: %d compared, %d lost, worst element %g", W, H, t, cmp, bad, worst); CHECK(bad <= 3 + cmp / 6, "%d of %d keypoints are lost when the image is turned", bad, cmp); g.nontrivial(cmp >= 8);
}
static void clear_dir(const std::string &d) { if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') remove((d + "/" + e->d_name).c_str()); closedir(p); } }
static int count_dir(const std::string &d) { int n = 0; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') ++n; closedir(p); } return n; }
FACET(cache, 0.7, "histories of cached detection in one cache directory with near-identical inputs (same bytes in another shape or type, one pixel or one parameter changed, other strides, repeats): every result equals direct computation and a repeat is served from the cache without growing it or leaking; nontrivial: a repeat and a look-alike occur")
{
        std::string dir = scratch_file("siftcache"); clear_dir(dir); Mod m = gen_tex(g, 14, 36, false); if (g.b(0.5)) { while ((size_t)m.w * m.h % 4) { ++m.w; m.v.resize((size_t)m.w * m.h, 128); } } Par p = gen_par(g); p.double_image = NX_FALSE; bool like = false, rep = false; std::vector<std::pair<Mod, Par>> hist; int ops = (int)g.u(2, 6); long heap = -1;
        for (int i = 0; i < ops; ++i) {
                Mod q = m; Par r = p; switch (g.u(0, 6)) { case 0: case 1: break; case 2: std::swap(q.w, q.h); like = true; break; case 3: q.at((int)g.u(0, q.w - 1), (int)g.u(0, q.h - 1)) = (double)g.u(0, 255); break; case 4: r.peak_threshold *= 0.5f; break; case 5: r.border_distance++; break; default: for (int d : {7, 5, 3, 2}) if (m.w % d == 0 && m.w / d > 4) { q.w = m.w / d; q.h = m.h * d; like = true; break; } }
                if (g.b(0.25)) { q.f32 = true; for (auto &x : q.v) x = (double)(float)(x / 255.0); } int before = count_dir(dir); bool seen = false; for (auto &h : hist) seen |= h.first.w == q.w && h.first.h == q.h && h.first.f32 == q.f32 && h.first.v == q.v && memcmp(&h.second, &r, sizeof r) == 0; hist.push_back({q, r}); rep |= seen;
                Holder a(make(q, gen_stride(g, q), g.bits64())), b(make(q)); Det d(r), e(r); Keys k((int)g.u(0, 5)), w(32); k.n = nx_sift_detector_compute_with_cache(d.p, a, &k.cap, &k.k, &k.d, dir.c_str()); CHECK(k.cap >= k.n, "capacity %d for %d keypoints", k.cap, k.n); run(e.p, b, w); g.note("%s border %d peak %g: %d", brief(q).c_str(), r.border_distance, r.peak_threshold, w.n); check_equal(k, w, "cached detection"); if (seen) CHECK(count_dir(dir) == before, "%d cache files after a repeated request, %d before", count_dir(dir), before);
        }
        { Mod q = m; Holder a(make(q)); Det d(p); Keys k(256); for (int i = 0; i < 3; ++i) { k.n = nx_sift_detector_compute_with_cache(d.p, a, &k.cap, &k.k, &k.d, dir.c_str()); long h = (long)c_heap_bytes(); if (i == 2) CHECK(h <= heap, "a repeated request leaves %ld more bytes allocated", h - heap); heap = h; } }
        clear_dir(dir); g.nontrivial(like && rep);
}
FACET(match, 1.2, "brute-force matching of generated descriptor sets (near-duplicates, ties, empty and single sets) with and without ratio rule, directly and through the cache with look-alike requests: exactly the nearest neighbours accepted by the ratio rule, in order, with positions, uncertainties, ids and squared distance; nontrivial: some accepted and some refused")
{
        int n = (int)g.u(0, 12), np = (int)g.u(0, 12); if (g.b(0.1)) np = (int)g.u(0, 1); if (g.b(0.01)) (g.b() ? n : np) = (int)g.u(13, 600); std::vector<uchar> d(128 * (n + 1)), e(128 * (np + 1)); Rng r{g.bits64()}; int lv = g.b(0.3) ? 2 : 256; for (auto &x : e) x = (uchar)(r() % lv); for (int i = 0; i < n; ++i) { bool cp = np && r() % 3; int j = cp ? r() % np : 0, c = r() % 40; for (int t = 0; t < 128; ++t) d[128 * i + t] = cp ? e[128 * j + t] : (uchar)(r() % lv); if (cp) while (c--) d[128 * i + r() % 128] ^= 1 << r() % 5; } if (np > 1 && g.b(0.4)) memcpy(&e[0], &e[128], 128);
        std::vector<NXKeypoint> k(n + 1), q(np + 1); auto fk = [&](NXKeypoint &z) { memset((void *)&z, 0, sizeof z); z.xs = (float)(r.unit() * 500); z.ys = (float)(r.unit() * 500); z.x = (int)z.xs; z.y = (int)z.ys; z.level = r() % 4 - 1; z.scale = std::ldexp(1.f, z.level); z.sigma = 2; z.ori = (float)r.unit(); z.id = ((uint64_t)r() << 31) + r(); }; for (auto &z : k) fk(z); for (auto &z : q) fk(z); double rat = g.pick<double>({0.0, -1.0, 1.0, 1.5, 0.5, 0.8, 0.95, g.real(0.05, 1)}); bool chk = (float)rat > 0 && (float)rat < 1; std::string dir = scratch_file("siftcache"); int mode = (int)g.u(0, 2); clear_dir(dir);
        auto once = [&](int N, int NP) { std::vector<NXPointMatch2D> c(N + 2); memset((void *)c.data(), 0x5a, sizeof(NXPointMatch2D) * (N + 2)); int m = mode ? nx_sift_match_brute_force_with_cache(N, k.data(), d.data(), NP, q.data(), e.data(), c.data(), (float)rat, dir.c_str()) : nx_sift_match_brute_force(N, k.data(), d.data(), NP, q.data(), e.data(), c.data(), (float)rat); int at = 0, acc = 0; double t2 = (double)((float)rat * (float)rat);
                for (int i = 0; i < N; ++i) { long b0 = LONG_MAX, b1 = LONG_MAX; std::vector<int> w; for (int j = 0; j < NP; ++j) { long s = 0; for (int t = 0; t < 128; ++t) { long z = d[128 * i + t] - e[128 * j + t]; s += z * z; } if (s < b0) { b1 = b0; b0 = s; w.assign(1, j); } else { if (s < b1) b1 = s; if (s == b0) w.push_back(j); } } bool yes, open = false; if (NP == 0) yes = false; else if (!chk) yes = true; else { double lim = t2 * (NP > 1 ? (double)b1 : (double)INT_MAX); yes = (double)b0 < lim; open = std::fabs((double)b0 - lim) < 1e-5 * lim; } auto fits = [&](int p) { if (p >= m || c[p].id != k[i].id) return false; bool ok = false; for (int j : w) ok |= c[p].idp == q[j].id && c[p].xp[0] == nx_keypoint_xs0(&q[j]) && c[p].xp[1] == nx_keypoint_ys0(&q[j]) && near_(c[p].sigma_xp, 0.3 * q[j].scale, 1e-5, 0); return ok && c[p].x[0] == nx_keypoint_xs0(&k[i]) && c[p].x[1] == nx_keypoint_ys0(&k[i]) && near_(c[p].sigma_x, 0.3 * k[i].scale, 1e-5, 0) && c[p].match_cost == (float)b0 && !c[p].is_inlier; }; if (open) yes = at < m && c[at].id == k[i].id; if (yes) { CHECK(fits(at), "match %d is not that of descriptor %d to its nearest neighbour (ratio %g, distances %ld %ld)", at, i, rat, b0, b1); ++at; ++acc; } } CHECK(at == m, "%d matches, expected %d (n %d, np %d, ratio %g)", m, at, N, NP, rat); uint64_t pat = 0x5a5a5a5a5a5a5a5aULL; CHECK(memcmp(&c[N], &pat, 8) == 0, "wrote behind the last match"); return acc; };
        g.note("n %d np %d ratio %g cache %d", n, np, rat, mode);
        if (mode == 2 && g.b(0.3)) { std::string all((char *)k.data(), sizeof(NXKeypoint) * n); all.append((char *)d.data(), 128 * n); all.append((char *)q.data(), sizeof(NXKeypoint) * np); all.append((char *)e.data(), 128 * np); int n2 = (int)g.u(0, n + np), np2 = n + np - n2; std::vector<NXKeypoint> k2(n2 + 1), q2(np2 + 1); std::vector<uchar> d2(128 * (n2 + 1)), e2(128 * (np2 + 1)); const char *at = all.data(); auto take = [&](void *o, size_t b) { memcpy(o, at, b); at += b; }; take(k2.data(), sizeof(NXKeypoint) * n2); take(d2.data(), 128 * n2); take(q2.data(), sizeof(NXKeypoint) * np2); take(e2.data(), 128 * np2); std::vector<NXPointMatch2D> c2(n2 + 1); nx_sift_match_brute_force_with_cache(n2, k2.data(), d2.data(), np2, q2.data(), e2.data(), c2.data(), (float)rat, dir.c_str()); g.note("the same bytes first as n %d np %d", n2, np2); once(n, np); clear_dir(dir); }
        int acc = once(n, np); if (mode == 2) { int a2 = once(n, np); CHECK(a2 == acc, "cached repeat"); CHECK(count_dir(dir) == 1, "%d cache files after a repeat", count_dir(dir)); if (n && np) { once(n - 1, np); once(n, np - 1); long h = (long)c_heap_bytes(); once(n, np); CHECK((long)c_heap_bytes() <= h, "a repeated request leaves %ld more bytes allocated", (long)c_heap_bytes() - h); for (int t = (int)g.u(0, 4); t--; ) { int w = (int)g.u(0, 5), i = (int)g.u(0, n - 1), j = (int)g.u(0, np - 1); if (w == 0) for (int z = 0; z < 128; ++z) d[128 * i + z] = e[128 * j + z]; else if (w == 1) for (int z = 0; z < 128; ++z) e[128 * j + z] = d[128 * i + z]; else if (w == 2) k[i].xs += 1; else if (w == 3) q[j].ys += 1; else if (w == 4) q[j].id ^= 1ull << 40; else { rat = chk ? (rat < 0.5 ? 0.9 : 0.3) : 0.7; chk = true; } g.note("then input %d changed (%d, %d)", w, i, j); once(n, np); } } } clear_dir(dir); g.nontrivial(acc > 0 && acc < n);
}
FACET(saved, 0.6, "keypoints and descriptors saved and loaded into arrays of any capacity: equal in every field; truncated files, files with a negative count or another descriptor size, and missing files end in a fatal error; nontrivial: several keypoints")
{
        int n = (int)g.u(0, 30); Keys a(std::max(1, n)); a.n = n; Rng r{g.bits64()}; for (int i = 0; i < n; ++i) { auto &z = a.k[i]; uint32_t w; for (float *f : {&z.xs, &z.ys, &z.scale, &z.sigma, &z.score, &z.ori}) { w = r() * 2u + (r() & 1); memcpy(f, &w, 4); } z.x = (int)(r() * 2u); z.y = (int)(r() * 2u); z.level = (int)(r() * 2u); z.id = ((uint64_t)r() << 40) ^ r(); } for (int i = 0; i < 128 * n; ++i) a.d[i] = (uchar)r(); std::string f = scratch_file("s.sift"); nx_sift_xsave(f.c_str(), n, a.k, a.d); std::string all = slurp(f); g.note("%d keypoints, %zu bytes", n, all.size());
        { Keys b((int)g.u(0, 40)); b.n = nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); CHECK(b.cap >= b.n, "capacity"); check_equal(b, a, "loaded"); } { spit(f, all.substr(0, (size_t)g.u(0, all.size() - 1))); Keys b((int)g.u(0, 40)); CHECK(fatal([&] { nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); }), "truncated file loaded"); } { std::string s = all; int v = g.b() ? -1 - (int)g.u(0, 1000) : INT_MIN; int at = 0; if (g.b()) { at = 4; v = (int)g.pick<double>({0, 64, 127, 129, 512}); } memcpy(&s[at], &v, 4); spit(f, s); Keys b(3); CHECK(fatal([&] { nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); }), "file with %s %d loaded", at ? "descriptor size" : "count", v); } remove(f.c_str()); Keys b(1); CHECK(fatal([&] { nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); }), "missing file loaded"); g.nontrivial(n > 1);
}
FACET(options, 0.2, "detector parameters taken from command-line options: given values arrive in their parameter, others keep the defaults; nontrivial: several options given")
{
        NXOptions *o = nx_options_alloc(); nx_sift_parameters_add_to_options(o); Par w = nx_sift_default_parameters(); w.double_image = NX_FALSE; std::vector<std::string> av = {"prog"}; auto add = [&](const char *n, const std::string &v) { av.push_back(n); av.push_back(v); }; int c = 0;
        if (g.b()) { av.push_back("--sift-double-image"); w.double_image = NX_TRUE; ++c; } if (g.b()) { w.n_scales_per_octave = (int)g.u(1, 9); add("--sift-n-scales-per-octave", strf("%d", w.n_scales_per_octave)); ++c; } auto real = [&](const char *n, float &f, double lo, double hi) { if (g.b()) { f = (float)g.real(lo, hi); add(n, strf("%.9g", f)); ++c; } }; real("--sift-sigma0", w.sigma0, 0.5, 3); real("--sift-kernel-truncation-factor", w.kernel_truncation_factor, 1, 6); real("--sift-peak-threshold", w.peak_threshold, 0, 0.3); real("--sift-edge-threshold", w.edge_threshold, 1, 40); if (g.b()) { w.border_distance = (int)g.u(1, 20); add("--sift-border-distance", strf("%d", w.border_distance)); ++c; } if (g.b()) { w.magnification_factor = (int)g.u(1, 9); add("--sift-magnification-factor", strf("%d", w.magnification_factor)); ++c; }
        std::vector<char *> p; for (auto &s : av) p.push_back(&s[0]); p.push_back(nullptr); nx_options_set_from_args(o, (int)av.size(), p.data()); Par r = nx_sift_parameters_from_options(o); nx_options_free(o); g.note("%d options", c); CHECK(r.double_image == w.double_image && r.n_scales_per_octave == w.n_scales_per_octave && near_(r.sigma0, w.sigma0, 1e-6, 0) && near_(r.kernel_truncation_factor, w.kernel_truncation_factor, 1e-6, 0) && r.border_distance == w.border_distance && near_(r.peak_threshold, w.peak_threshold, 1e-6, 1e-12) && near_(r.edge_threshold, w.edge_threshold, 1e-6, 0) && r.magnification_factor == w.magnification_factor, "a parameter differs: double %d scales %d sigma0 %g trunc %g border %d peak %g edge %g mag %d", r.double_image, r.n_scales_per_octave, r.sigma0, r.kernel_truncation_factor, r.border_distance, r.peak_threshold, r.edge_threshold, r.magnification_factor); g.nontrivial(c > 2);
}
