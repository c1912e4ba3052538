// C24: FAST-9 detection, scores and non-maximum suppression against the segment-test definition.
#include "../img.hpp"
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
using namespace im;
static const int RX[16] = {0, 1, 2, 3, 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1}, RY[16] = {3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1, 0, 1, 2, 3};
struct Px { int w, h; std::vector<uint8_t> v; uint8_t &at(int x, int y) { return v[(size_t)y * w + x]; } int at(int x, int y) const { return v[(size_t)y * w + x]; } };
struct Corner { int x, y, score; };
// largest threshold for which (x,y) is a corner: max over arcs of the minimum difference, minus one (-1: none)
static int strength(const Px &p, int x, int y)
{
        int c = p.at(x, y), d[16], best = -1; for (int i = 0; i < 16; ++i) d[i] = p.at(x + RX[i], y + RY[i]) - c;
        for (int s = 0; s < 16; ++s) { int lo = 999, hi = 999; for (int k = 0; k < 9; ++k) { lo = std::min(lo, d[(s + k) & 15]); hi = std::min(hi, -d[(s + k) & 15]); } best = std::max(best, std::max(lo, hi) - 1); }
        return best;
}
static std::vector<Corner> corners(const Px &p, int t) { std::vector<Corner> r; for (int y = 3; y < p.h - 3; ++y) for (int x = 3; x < p.w - 3; ++x) { int s = strength(p, x, y); if (s >= t) r.push_back({x, y, s}); } return r; }
static std::vector<Corner> nonmax(const std::vector<Corner> &c) { std::map<std::pair<int, int>, int> m; for (auto &k : c) m[{k.y, k.x}] = k.score; std::vector<Corner> r; for (auto &k : c) { bool keep = true; for (int j = -1; j <= 1 && keep; ++j) for (int i = -1; i <= 1; ++i) if (i || j) { auto f = m.find({k.y + j, k.x + i}); if (f != m.end() && f->second >= k.score) { keep = false; break; } } if (keep) r.push_back(k); } return r; }
// rings near the decision boundary: an arc of about nine pixels of one class, the rest of any class, differences at the threshold
static void ring(Gen &g, Rng &r, Px &p, int cx, int cy, int t)
{
        int up = r() & 1, s = r() & 15, len = 8 + (int)(r() % 3), base = up ? (int)(r() % (256 - std::min(255, t + 1))) : std::min(255, t + 1 + (int)(r() % (256 - std::min(255, t + 1)))); p.at(cx, cy) = (uint8_t)base; (void)g;
        for (int k = 0; k < 16; ++k) { int i = (s + k) & 15, cls = k < len ? (up ? 1 : -1) : (int)(r() % 3) - 1, d; if (k == 4 && (r() % 6) == 0) cls = (int)(r() % 3) - 1; if (cls == 0) d = (int)(r() % (2 * t + 1)) - t; else d = cls * (t + 1 + ((r() & 1) ? 0 : (int)(r() % 40))); if ((r() % 16) == 0 && cls) d = cls * t; p.at(cx + RX[i], cy + RY[i]) = (uint8_t)std::max(0, std::min(255, base + d)); }
}
static Px gen_px(Gen &g, int maxw, int maxh, int t, int minw = 1)
{
        Px p; p.w = gen_dim(g, minw, maxw); p.h = gen_dim(g, minw, maxh); p.v.assign((size_t)p.w * p.h, 0); Rng r{g.bits64()}; int kind = (int)g.u(0, 5), lev = (int)g.u(2, 5), lo = (int)g.u(0, 255), hi = (int)g.u(0, 255);
        for (auto &x : p.v) x = kind == 0 ? (uint8_t)r() : kind == 1 ? (uint8_t)((int)(r() % lev) * 255 / (lev - 1)) : kind == 2 ? (uint8_t)((r() % 8) ? lo : hi) : kind == 3 ? (uint8_t)std::min(255, lo / 2 + (int)(r() % (t + 3))) : (uint8_t)lo;
        if (kind == 4) { int n = (int)g.u(1, 8); for (int i = 0; i < n; ++i) { int x0 = (int)(r() % p.w), y0 = (int)(r() % p.h), w = 1 + (int)(r() % 12), h = 1 + (int)(r() % 12), v = (int)(r() & 255); for (int y = y0; y < std::min(p.h, y0 + h); ++y) for (int x = x0; x < std::min(p.w, x0 + w); ++x) p.at(x, y) = (uint8_t)v; } }
        if (kind == 5) for (int y = 3; y + 3 < p.h; y += 7) for (int x = 3; x + 3 < p.w; x += 7) ring(g, r, p, x, y, t);
        return p;
}
static NXImage *to_image(Gen &g, const Px &p) { Mod m; m.w = p.w; m.h = p.h; m.nc = 1; m.f32 = false; m.v.assign(p.v.begin(), p.v.end()); return make(m, gen_stride(g, m), g.bits64()); }
static int gen_t(Gen &g) { return g.b(0.4) ? (int)g.pick<double>({0, 1, 5, 10, 15, 20, 100, 250, 254}) : g.b(0.7) ? (int)g.u(1, 40) : (int)g.u(0, 254); }
static void plain(const NXKeypoint &k, uint64_t id, const char *w) { CHECK(k.xs == (float)k.x && k.ys == (float)k.y, "%s: position (%d,%d) but subpixel (%g,%g)", w, k.x, k.y, k.xs, k.ys); CHECK(k.id == id, "%s: id %llu at position %llu", w, (unsigned long long)k.id, (unsigned long long)id); }

FACET(rings, 1.5, "images tiled with generated 16-pixel rings near the decision boundary (arcs of 8-10 of one class at any start, other pixels any class, differences at and around the threshold): detection and score equal the segment-test definition; nontrivial: corners and non-corners among the centres")
{
        int t = gen_t(g); Px p; p.w = 7 * (int)g.u(1, 8); p.h = 7 * (int)g.u(1, 8); p.v.assign((size_t)p.w * p.h, 0); Rng r{g.bits64()}; for (auto &x : p.v) x = (uint8_t)r(); for (int y = 3; y < p.h; y += 7) for (int x = 3; x < p.w; x += 7) ring(g, r, p, x, y, t);
        Holder im(to_image(g, p)); auto want = corners(p, t); std::vector<NXKeypoint> k(want.size() + 2); int n = nx_fast_detect_keypoints((int)k.size(), k.data(), im.p, t); g.note("%dx%d threshold %d: %zu corners", p.w, p.h, t, want.size()); CHECK(n == (int)want.size(), "%d corners detected, %zu satisfy the segment test (threshold %d)", n, want.size(), t);
        nx_fast_score_keypoints(n, k.data(), im.p, t); int cen = 0; for (int i = 0; i < n; ++i) { CHECK(k[i].x == want[i].x && k[i].y == want[i].y, "corner %d is (%d,%d), expected (%d,%d)", i, k[i].x, k[i].y, want[i].x, want[i].y); plain(k[i], i, "detect"); CHECK(k[i].score == want[i].score, "corner (%d,%d) scored %g, largest threshold is %d", k[i].x, k[i].y, k[i].score, want[i].score); cen += k[i].x % 7 == 3 && k[i].y % 7 == 3; }
        g.nontrivial(cen > 0 && cen < (p.w / 7) * (p.h / 7));
}
FACET(detect, 1.0, "random, few-level, block and noise images from 1x1, any stride, room for fewer or more corners: every corner in raster order up to the room, level 0 data; image unchanged; nontrivial: corners found")
{
        int t = gen_t(g); bool big = g.b(0.01); Px p = gen_px(g, big ? 400 : 40, big ? 200 : 40, t); Holder im(to_image(g, p)); auto want = corners(p, t); int room = (int)(g.b(0.3) ? g.u(0, 20) : want.size() + g.u(0, 3)); std::vector<NXKeypoint> k(std::max(room, 1)); memset((void *)k.data(), 0x5a, k.size() * sizeof k[0]); Mod b = model(im.p); int n = nx_fast_detect_keypoints(room, k.data(), im.p, t); g.note("%dx%d threshold %d room %d: %zu corners", p.w, p.h, t, room, want.size()); CHECK(n == std::min(room, (int)want.size()), "%d corners returned, %zu exist, room for %d", n, want.size(), room); check_same(im.p, b, "image after detection");
        for (int i = 0; i < n; ++i) { CHECK(k[i].x == want[i].x && k[i].y == want[i].y, "corner %d is (%d,%d), expected (%d,%d)", i, k[i].x, k[i].y, want[i].x, want[i].y); plain(k[i], i, "detect"); CHECK(k[i].level == 0 && k[i].scale == 1.0f && k[i].sigma == 0.0f, "level %d scale %g sigma %g", k[i].level, k[i].scale, k[i].sigma); } nx_fast_score_keypoints(n, k.data(), im.p, t); for (int i = 0; i < n; ++i) CHECK(k[i].score == want[i].score, "corner (%d,%d) scored %g, largest threshold is %d", k[i].x, k[i].y, k[i].score, want[i].score);
        g.nontrivial(n > 0);
}
FACET(suppress, 1.0, "non-maximum suppression of generated corner sets in raster order (dense rows, gaps, equal and extreme scores, first row and column) with any room: exactly those without an 8-neighbour scoring as high, in order, ids renumbered, other fields kept; nontrivial: some suppressed and some kept")
{
        int w = (int)g.u(1, 25), h = (int)g.u(1, 25), lev = (int)g.u(1, 6), dens = (int)g.u(5, 100); Rng r{g.bits64()}; std::vector<Corner> c; std::vector<NXKeypoint> k; int y0 = g.b(0.3) ? 0 : 3; for (int y = 0; y < h; ++y) { if (r() % 5 == 0) continue; for (int x = 0; x < w; ++x) if ((int)(r() % 100) < dens) { Corner q{x, y + y0, (int)(r() % lev) + (lev > 4 ? (int)(r() % 250) : 0)}; c.push_back(q); NXKeypoint n; memset(&n, 0, sizeof n); n.x = q.x; n.y = q.y; n.xs = (float)q.x; n.ys = (float)q.y; n.score = (float)q.score; n.scale = 1; n.sigma = (float)(r() % 7); n.ori = 0.5f; n.level = 3; n.id = r(); k.push_back(n); } }
        auto want = nonmax(c); int room = g.b(0.7) ? (int)want.size() + (int)g.u(0, 2) : (int)g.u(0, 10); std::vector<NXKeypoint> o(std::max(1, room)); auto k0 = k; int n = nx_fast_suppress_keypoints(room, o.data(), (int)k.size(), k.data()); g.note("%zu corners, %zu maxima, room %d", c.size(), want.size(), room); CHECK(n == std::min(room, (int)want.size()), "%d kept, %zu are maxima, room %d", n, want.size(), room); CHECK(k.empty() || memcmp(k.data(), k0.data(), sizeof(k[0]) * k.size()) == 0, "input changed");
        for (int i = 0; i < n; ++i) { CHECK(o[i].x == want[i].x && o[i].y == want[i].y && o[i].score == want[i].score, "maximum %d is (%d,%d) score %g, expected (%d,%d) score %d", i, o[i].x, o[i].y, o[i].score, want[i].x, want[i].y, want[i].score); plain(o[i], i, "suppress"); CHECK(o[i].level == 3 && o[i].ori == 0.5f, "other fields changed"); } g.nontrivial(n > 0 && n < (int)c.size());
}
// expected keypoints of one level through the detector, or nothing if its work buffer may be exceeded
static void check_level(const Px &p, int t, const NXKeypoint *k, int n, int room, size_t work, const char *w, int rad)
{
        auto raw = corners(p, t); CHECK(n <= room, "%s: %d keypoints, room for %d", w, n, room); std::map<std::pair<int, int>, int> m; for (auto &c : raw) m[{c.x, c.y}] = c.score; for (int i = 0; i < n; ++i) { auto f = m.find({k[i].x, k[i].y}); CHECK(f != m.end(), "%s: (%d,%d) is not a corner", w, k[i].x, k[i].y); CHECK(k[i].score == f->second, "%s: (%d,%d) scored %g, largest threshold %d", w, k[i].x, k[i].y, k[i].score, f->second); CHECK(k[i].xs == (float)k[i].x && k[i].ys == (float)k[i].y, "%s: subpixel position", w);
                if (rad > 0) { double a = 0, b = 0; bool in = k[i].x >= rad && k[i].x < p.w - rad && k[i].y >= rad && k[i].y < p.h - rad; if (in) { for (int y = -rad; y <= rad; ++y) for (int x = -rad; x <= rad; ++x) if (x * x + y * y < rad * rad) { a += (double)x * p.at(k[i].x + x, k[i].y + y); b += (double)y * p.at(k[i].x + x, k[i].y + y); } float e = (float)std::atan2(b, a); CHECK(near_(k[i].ori, e, 1e-5, 1e-6), "%s: orientation of (%d,%d) is %g, intensity centroid gives %g", w, k[i].x, k[i].y, k[i].ori, e); } else if (k[i].x < rad - 1 || k[i].y < rad - 1 || k[i].x > p.w - rad || k[i].y > p.h - rad) CHECK(k[i].ori == 0.0f, "%s: orientation of (%d,%d) is %g although the patch of radius %d leaves the %dx%d image", w, k[i].x, k[i].y, k[i].ori, rad, p.w, p.h); } else CHECK(k[i].ori == 0.0f, "%s: orientation %g not asked for", w, k[i].ori); }
        if (raw.size() < work) { auto want = nonmax(raw); CHECK(n == std::min(room, (int)want.size()), "%s: %d keypoints, %zu local maxima, room for %d", w, n, want.size(), room); for (int i = 0; i < n; ++i) CHECK(k[i].x == want[i].x && k[i].y == want[i].y, "%s: keypoint %d is (%d,%d), expected (%d,%d)", w, i, k[i].x, k[i].y, want[i].x, want[i].y); }
}
static Px pixels(const NXImage *p) { Px q; q.w = p->width; q.h = p->height; for (int y = 0; y < q.h; ++y) for (int x = 0; x < q.w; ++x) q.v.push_back(p->data.uc[(size_t)y * p->row_stride + x]); return q; }
FACET(detector, 1.2, "a detector used on 1-4 images and pyramids in turn (any thresholds, limits from 0, orientation on and off with several radii): exactly the local maxima of each level from the coarsest, with level, scale, sigma, running ids, centroid orientation, never more than asked for, independent of earlier use; nontrivial: keypoints on several levels")
{
        NXFastDetector *d = nx_fast_detector_alloc(); struct F { NXFastDetector *d; ~F() { nx_fast_detector_free(d); } } fd{d}; int steps = (int)g.u(1, 4), rad = 0; bool multi = false;
        for (int s = 0; s < steps; ++s) {
                int t = g.b(0.7) ? (int)g.u(3, 30) : gen_t(g); d->threshold = t; if (g.b(0.5)) { bool on = g.b(0.7); rad = (int)g.u(1, 9); nx_fast_detector_set_ori_param(d, on ? NX_TRUE : NX_FALSE, rad); if (!on) rad = 0; } bool big = g.b(0.02); Px p = gen_px(g, big ? 300 : 60, big ? 200 : 60, t, 8); Holder im(to_image(g, p)); int room = big ? (int)g.u(1, 3000) : g.b(0.2) ? (int)g.u(0, 5) : g.b(0.5) ? 400 : (int)g.u(1, 60); std::vector<NXKeypoint> k(std::max(1, room)); memset((void *)k.data(), 0x5a, k.size() * sizeof k[0]);
                if (g.b(0.4)) { int n = nx_fast_detector_detect(d, room, k.data(), im.p); g.note("image %dx%d t%d room %d: %d", p.w, p.h, t, room, n); check_level(p, t, k.data(), n, room, (size_t)room * 10, "detector", rad); for (int i = 0; i < n; ++i) CHECK(k[i].id == (uint64_t)i && k[i].level == 0 && k[i].scale == 1.0f, "id %llu level %d scale %g", (unsigned long long)k[i].id, k[i].level, k[i].scale); continue; }
                NXImagePyrBuilder *b = g.b() ? nx_image_pyr_builder_new_fast(big ? (int)g.u(1, 6) : (int)g.u(1, 3), (float)g.pick<double>({0, 0.8})) : (g.b(0.9) ? nx_image_pyr_builder_new_scaled((int)g.u(1, 3), 1.5f, 0.7f) : nx_image_pyr_builder_new_scaled((int)g.u(4, 12), 1.5f, 0.9f)); NXImagePyr *py = nx_image_pyr_builder_build0(b, im.p); struct P { NXImagePyrBuilder *b; NXImagePyr *p; ~P() { nx_image_pyr_free(p); nx_image_pyr_builder_free(b); } } fp{b, py}; int lev = (int)g.i(-1, py->n_levels + 1), top = lev <= 0 || lev > py->n_levels ? py->n_levels : lev, n; bool plainf = g.b(0.4); std::vector<NXKeypoint> wk(big ? 60000 : 3000); g.note("pyr %dx%d levels %d of %d t%d room %d%s", p.w, p.h, lev, py->n_levels, t, room, plainf ? " functions" : "");
                n = plainf ? nx_fast_detect_keypoints_pyr(room, k.data(), (int)wk.size(), wk.data(), py, t, lev) : nx_fast_detector_detect_pyr(d, room, k.data(), py, lev); CHECK(n >= 0 && n <= room, "%d keypoints, room for %d", n, room); int at = 0, used = 0;
                for (int l = top - 1; l >= 0 && room - at > 0; --l) { int e = at; while (e < n && k[e].level == l) ++e; used += e > at; char w[40]; snprintf(w, sizeof w, "level %d", l); check_level(pixels(py->levels[l].img), t, k.data() + at, e - at, room - at, plainf ? wk.size() : (size_t)room * 10, w, plainf ? 0 : rad); for (int i = at; i < e; ++i) CHECK(k[i].scale == py->levels[l].scale && k[i].sigma == py->levels[l].sigma && k[i].id == (uint64_t)i, "level %d keypoint has scale %g sigma %g id %llu", l, k[i].scale, k[i].sigma, (unsigned long long)k[i].id); at = e; }
                CHECK(at == n, "%d of %d keypoints belong to the levels in order", at, n); multi |= used > 1;
        }
        g.nontrivial(multi);
}
FACET(adapt, 0.1, "threshold adaptation over random sequences of counts: stays within 5..250 once there, rises when the limit is nearly reached, falls when far below, by at most 3; nontrivial: both directions")
{
        NXFastDetector *d = nx_fast_detector_alloc(); struct F { NXFastDetector *d; ~F() { nx_fast_detector_free(d); } } fd{d}; bool up = false, dn = false; int n = (int)g.u(1, 120), mode = (int)g.u(0, 2); d->threshold = (int)g.u(5, 250);
        for (int i = 0; i < n; ++i) { int mx = (int)g.u(10, 3000), k = mode == 0 ? mx : mode == 1 ? 0 : (int)g.u(0, mx), o = d->threshold; nx_fast_detector_adapt_threshold(d, k, mx); int df = d->threshold - o; CHECK(d->threshold >= 5 && d->threshold <= 250 && std::abs(df) <= 3, "threshold %d -> %d", o, d->threshold); if (k >= mx) CHECK(df == 3 || d->threshold == 250, "limit reached but threshold %d -> %d", o, d->threshold); if (k <= mx / 2) CHECK(df == -3 || d->threshold == 5, "far too few but threshold %d -> %d", o, d->threshold); if (k > mx * 0.905 + 1 && k < mx * 0.985 - 1) CHECK(df == 0, "%d of %d but threshold %d -> %d", k, mx, o, d->threshold); up |= df > 0; dn |= df < 0; }
        g.note("%d updates, threshold %d", n, d->threshold); g.nontrivial(up && dn);
}
