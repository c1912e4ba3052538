// C41: the panorama builder reassembles overlapping views, and refuses views that do not connect.
#include "../img.hpp"
#include <unistd.h>
#include <array>
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_alloc.h"
extern "C" {
#include "nx_panorama_builder.h"
}
using namespace im; using namespace pbt;

static Mod texture(Gen &g, int w, int h) { Mod m; m.w = w; m.h = h; m.nc = 1; m.f32 = false; m.v.assign((size_t)w * h, 0.0); uint64_t s = g.bits64() | 1; auto rnd = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (double)(s >> 11) / 9007199254740992.0; }; for (int k = 0; k < 2; ++k) { int c = k ? 9 : (int)g.u(4, 6), gw = w / c + 3, gh = h / c + 3; std::vector<double> n(gw * gh); for (auto &x : n) x = rnd(); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double u = (double)x / c, v = (double)y / c; int i = (int)u, j = (int)v; u -= i; v -= j; u = u * u * (3 - 2 * u); v = v * v * (3 - 2 * v); auto at = [&](int a, int b) { return n[b * gw + a]; }; m.at(x, y) += (k ? 0.35 : 0.65) * 235 * ((at(i, j) * (1 - u) + at(i + 1, j) * u) * (1 - v) + (at(i, j + 1) * (1 - u) + at(i + 1, j + 1) * u) * v); } } for (auto &x : m.v) x = 20 + std::floor(x); return m; }
struct View { int x, y, w, h; std::string f; };
static void save(const Mod &m, View &v, int k, const char *ext) { Mod r; r.w = v.w; r.h = v.h; r.nc = 1; r.f32 = false; r.v.resize((size_t)v.w * v.h); for (int y = 0; y < v.h; ++y) for (int x = 0; x < v.w; ++x) r.at(x, y) = m.at(v.x + x, v.y + y); v.f = scratch_file("view" + std::to_string(k) + ext); Holder p(make(r)); nx_image_xsave(p, v.f.c_str()); }
// runs the builder; false if it refuses. The picture is copied to *out.
static bool build(const std::vector<std::string> &files, std::vector<std::string> extra, Mod *out)
{
        bool ok = false; auto work = [&] { std::vector<std::string> a{"nx-stitch"}; a.insert(a.end(), files.begin(), files.end()); a.insert(a.end(), extra.begin(), extra.end()); std::vector<char *> v; for (auto &s : a) v.push_back((char *)s.c_str()); NXOptions *o = nx_options_alloc(); nx_panorama_builder_add_options(o); nx_options_add_help(o); nx_options_set_from_args(o, (int)v.size(), v.data()); NXPanoramaBuilder *b = nx_panorama_builder_new_from_options(o); nx_panorama_builder_run(b); const NXImage *p = nx_panorama_builder_get_panorama(b); CHECK(p && p->type == NX_IMAGE_GRAYSCALE && p->dtype == NX_IMAGE_UCHAR && p->width > 0 && p->height > 0, "no panorama"); out->w = p->width; out->h = p->height; out->nc = 1; out->f32 = false; out->v.resize((size_t)p->width * p->height); for (int y = 0; y < p->height; ++y) for (int x = 0; x < p->width; ++x) out->at(x, y) = get(p, x, y); nx_panorama_builder_free(b); nx_options_free(o); ok = true; };
        if (fatal(work)) return false; return ok;
}
FACET(reassemble, 1.0, "2-4 views of 140-190 pixels a side cut from a texture, in any order, each overlapping a previous one by two thirds or more: the panorama covers the bounding box of the views and shows the texture wherever a view does, black elsewhere; nontrivial: the views differ")
{
        int n = (int)g.u(2, 4); std::vector<View> v; int w0 = (int)g.u(140, 190), h0 = (int)g.u(140, 190); v.push_back({200, 200, w0, h0, ""}); while ((int)v.size() < n) { const View &p = v[(size_t)g.u(0, (int)v.size() - 1)]; int w = (int)g.u(140, 190), h = (int)g.u(140, 190); v.push_back({p.x + (int)g.i(-28, 28), p.y + (int)g.i(-28, 28), w, h, ""}); } int x0 = 1 << 20, y0 = x0, x1 = 0, y1 = 0; for (auto &a : v) { x0 = std::min(x0, a.x); y0 = std::min(y0, a.y); x1 = std::max(x1, a.x + a.w); y1 = std::max(y1, a.y + a.h); } for (auto &a : v) { a.x -= x0; a.y -= y0; } x1 -= x0; y1 -= y0; Mod m = texture(g, x1, y1); const char *ext = g.b() ? ".png" : ".pgm"; std::vector<std::string> fs; for (int i = 0; i < n; ++i) { save(m, v[i], i, ext); fs.push_back(v[i].f); } for (int i = n - 1; i > 0; --i) std::swap(fs[i], fs[(size_t)g.u(0, i)]);
        std::string log; for (auto &a : v) log += strf(" %dx%d+%d+%d", a.w, a.h, a.x, a.y); g.note("%dx%d:%s", x1, y1, log.c_str()); Mod out; bool ok = build(fs, {"--sift-peak-threshold", "0.01"}, &out); for (auto &f : fs) unlink(f.c_str()); CHECK(ok, "overlapping views refused");
        CHECK(std::abs(out.w - x1) <= 4 && std::abs(out.h - y1) <= 4, "panorama of %dx%d, expected %dx%d", out.w, out.h, x1, y1); long bad = 0, seen = 0; auto in = [&](int x, int y) { for (auto &a : v) if (x >= a.x && y >= a.y && x < a.x + a.w && y < a.y + a.h) return true; return false; };
        for (int y = 3; y < std::min(out.h, y1) - 3; ++y) for (int x = 3; x < std::min(out.w, x1) - 3; ++x) { bool all = true, any = false; double lo = 1e9, hi = -1; for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx) { bool i = in(x + dx, y + dy); all &= i; any |= i; if (i) { lo = std::min(lo, m.at(x + dx, y + dy)); hi = std::max(hi, m.at(x + dx, y + dy)); } } if (all) { ++seen; bad += out.at(x, y) < lo - 6 || out.at(x, y) > hi + 6; } else if (!any) { ++seen; bad += out.at(x, y) != 0; } }
        CHECK(bad <= 0.02 * seen + 3, "%ld of %ld pixels do not show the views", bad, seen); bool differ = false; for (auto &a : v) differ |= a.x != v[0].x || a.y != v[0].y; g.nontrivial(differ);
}
// a smooth scene that can be seen at any position, and pictures of it taken through a homography (view pixel -> scene position, row-major)
struct Scene { int c[2]; uint64_t s; double node(int k, long a, long b) const { uint64_t z = s + 0x9e3779b97f4a7c15ULL * (uint64_t)(k * 7919 + a * 1000003 + b * 700001 + 12345); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31; return (double)(z >> 11) / 9007199254740992.0; }
        double at(double x, double y) const { double r = 20; for (int k = 0; k < 2; ++k) { double u = x / c[k], v = y / c[k]; long i = (long)std::floor(u), j = (long)std::floor(v); u -= (double)i; v -= (double)j; u = u * u * (3 - 2 * u); v = v * v * (3 - 2 * v); r += (k ? 0.35 : 0.65) * 235 * ((node(k, i, j) * (1 - u) + node(k, i + 1, j) * u) * (1 - v) + (node(k, i, j + 1) * (1 - u) + node(k, i + 1, j + 1) * u) * v); } return r; } };
struct Cam { double h[9]; int w, ht; };
static void go(const double *h, double x, double y, double *o) { double z = h[6] * x + h[7] * y + h[8]; o[0] = (h[0] * x + h[1] * y + h[2]) / z; o[1] = (h[3] * x + h[4] * y + h[5]) / z; }
static void inv3(const double *a, double *o) { double c[9] = {a[4] * a[8] - a[5] * a[7], a[2] * a[7] - a[1] * a[8], a[1] * a[5] - a[2] * a[4], a[5] * a[6] - a[3] * a[8], a[0] * a[8] - a[2] * a[6], a[2] * a[3] - a[0] * a[5], a[3] * a[7] - a[4] * a[6], a[1] * a[6] - a[0] * a[7], a[0] * a[4] - a[1] * a[3]}; double d = a[0] * c[0] + a[1] * c[3] + a[2] * c[6]; for (int i = 0; i < 9; ++i) o[i] = c[i] / d; }
static void mul3(const double *a, const double *b, double *o) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { o[3 * i + j] = 0; for (int k = 0; k < 3; ++k) o[3 * i + j] += a[3 * i + k] * b[3 * k + j]; } }
FACET(turned, 1.2, "2-4 views of 140-190 pixels a side of a smooth scene, each turned, scaled and slightly tilted against a previous one, in chains or bundles and in any order: in the frame of one of the views the panorama covers all of them and shows the scene wherever a view does, black elsewhere; nontrivial: always")
{
        bool chain = g.b(); int n = chain ? (int)g.u(3, 4) : (int)g.u(2, 4); Scene S; S.c[0] = (int)g.u(4, 6); S.c[1] = 9; S.s = g.bits64(); std::vector<Cam> v; double turn = chain ? g.pick<double>({0.02, 0.1}) : g.pick<double>({0.0, 0.1, 0.35, 0.6}), sc = chain ? 0.03 : g.pick<double>({0.0, 0.08, 0.15}), tilt = chain || g.b() ? 0.0 : 2e-4; std::string log;
        for (int i = 0; i < n; ++i) { Cam c; c.w = (int)g.u(chain ? 170 : 150, chain ? 180 : 190); c.ht = (int)g.u(chain ? 170 : 150, 190); if (!i) { double q[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; memcpy(c.h, q, sizeof q); } else { const Cam &p = v[chain ? (size_t)i - 1 : (size_t)g.u(0, i - 1)]; double a = g.real(-turn, turn), s = std::exp(g.real(-sc, sc)), cx = p.w * 0.5, cy = p.ht * 0.5, dx = chain ? g.real(90, 96) : g.real(-35, 35), dy = g.real(chain ? -15 : -35, chain ? 15 : 35), C = s * std::cos(a), Q = s * std::sin(a), mx = c.w * 0.5, my = c.ht * 0.5; double k[9] = {C, -Q, cx + dx - C * mx + Q * my, Q, C, cy + dy - Q * mx - C * my, 0, 0, 1}, t[9] = {1, 0, 0, 0, 1, 0, g.real(-tilt, tilt), g.real(-tilt, tilt), 1}, u[9]; mul3(k, t, u); mul3(p.h, u, c.h); } v.push_back(c); log += strf(" %dx%d[%.3g %.3g %.4g;%.3g %.3g %.4g;%.2g %.2g]", c.w, c.ht, c.h[0], c.h[1], c.h[2], c.h[3], c.h[4], c.h[5], c.h[6], c.h[7]); }
        std::vector<std::string> fs; for (int i = 0; i < n; ++i) { Mod r; r.w = v[i].w; r.h = v[i].ht; r.nc = 1; r.f32 = false; r.v.resize((size_t)r.w * r.h); for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) { double o[2]; go(v[i].h, x, y, o); r.at(x, y) = std::floor(S.at(o[0], o[1])); } std::string f = scratch_file("turned" + std::to_string(i) + ".png"); Holder p(make(r)); nx_image_xsave(p, f.c_str()); fs.push_back(f); } for (int i = n - 1; i > 0; --i) std::swap(fs[i], fs[(size_t)g.u(0, i)]); g.nontrivial(); g.note("%s", log.c_str());
        Mod out; bool ok = build(fs, {"--sift-peak-threshold", "0.01"}, &out); for (auto &f : fs) unlink(f.c_str()); CHECK(ok, "overlapping views refused"); std::string why; bool fits = false;
        for (int r = 0; r < n && !fits; ++r) { double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9; std::vector<std::array<double, 9>> to(n); for (int i = 0; i < n; ++i) { double ri[9], m[9], o[2]; inv3(v[r].h, ri); mul3(ri, v[i].h, m); inv3(m, to[i].data()); for (int k = 0; k < 4; ++k) { go(m, k & 1 ? v[i].w : 0, k & 2 ? v[i].ht : 0, o); x0 = std::min(x0, o[0]); x1 = std::max(x1, o[0]); y0 = std::min(y0, o[1]); y1 = std::max(y1, o[1]); } } x0 = std::trunc(x0); y0 = std::trunc(y0); int ew = (int)x1 - (int)x0, eh = (int)y1 - (int)y0;
                const int R = chain ? 12 : 5; if (std::abs(ew - out.w) > R || std::abs(eh - out.h) > R) { why += strf(" [frame %d: %dx%d, expected %dx%d]", r, out.w, out.h, ew, eh); continue; }
                long bad = 0, seen = 0; auto in = [&](double x, double y) { for (int i = 0; i < n; ++i) { double o[2]; go(to[i].data(), x, y, o); if (o[0] >= 0 && o[1] >= 0 && o[0] < v[i].w && o[1] < v[i].ht) return true; } return false; };
                for (int y = 3; y < std::min(out.h, eh) - 3; y += 4) for (int x = 3; x < std::min(out.w, ew) - 3; x += 4) { double X = x + x0, Y = y + y0, lo = 1e9, hi = -1; bool all = true, any = false; for (int k = 0; k < 9; ++k) { bool i = in(X + 3.5 * (k % 3 - 1), Y + 3.5 * (k / 3 - 1)); all &= i; any |= i; } if (all) { for (int k = 0; k < 49; ++k) { double o[2]; go(v[r].h, X + (k % 7 - 3), Y + (k / 7 - 3), o); double t = S.at(o[0], o[1]); lo = std::min(lo, t); hi = std::max(hi, t); } ++seen; bad += out.at(x, y) < lo - 6 || out.at(x, y) > hi + 6; } else if (!any) { ++seen; bad += out.at(x, y) != 0; } }
                // along a chain the estimated positions drift: blocks may be displaced, but not change
                if (chain) { bad = seen = 0; const int K = 20, W = 12; auto sees = [&](double x, double y, double d) { bool all = true, any = false; for (int k = 0; k < 9; ++k) { bool i = in(x + d * (k % 3 - 1), y + d * (k / 3 - 1)); all &= i; any |= i; } return all ? 1 : any ? 0 : -1; }; std::vector<double> ex((size_t)ew * eh); for (int y = 0; y < eh; ++y) for (int x = 0; x < ew; ++x) { double o[2]; go(v[r].h, x + x0, y + y0, o); ex[(size_t)y * ew + x] = S.at(o[0], o[1]); }
                        for (int y = W; y + K + W < std::min(out.h, eh); y += K) for (int x = W; x + K + W < std::min(out.w, ew); x += K) { int st = sees(x + x0 + K / 2, y + y0 + K / 2, K / 2 + W); if (st == 0) continue; ++seen; if (st < 0) { bool blank = true; for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) blank &= out.at(x + i, y + j) == 0; bad += !blank; continue; } double best = 1e9; for (int dy = -W; dy <= W; ++dy) for (int dx = -W; dx <= W; ++dx) { double e = 0; for (int j = 0; j < K; j += 2) for (int i = 0; i < K; i += 2) e += std::fabs(out.at(x + i, y + j) - ex[(size_t)(y + j + dy) * ew + x + i + dx]); best = std::min(best, e * 4 / (K * K)); } bad += best > 14; } if (bad <= 0.15 * seen + 1) fits = true; else why += strf(" [frame %d: %ld of %ld blocks wrong]", r, bad, seen); continue; }
                if (bad <= 0.02 * seen + 3) fits = true; else why += strf(" [frame %d: %ld of %ld pixels wrong]", r, bad, seen); }
        CHECK(fits, "the panorama shows the views in no view's frame:%s", why.c_str());
}
FACET(same, 0.5, "2-3 copies of one view: the panorama is that view up to its outermost row and column, with no black pixel; nontrivial: always")
{
        int n = (int)g.u(2, 3); Mod m = texture(g, (int)g.u(90, 170), (int)g.u(90, 170)); std::vector<std::string> fs; for (int i = 0; i < n; ++i) { View v{0, 0, m.w, m.h, ""}; save(m, v, i, ".png"); fs.push_back(v.f); } g.nontrivial(); g.note("%d copies of %dx%d", n, m.w, m.h); Mod out; bool ok = build(fs, {"--sift-peak-threshold", "0.01"}, &out); for (auto &f : fs) unlink(f.c_str()); CHECK(ok, "copies of one view refused"); CHECK(out.w >= m.w - 1 && out.w <= m.w + 1 && out.h >= m.h - 1 && out.h <= m.h + 1, "panorama of %dx%d, view of %dx%d", out.w, out.h, m.w, m.h); int bw = std::min(out.w, m.w), bh = std::min(out.h, m.h);
        for (int y = 0; y < bh; ++y) for (int x = 0; x < bw; ++x) { bool hit = false; for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int X = x + dx, Y = y + dy; if (X >= 0 && Y >= 0 && X < m.w && Y < m.h) hit |= m.at(X, Y) == out.at(x, y); } CHECK(hit, "pixel (%d,%d) is %g, view has %g there", x, y, out.at(x, y), m.at(x, y)); }
}
FACET(refuse, 0.5, "views of which one or more show something else or nothing, a single view, missing or damaged files: the builder refuses with a fatal error; nontrivial: always")
{
        g.nontrivial(); int k = (int)g.u(0, 4); g.note("case %d", k); Mod a = texture(g, 150, 130), b = texture(g, 140, 120); std::vector<View> v{{0, 0, 110, 110, ""}, {25, 15, 110, 110, ""}, {0, 0, 120, 110, ""}}; save(a, v[0], 0, ".png"); save(a, v[1], 1, ".png"); if (g.b(0.3)) for (auto &x : b.v) x = 77; save(b, v[2], 2, ".png"); std::vector<std::string> fs{v[0].f, v[1].f, v[2].f}; Mod out; const char *what = "";
        if (k == 0) { what = "view that shows something else"; for (int i = 2; i > 0; --i) std::swap(fs[i], fs[(size_t)g.u(0, i)]); } else if (k == 1) { fs = {g.b() ? v[0].f : v[1].f, v[2].f}; if (g.b()) std::swap(fs[0], fs[1]); what = "two views of different scenes"; } else if (k == 2) { fs.resize((size_t)g.u(0, 1)); what = "too few views"; } else if (k == 3) { fs.resize(2); fs[(size_t)g.u(0, 1)] = v[0].f + ".missing"; what = "missing file"; }
        else { what = "view whose parts are in other places"; const int T = 30; Mod A = texture(g, 240, 240), B = A; std::vector<int> p; for (int i = 0; i < 64; ++i) p.push_back(i); for (int i = 63; i > 0; --i) std::swap(p[i], p[(size_t)g.u(0, i)]); for (int y = 0; y < 240; ++y) for (int x = 0; x < 240; ++x) { int t = p[(size_t)(y / T * 8 + x / T)]; B.at(x, y) = A.at(t % 8 * T + x % T, t / 8 * T + y % T); } for (auto &q : v) unlink(q.f.c_str()); v = {{0, 0, 240, 240, ""}, {0, 0, 240, 240, ""}}; save(A, v[0], 0, ".png"); save(B, v[1], 1, ".png"); fs = {v[0].f, v[1].f}; }
        bool ok = build(fs, {"--sift-peak-threshold", "0.01"}, &out); for (auto &x : v) unlink(x.f.c_str()); CHECK(!ok, "%s accepted", what);
}
