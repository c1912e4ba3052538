// C37: line averages in four directions and the checkerboard score, against direct evaluation.
#include "../filt.hpp"
#include "virg/nexus/nx_checkerboard_detector.h"
#include "virg/nexus/nx_filter.h"
using namespace im; using namespace pbt;
static const bool short_sides = (allow_long = false);
// interpolation at a rotated position, black outside, with the interval left open by the truncation of 8-bit results and by rounding of the position
static Iv rot(const Iv &s, int W, int H, bool cw)
{
        Iv o; o.lo.w = o.hi.w = W; o.lo.h = o.hi.h = H; o.lo.nc = o.hi.nc = 1; o.lo.v.resize((size_t)W * H); o.hi.v.resize((size_t)W * H); const double q = std::sqrt(0.5), c = cw ? 1 : -1; int sw = s.lo.w, sh = s.lo.h;
        for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double px = q * (x - W * 0.5) + c * q * (y - H * 0.5) + sw * 0.5, py = -c * q * (x - W * 0.5) + q * (y - H * 0.5) + sh * 0.5, lo = 1e9, hi = -1e9;
                for (int k = 0; k < 9; ++k) { double e = 1e-3, X = px + (k % 3 - 1) * e, Y = py + (k / 3 - 1) * e; int xi = (int)std::floor(X), yi = (int)std::floor(Y); double a, b; if (xi < 0 || yi < 0 || xi >= sw - 1 || yi >= sh - 1) { a = b = 0; bool last = xi >= 0 && yi >= 0 && X <= sw - 1 + 1e-3 && Y <= sh - 1 + 1e-3; if (last) { b = std::max({s.hi.rep(xi, yi), s.hi.rep(xi + 1, yi), s.hi.rep(xi, yi + 1), s.hi.rep(xi + 1, yi + 1)}); } } else { double u = X - xi, v = Y - yi; auto f = [&](const Mod &m) { return (1 - v) * ((1 - u) * m.at(xi, yi) + u * m.at(xi + 1, yi)) + v * ((1 - u) * m.at(xi, yi + 1) + u * m.at(xi + 1, yi + 1)); }; a = std::floor(std::max(0.0, f(s.lo) - 1e-3)); b = std::floor(f(s.hi) + 1e-3); } lo = std::min(lo, a); hi = std::max(hi, b); }
                o.lo.at(x, y) = lo; o.hi.at(x, y) = hi; }
        return o;
}
FACET(line_averages, 2.0, "8-bit images of 4-60 pixels a side (now and then up to 260) (constant, ramps, checkerboards, noise), any stride, radius 1-12, result images missing or of any kind: the four results are the averages along rows, columns and both diagonals, with black outside for the diagonals, and the source is unchanged; nontrivial: not constant")
{
        bool wide = g.b(0.06); Mod m = wide ? (g.b() ? gen_mod(g, 60, 260, 4, 60, 1, false) : gen_mod(g, 4, 60, 60, 260, 1, false)) : gen_mod(g, 4, 60, 4, 60, 1, false); int r = (int)(g.b(0.7) ? g.u(1, 4) : g.u(5, 12)); if (g.b(0.3)) { double th = g.real(0, 6.3), cx = g.real(0, m.w), cy = g.real(0, m.h); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { double a = (x - cx) * cos(th) + (y - cy) * sin(th), b = -(x - cx) * sin(th) + (y - cy) * cos(th); m.at(x, y) = a * b > 0 ? 230 : 20; } }
        Holder s(make(m, gen_stride(g, m))); NXImage *lr[4]; struct F { NXImage **l; ~F() { for (int i = 0; i < 4; ++i) nx_image_free(l[i]); } } fr{lr}; for (auto &p : lr) p = g.b() ? nullptr : gen_dest(g); g.note("%s radius %d", brief(m).c_str(), r); nx_checkers_local_radon_images(lr, s, r); check_same(s, m, "source"); for (auto p : lr) CHECK(p, "result image missing");
        Iv in{m, m}; auto k = box_kernel(r); check_iv(lr[0], pass(in, k, true, 0), "row average"); check_iv(lr[1], pass(in, k, false, 0), "column average"); int d = (int)((m.w + m.h + 2) / std::sqrt(2.0));
        check_iv(lr[2], rot(pass(rot(in, d, d, true), k, true, 0), m.w, m.h, false), "rising diagonal average"); check_iv(lr[3], rot(pass(rot(in, d, d, false), k, true, 0), m.w, m.h, true), "falling diagonal average"); bool flat = true; for (double v : m.v) flat = flat && v == m.v[0]; g.nontrivial(!flat);
}
FACET(score, 2.0, "four 8-bit images of equal size with any contents and stride: the score is the smoothed squared range of the four values in [0,1], whatever the order of the images; nontrivial: not all equal")
{
        Mod m[4]; bool wide = g.b(0.05); Mod a = wide ? (g.b() ? gen_mod(g, 60, 300, 8, 60, 1, false) : gen_mod(g, 8, 60, 60, 300, 1, false)) : gen_mod(g, 8, 60, 8, 60, 1, false); NXImage *lr[4]; struct F { NXImage **l; ~F() { for (int i = 0; i < 4; ++i) nx_image_free(l[i]); } } fr{lr}; for (int i = 0; i < 4; ++i) { m[i] = a; if (i) fill_pixels(g, m[i]); if (i && g.b(0.2)) m[i] = m[i - 1]; lr[i] = make(m[i], gen_stride(g, m[i])); } g.note("%s", brief(a).c_str());
        Mod d = a; d.f32 = true; bool any = false; for (size_t i = 0; i < d.v.size(); ++i) { double lo = 255, hi = 0; for (auto &q : m) { lo = std::min(lo, q.v[i]); hi = std::max(hi, q.v[i]); } d.v[i] = (double)(float)((hi - lo) / 255 * ((hi - lo) / 255)); any = any || hi > lo; }
        Holder ref(make(d)); nx_image_smooth(ref, ref, 1.3f, 1.3f, 3.0f, NULL); Holder o(gen_dest(g)); nx_checkers_score_image(o, lr); check_same(o, model(ref), "score", 2e-6); for (int i = 0; i < 4; ++i) check_same(lr[i], m[i], "input"); std::swap(lr[g.u(0, 3)], lr[g.u(0, 3)]); Holder o2(gen_dest(g)); nx_checkers_score_image(o2, lr); check_same(o2, model(o), "score after reordering", 1e-7);
        // direct convolution with the 3-sigma Gaussian, away from the border
        auto k = gauss_kernel(5, 1.3); for (int y = 4; y < a.h - 4; ++y) for (int x = 4; x < a.w - 4; ++x) { double s = 0; for (int j = -4; j <= 4; ++j) for (int i = -4; i <= 4; ++i) s += k[std::abs(i)] * k[std::abs(j)] * d.at(x + i, y + j); CHECK(std::fabs(s - get(o, x, y)) < 0.03, "score (%d,%d) is %g, smoothed range %g", x, y, get(o, x, y), s); } g.nontrivial(any);
}
