// C18: synthetic affine views. Oracle: closed form of the view of sinusoid images (Gaussian smoothing only
// scales a sinusoid), the affine map recomputed from the parameters, and differential reuse of processors.
#include "../img.hpp"
#include "virg/nexus/nx_affine_warp_processor.h"
#include "virg/nexus/nx_uniform_sampler.h"
using namespace im;
static const bool short_sides = (allow_long = false);
struct WP { NXAffineWarpProcessor *p; WP() : p(nx_affine_warp_processor_new()) {} ~WP() { nx_affine_warp_processor_free(p); } operator NXAffineWarpProcessor *() { return p; } };
struct Cfg { NXAffineWarpParam a; int bg; int color; double post; };
static Cfg gen_cfg(Gen &g)
{
        Cfg c; c.a.scale = g.b(0.3) ? 1.0 : std::exp(g.real(-1.1, 0.9)); c.a.tilt = g.b(0.3) ? 1.0 : g.real(1, 4);
        auto ang = [&]() { return g.b(0.3) ? (double)g.i(-4, 4) * M_PI / 4 : g.real(-4, 4); };
        c.a.planar_angle = ang(); c.a.tilt_angle = ang(); c.bg = (int)g.u(0, 2); c.color = (int)g.u(0, 255); c.post = g.b(0.4) ? 0.0 : g.real(0.3, 3);
        return c;
}
static std::string str(const Cfg &c) { return strf("scale %g tilt %g planar %g tilt-angle %g bg %d color %d post %g", c.a.scale, c.a.tilt, c.a.planar_angle, c.a.tilt_angle, c.bg, c.color, c.post); }
static void apply(NXAffineWarpProcessor *p, const Cfg &c, const NXImage *img)
{
        if (c.bg == 0) nx_affine_warp_processor_set_bg_fixed(p, (uchar)c.color); else if (c.bg == 1) nx_affine_warp_processor_set_bg_repeat(p); else nx_affine_warp_processor_set_bg_noise(p);
        nx_affine_warp_processor_set_post_blur_sigma(p, (float)c.post); nx_affine_warp_processor_warp(p, img, c.a);
}
static void xf(const double *t, double x, double y, double &X, double &Y) { X = t[0] * x + t[2] * y + t[4]; Y = t[1] * x + t[3] * y + t[5]; }
// linear part: scale R(planar) diag(1/tilt,1) R(tilt_angle)
static void linear(const NXAffineWarpParam &a, double A[4])
{
        double c1 = std::cos(a.planar_angle), s1 = std::sin(a.planar_angle), c2 = std::cos(a.tilt_angle), s2 = std::sin(a.tilt_angle), r = a.scale, q = 1 / a.tilt;
        A[0] = r * (c1 * q * c2 - s1 * s2); A[1] = r * (-c1 * q * s2 - s1 * c2); A[2] = r * (s1 * q * c2 + c1 * s2); A[3] = r * (-s1 * q * s2 + c1 * c2);   // row major
}
static void check_geometry(NXAffineWarpProcessor *p, const Cfg &c, int w, int h)
{
        const double *f = nx_affine_warp_processor_forward_transform(p), *b = nx_affine_warp_processor_inverse_transform(p); const NXImage *v = nx_affine_warp_processor_warp_result(p);
        double A[4]; linear(c.a, A); double B[4] = {f[0], f[2], f[1], f[3]};
        for (int i = 0; i < 4; ++i) CHECK(near_(A[i], B[i], 1e-9, 1e-9), "%s: linear part of the forward transform has %g, parameters give %g", str(c).c_str(), B[i], A[i]);
        double ew = std::fabs(A[0]) * w + std::fabs(A[1]) * h, eh = std::fabs(A[2]) * w + std::fabs(A[3]) * h;
        auto sz = [](int got, double e) { return got >= (int)(e + 2 - 1e-6) && got <= (int)(e + 2 + 1e-6); };
        CHECK(sz(v->width, ew) && sz(v->height, eh), "%s of %dx%d: view is %dx%d, extent is %gx%g", str(c).c_str(), w, h, v->width, v->height, ew, eh);
        check_shape(v, v->width, v->height, 1, false, "view");
        double X, Y, x, y; xf(f, w / 2.0, h / 2.0, X, Y); CHECK(near_(X, v->width / 2.0, 1e-9, 1e-7) && near_(Y, v->height / 2.0, 1e-9, 1e-7), "centre maps to (%g,%g) of a %dx%d view", X, Y, v->width, v->height);
        for (int i = 0; i < 4; ++i) {
                double px = i & 1 ? w : 0, py = i & 2 ? h : 0; xf(f, px, py, X, Y); xf(b, X, Y, x, y);
                CHECK(near_(x, px, 1e-9, 1e-7) && near_(y, py, 1e-9, 1e-7), "%s: corner (%g,%g) goes to (%g,%g) and back to (%g,%g)", str(c).c_str(), px, py, X, Y, x, y);
                CHECK(X >= -1e-6 && Y >= -1e-6 && X <= v->width + 1e-6 && Y <= v->height + 1e-6, "%s: corner (%g,%g) maps to (%g,%g) outside the %dx%d view", str(c).c_str(), px, py, X, Y, v->width, v->height);
        }
}
FACET(geometry, 1.0, "views of random images (1 pixel upwards, any stride) for random parameters: size is the extent of the transformed image plus a border, reported transforms are the map of the parameters, inverse of each other, centre to centre, all corners inside; source unchanged, no memory kept; nontrivial: tilt and rotation")
{
        Cfg c = gen_cfg(g); Mod m = gen_mod(g, 1, 60, 1, 60, 1, false); Holder s(make(m, gen_stride(g, m))); g.note("%s of %s", str(c).c_str(), brief(m).c_str());
        (void)NX_UNIFORM_SAMPLE_S;     // the global sampler is created on first use
        size_t h0 = c_heap_bytes();
        { WP p; apply(p, c, s); check_geometry(p, c, m.w, m.h); }
        CHECK(c_heap_bytes() == h0, "processor keeps memory"); check_same(s, m, "source");
        g.nontrivial(c.a.tilt > 1 && c.a.planar_angle != 0);
}
FACET(pixels, 2.0, "views of sinusoid, ramp or constant images with known smoothing: every view pixel mapping well inside the source equals the analytically smoothed source at the mapped position within truncation and interpolation error; pixels mapping clearly outside have the fixed colour or the repeated border value; nontrivial: interior pixels exist and the image varies")
{
        Cfg c = gen_cfg(g); int w = (int)g.u(8, 130), h = (int)g.u(8, 130); int kind = (int)g.u(0, 4); Mod m; m.w = w; m.h = h; m.v.resize((size_t)w * h);
        double wx = 0, wy = 0, ph = g.real(0, 6.28), amp = 0, base = g.real(40, 210), gx = 0, gy = 0;
        if (kind >= 2) { double per = g.real(12, 60), th = g.real(0, 6.28); wx = 2 * M_PI / per * std::cos(th); wy = 2 * M_PI / per * std::sin(th); amp = 100; base = 128; }
        else if (kind == 1) { gx = g.real(-100, 100) / w; gy = g.real(-100, 100) / h; base = 128; }
        auto val = [&](double x, double y, double at) { return base + amp * at * std::sin(wx * x + wy * y + ph) + gx * (x - w / 2.0) + gy * (y - h / 2.0); };
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at(x, y) = std::floor(val(x, y, 1) + 0.5);
        Holder s(make(m, gen_stride(g, m))); g.note("%s of %dx%d kind %d freq (%g,%g)", str(c).c_str(), w, h, kind, wx, wy);
        WP p; apply(p, c, s); check_geometry(p, c, w, h);
        const double *b = nx_affine_warp_processor_inverse_transform(p); const NXImage *v = nx_affine_warp_processor_warp_result(p);
        // attenuation of the sinusoid by the blurs: tilt (along x after the first rotation), scale > 1 (in the tilted frame), post (in the view)
        double ct = std::cos(c.a.tilt_angle), st = std::sin(c.a.tilt_angle), f1x = ct * wx - st * wy, f1y = st * wx + ct * wy;   // frequency after rotation
        double s1 = 0.8 * std::sqrt(c.a.tilt * c.a.tilt - 1), s2 = c.a.scale > 1 ? 0.8 * std::sqrt(c.a.scale * c.a.scale - 1) : 0, f2x = f1x * c.a.tilt, f2y = f1y, fr2 = (f2x * f2x + f2y * f2y), frv = fr2 / (c.a.scale * c.a.scale);
        double e = std::max({s1 * s1 * f1x * f1x, s2 * s2 * fr2, c.post * c.post * frv}); if (e > 2.5) g.discard();    // truncated kernels differ on strongly damped waves
        double at = std::exp(-0.5 * (s1 * s1 * f1x * f1x + s2 * s2 * fr2 + c.post * c.post * frv));
        double ie = amp / 8 * (wx * wx + wy * wy + f1x * f1x + f1y * f1y + fr2);      // bilinear interpolation of a sinusoid
        double disc = 0.03 * amp + 1.5;                                              // sampled, truncated kernels and 8-bit source
        double low = 1.0 * (3 + 2 * (s1 > 0) + 2 * (s2 > 0) + 2 * (c.post > 0)) + ie + disc, high = ie + disc;
        double mar = 3 + 3 * s1 + 3 * std::max(1.0, c.a.tilt) * s2 + 3 * std::max(1.0, c.a.tilt) * c.post / c.a.scale + 2 * std::max(1.0, c.a.tilt) / c.a.scale; int in = 0;
        if (kind >= 2 && ie > 25) g.discard();
        for (int y = 0; y < v->height; ++y) for (int x = 0; x < v->width; ++x) {
                double X, Y; xf(b, x, y, X, Y); double got = get(v, x, y);
                if (X > mar && Y > mar && X < w - 1 - mar && Y < h - 1 - mar) {
                        double want = val(X, Y, at); ++in;
                        CHECK(got >= want - low && got <= want + high, "%s, %dx%d, period %g: view pixel (%d,%d) at (%.2f,%.2f) is %g, smoothed source is %.2f (allowed -%.1f +%.1f)", str(c).c_str(), w, h, wx || wy ? 2 * M_PI / std::hypot(wx, wy) : 0, x, y, X, Y, got, want, low, high);
                } else if (X < -1.5 || Y < -1.5 || X > w + 0.5 || Y > h + 0.5) {
                        if (c.bg == 0) CHECK(got == c.color, "%s: background pixel (%d,%d) at (%.2f,%.2f) is %g, not %d", str(c).c_str(), x, y, X, Y, got, c.color);
                        if (c.bg == 1) {
                                double cx = std::max(0.0, std::min(X, w - 1.0)), cy = std::max(0.0, std::min(Y, h - 1.0)); int x0 = (int)cx, y0 = (int)cy; double lo = 255, hi = 0;
                                for (int dy = -1; dy < 3; ++dy) for (int dx = -1; dx < 3; ++dx) { lo = std::min(lo, m.rep(x0 + dx, y0 + dy)); hi = std::max(hi, m.rep(x0 + dx, y0 + dy)); }
                                CHECK(got >= lo - 1 && got <= hi, "%s: repeated border pixel (%d,%d) at (%.2f,%.2f) is %g, the border there has %g..%g", str(c).c_str(), x, y, X, Y, got, lo, hi);
                        }
                }
        }
        g.nontrivial(in > 20 && kind >= 1);
}
FACET(history, 1.0, "2-5 views of different images and parameters with one processor: each equals the view and transforms of a new processor exactly (noise background left out), and is the same for padded rows; nontrivial: size changed")
{
        WP p; int n = (int)g.u(2, 5), pw = -1; bool ch = false;
        for (int k = 0; k < n; ++k) {
                Cfg c = gen_cfg(g); Mod m = gen_mod(g, 1, 50, 1, 50, 1, false); Holder s(make(m)), s2(make(m, m.w + (int)g.u(0, 9))); g.note("%s of %s", str(c).c_str(), brief(m).c_str());
                WP q; apply(p, c, s); apply(q, c, s2);
                const NXImage *a = nx_affine_warp_processor_warp_result(p), *b = nx_affine_warp_processor_warp_result(q); const double *inv = nx_affine_warp_processor_inverse_transform(p);
                for (int i = 0; i < 6; ++i) CHECK(nx_affine_warp_processor_forward_transform(p)[i] == nx_affine_warp_processor_forward_transform(q)[i] && inv[i] == nx_affine_warp_processor_inverse_transform(q)[i], "view %d (%s): transforms differ from a new processor", k, str(c).c_str());
                CHECK(a->width == b->width && a->height == b->height, "view %d: size differs", k);
                for (int y = 0; y < a->height; ++y) for (int x = 0; x < a->width; ++x) {
                        if (c.bg == 2) { double X, Y; xf(inv, x, y, X, Y); if (X < 1.1 || Y < 1.1 || X > m.w - 2.1 || Y > m.h - 2.1) continue; }
                        CHECK(get(a, x, y) == get(b, x, y), "view %d (%s of %s): pixel (%d,%d) is %g with the used processor, %g with a new one", k, str(c).c_str(), brief(m).c_str(), x, y, get(a, x, y), get(b, x, y));
                }
                ch |= pw >= 0 && pw != m.w; pw = m.w;
        }
        g.nontrivial(ch);
}
