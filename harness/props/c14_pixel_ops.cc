// C14: pixel operations equal their per-pixel definition.
#include "img.hpp"
#include "virg/nexus/vg_image.hpp"
using namespace im;
using virg::nexus::VGImage;

struct Src {                       // source image with a snapshot of all its bytes, padding included
        Holder p; Mod m; std::string raw;
        Src(Gen &g, const Mod &mm) : p(make(mm, gen_stride(g, mm), g.bits64())), m(mm) { raw.assign((char *)p->data.v, (size_t)p->row_stride * p->height * (m.f32 ? 4 : 1)); }
        void unchanged(const char *what)
        {
                check_shape(p, m.w, m.h, m.nc, m.f32, what);
                CHECK(!memcmp(raw.data(), p->data.v, raw.size()), "%s changed its source image (%s)", what, brief(m).c_str());
        }
};
static Mod gen_gray(Gen &g, int minw = 1, int minh = 1)
{
        bool big = g.b(0.02);
        bool f = g.b(); double lo = g.b(0.3) ? -3 : 0, hi = g.b(0.3) ? 500 : 1;
        return gen_mod(g, minw, big ? 400 : 40, minh, big ? 300 : 40, 1, f, lo, hi);
}
static double maxabs(const Mod &m) { double r = 0; for (double v : m.v) r = std::max(r, std::fabs(v)); return r; }
// p is want: float within tol, uchar by truncation
static void check_val(const NXImage *p, const Mod &want, const char *what, double tol)
{
        check_shape(p, want.w, want.h, want.nc, want.f32, what);
        for (int y = 0; y < want.h; ++y) for (int x = 0; x < want.w; ++x) for (int c = 0; c < want.nc; ++c) {
                double a = get(p, x, y, c), b = want.at(x, y, c);
                if (want.f32) CHECK(std::fabs(a - b) <= tol, "%s: pixel (%d,%d) channel %d of %s is %.9g, expected %.9g", what, x, y, c, brief(want).c_str(), a, b);
                else CHECK(trunc_ok(a, b, std::max(1e-3, tol)), "%s: pixel (%d,%d) channel %d of %s is %g, expected %.6f truncated", what, x, y, c, brief(want).c_str(), a, b);
        }
}
static Mod empty(int w, int h, bool f32, int nc = 1) { Mod m; m.w = w; m.h = h; m.nc = nc; m.f32 = f32; m.v.assign((size_t)w * h * nc, 0); return m; }
// runs an operation through the C interface or the C++ wrapper
template <class C, class V> static void via(Gen &g, NXImage *d, NXImage *s, C c, V v)
{
        if (g.b(0.3)) { VGImage a(d, false), b(s, false); v(a, b); } else c();
}

FACET(zero_axpy, 1.0, "random image (gray/RGBA, uchar/float, any stride): set to zero, or a*v+y with random factors (8 bit: truncated and clamped to 0..255), through C and C++; nontrivial: more than one row and padded")
{
        Mod m = gen_mod(g, 1, 40, 1, 40, g.b(0.4) ? 4 : 1, g.b(), -2, 2); Src s(g, m);
        if (g.b(0.3)) {
                via(g, s.p, s.p, [&] { nx_image_set_zero(s.p); }, [&](VGImage &a, VGImage &) { a.set_zero(); });
                Mod z = m; std::fill(z.v.begin(), z.v.end(), 0.0); check_same(s.p, z, "set to zero"); g.note("zero %s", brief(m).c_str());
        } else {
                float a = (float)(g.b(0.5) ? g.real(-3, 3) : g.pick(std::vector<double>{0, 1, -1, 0.5, 2, 255, 1.0 / 255, 1000})), y = (float)(g.b(0.5) ? g.real(-300, 300) : g.pick(std::vector<double>{0, 255, -255, 127.5, 1, 1e4}));
                g.note("%s a %g y %g", brief(m).c_str(), a, y);
                via(g, s.p, s.p, [&] { nx_image_axpy(s.p, a, y); }, [&](VGImage &v, VGImage &) { v.axpy(a, y); });
                Mod w = m; for (auto &v : w.v) v = (double)a * v + y;
                check_val(s.p, w, "a*v+y", 1e-6 * (std::fabs(a) * maxabs(m) + std::fabs(y)));
        }
        g.nontrivial(m.h > 1 && s.p->row_stride > m.w * m.nc);
}
FACET(normalize, 1.0, "float image (gray/RGBA, any order of values, any range, single pixels and constants included): (v-min)/(max-min), or v/(2 max|v|)+0.5 when symmetric, all results within 0..1, padding ignored; nontrivial: not constant")
{
        double lo = g.pick(std::vector<double>{0, -1, -100, 5, -1e-3, 1e5}), hi = lo + g.pick(std::vector<double>{1, 200, 1e-3, 1e5});
        Mod m = gen_mod(g, 1, 30, 1, 30, g.b(0.3) ? 4 : 1, true, lo, hi);
        int order = (int)g.u(0, 3);
        if (order == 1) std::sort(m.v.begin(), m.v.end()); else if (order == 2) std::sort(m.v.rbegin(), m.v.rend());
        Src s(g, m); bool sym = g.b(); g.note("%s %s order %d range %g..%g", brief(m).c_str(), sym ? "symmetric" : "", order, lo, hi);
        via(g, s.p, s.p, [&] { nx_image_normalize_to_zero_one(s.p, sym ? NX_TRUE : NX_FALSE); }, [&](VGImage &v, VGImage &) { v.normalize_to_zero_one(sym); });
        double mn = *std::min_element(m.v.begin(), m.v.end()), mx = *std::max_element(m.v.begin(), m.v.end());
        if (mn == mx) {
                check_shape(s.p, m.w, m.h, m.nc, true, "normalised constant image");
                double v0 = get(s.p, 0, 0);
                CHECK(v0 >= 0 && v0 <= 1, "a constant image of %g normalises to %g", mn, v0);
                Mod w = m; std::fill(w.v.begin(), w.v.end(), v0); check_same(s.p, w, "normalised constant image");
        } else {
                Mod w = m; double t = std::max(std::fabs(mn), std::fabs(mx));
                for (auto &v : w.v) v = sym ? v / (2 * t) + 0.5 : (v - mn) / (mx - mn);
                check_val(s.p, w, "normalised image", sym ? 1e-5 : 1e-5 + 4e-7 * t / (mx - mn));
                for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int c = 0; c < m.nc; ++c) CHECK(get(s.p, x, y, c) >= 0 && get(s.p, x, y, c) <= 1, "normalised pixel is %g", get(s.p, x, y, c));
        }
        g.nontrivial(mn != mx);
}
FACET(subtract, 0.7, "difference of two gray images of equal element type and any sizes: float image of the common size; nontrivial: different sizes")
{
        Mod a = gen_gray(g), b = g.b(0.4) ? a : gen_gray(g); b.f32 = a.f32; if (!a.f32) for (auto &v : b.v) v = std::floor(std::min(255.0, std::max(0.0, v)));  else for (auto &v : b.v) v = (float)v;
        Src sa(g, a), sb(g, b); Holder d(gen_dest(g));
        nx_image_subtract(d, sa.p, sb.p);
        Mod w = empty(std::min(a.w, b.w), std::min(a.h, b.h), true);
        for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) w.at(x, y) = (float)(a.at(x, y) - b.at(x, y));
        g.note("%s - %s", brief(a).c_str(), brief(b).c_str());
        check_val(d, w, "difference", 1e-6 * (maxabs(a) + maxabs(b)));
        sa.unchanged("subtraction"); sb.unchanged("subtraction");
        g.nontrivial(a.w != b.w || a.h != b.h);
}
FACET(resample, 1.5, "halving (every second pixel) and doubling (averages of neighbours, last row and column repeated) of a gray image into a used or fresh image; nontrivial: odd size or 3+ pixels each way")
{
        bool up = g.b(); Mod m = gen_gray(g); Src s(g, m); Holder d(gen_dest(g)); Mod w;
        g.note("%s %s", up ? "double" : "halve", brief(m).c_str());
        if (up) {
                nx_image_upsample(d, s.p);
                w = empty(2 * m.w, 2 * m.h, m.f32);
                for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) {
                        int x0 = x / 2, y0 = y / 2, x1 = std::min(m.w - 1, x0 + x % 2), y1 = std::min(m.h - 1, y0 + y % 2);
                        w.at(x, y) = (m.at(x0, y0) + m.at(x1, y0) + m.at(x0, y1) + m.at(x1, y1)) / 4;
                }
        } else {
                via(g, d, s.p, [&] { nx_image_downsample(d, s.p); }, [&](VGImage &a, VGImage &b) { a.downsampled_from(b); });
                w = empty(m.w / 2, m.h / 2, m.f32);
                for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) w.at(x, y) = m.at(2 * x, 2 * y);
        }
        if (m.f32) check_val(d, w, up ? "doubled image" : "halved image", up ? 1e-6 * maxabs(m) : 0);
        else { for (auto &v : w.v) v = std::floor(v); check_same(d, w, up ? "doubled image" : "halved image"); }
        s.unchanged(up ? "doubling" : "halving");
        g.nontrivial((m.w % 2 || m.h % 2) && m.w > 2 && m.h > 2);
}
FACET(scale, 1.2, "gray image scaled by any factor: floor(size*s), bilinear interpolation of the source at x/s, y/s with the border repeated (8 bit: truncated); nontrivial: at least 3x3 result")
{
        Mod m = gen_gray(g);
        float f = (float)(g.b(0.4) ? g.pick(std::vector<double>{1, 2, 0.5, 1.5, 3, 0.25, 0.999, 1.001, 1.0 / 3}) : g.real(0.1, 4));
        double ew = m.w * (double)f, eh = m.h * (double)f;
        auto unclear = [](double v) { return v != std::round(v) && std::fabs(v - std::round(v)) < std::max(1e-4, 1e-6 * v); };
        if (unclear(ew) || unclear(eh)) g.discard();
        if (ew < 1 || eh < 1) g.discard();
        Src s(g, m); Holder d(gen_dest(g)); g.note("%s by %g", brief(m).c_str(), f);
        via(g, d, s.p, [&] { nx_image_scale(d, s.p, f); }, [&](VGImage &a, VGImage &b) { a.scaled_of(b, f); });
        Mod w = empty((int)ew, (int)eh, m.f32), slack = w;
        for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) {
                double xp = x / (double)f, yp = y / (double)f; int x0 = (int)xp, y0 = (int)yp; double dx = xp - x0, dy = yp - y0;
                w.at(x, y) = (m.rep(x0, y0) * (1 - dx) + m.rep(x0 + 1, y0) * dx) * (1 - dy) + (m.rep(x0, y0 + 1) * (1 - dx) + m.rep(x0 + 1, y0 + 1) * dx) * dy;
        }
        check_val(d, w, "scaled image", std::max(2e-3, 1e-4 * maxabs(m)) + 1e-6 * std::max(m.w, m.h) * maxabs(m));
        s.unchanged("scaling");
        g.nontrivial(w.w > 2 && w.h > 2);
}
FACET(halve_smoothed, 1.0, "halving in x or y with the 1 6 11 6 1 filter and mirrored borders, sizes 2 and 3 included (8 bit: truncated); nontrivial: at least 5 pixels along the halved direction")
{
        bool xd = g.b(); Mod m = gen_gray(g); Src s(g, m); Holder d(gen_dest(g)); g.note("%s %s", xd ? "x" : "y", brief(m).c_str());
        if (xd) nx_image_downsample_aa_x(d, s.p); else nx_image_downsample_aa_y(d, s.p);
        Mod w = empty(xd ? m.w / 2 : m.w, xd ? m.h : m.h / 2, m.f32);
        int n = xd ? m.w : m.h; auto mi = [&](int i) { if (n == 1) return 0; int p = 2 * n - 2; i = ((i % p) + p) % p; return i < n ? i : p - i; };
        static const int k[5] = {1, 6, 11, 6, 1};
        for (int y = 0; y < w.h; ++y) for (int x = 0; x < w.w; ++x) { double t = 0; for (int i = -2; i <= 2; ++i) t += k[i+2] * (xd ? m.at(mi(2 * x + i), y) : m.at(x, mi(2 * y + i))); w.at(x, y) = t / 25; }
        check_val(d, w, xd ? "image halved in x" : "image halved in y", std::max(1e-4, 1e-6 * maxabs(m)));
        s.unchanged("smoothed halving");
        g.nontrivial(n >= 5);
}
FACET(derivative, 1.2, "x and y derivatives: difference of the two neighbours (8 bit: of values / 255), twice the one-sided difference at the border, zero when there is only one pixel; nontrivial: at least 3x3")
{
        bool xd = g.b(); Mod m = gen_gray(g); Src s(g, m); Holder d(gen_dest(g)); g.note("d%s %s", xd ? "x" : "y", brief(m).c_str());
        if (xd) via(g, d, s.p, [&] { nx_image_deriv_x(d, s.p); }, [&](VGImage &a, VGImage &b) { a.deriv_x_of(b); });
        else via(g, d, s.p, [&] { nx_image_deriv_y(d, s.p); }, [&](VGImage &a, VGImage &b) { a.deriv_y_of(b); });
        Mod w = empty(m.w, m.h, true); double sc = m.f32 ? 1 : 255;
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) {
                int i = xd ? x : y, n = xd ? m.w : m.h, a = std::max(0, i - 1), b = std::min(n - 1, i + 1);
                double f = b - a == 2 ? 1 : b - a == 1 ? 2 : 0;
                w.at(x, y) = f * ((xd ? m.at(b, y) : m.at(x, b)) - (xd ? m.at(a, y) : m.at(x, a))) / sc;
        }
        check_val(d, w, xd ? "x derivative" : "y derivative", std::max(1e-6, 1e-6 * maxabs(m)));
        s.unchanged("derivative");
        g.nontrivial(m.w > 2 && m.h > 2);
}
FACET(element_type, 0.8, "8-bit to float (v/255) and float to 8 bit (255 v truncated, clamped) of gray images, and gray/RGBA layout conversion of both element types; nontrivial: at least 2x2")
{
        if (g.b()) {
                bool f = g.b(); Mod m = gen_mod(g, 1, 40, 1, 40, 1, f, g.b() ? 0 : -1, g.b() ? 1 : 2.5); Src s(g, m); Holder d(gen_dest(g)); g.note("%s", brief(m).c_str());
                // the target's element type decides: make it the other one
                { Mod q = gen_mod(g, 0, 9, 0, 9, g.b(0.2) ? 4 : 1, !f); Holder o(make(q, gen_stride(g, q))); nx_image_swap(d, o); }
                nx_image_convert_dtype(d, s.p);
                Mod w = empty(m.w, m.h, !f); for (size_t i = 0; i < m.v.size(); ++i) w.v[i] = f ? m.v[i] * 255.0 : m.v[i] / 255.0;
                check_val(d, w, f ? "float to 8 bit" : "8 bit to float", 1e-6); s.unchanged("element type conversion");
                if (!f) { Mod q = gen_mod(g, 0, 9, 0, 9, 1, false); Holder e(make(q)); nx_image_convert_dtype(e, d); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) CHECK(std::fabs(get(e, x, y) - m.at(x, y)) <= 1, "8 bit value %g becomes %g through float", m.at(x, y), get(e, x, y)); }
                g.nontrivial(m.w > 1 && m.h > 1);
        } else {
                int nc = g.b() ? 4 : 1; bool f = g.b(); Mod m = gen_mod(g, 1, 40, 1, 40, nc, f); Src s(g, m); g.note("%s", brief(m).c_str());
                via(g, s.p, s.p, [&] { nx_image_convert_type(s.p, nc == 4 ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA); }, [&](VGImage &a, VGImage &) { a.convert_type_to(nc == 4 ? VGImage::GRAYSCALE : VGImage::RGBA); });
                Mod w = empty(m.w, m.h, f, nc == 4 ? 1 : 4);
                for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { if (nc == 4) w.at(x, y) = 0.3 * m.at(x, y, 0) + 0.59 * m.at(x, y, 1) + 0.11 * m.at(x, y, 2); else { for (int c = 0; c < 3; ++c) w.at(x, y, c) = m.at(x, y); w.at(x, y, 3) = f ? 1 : 255; } }
                check_val(s.p, w, "layout conversion", nc == 4 ? 1e-6 : 0);
                g.nontrivial(m.w > 1 && m.h > 1);
        }
}
