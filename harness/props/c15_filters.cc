// C15: smoothing and box filters equal the direct convolution.
#include "filt.hpp"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/nx_filter.h"
using namespace im;
using virg::nexus::VGImage;

static double maxabs(const Mod &m) { double r = 0; for (double v : m.v) r = std::max(r, std::fabs(v)); return r; }
static Mod gen_gray(Gen &g, int maxd = 36)
{
        bool f = g.b(); double lo = g.b(0.3) ? -3 : 0, hi = g.b(0.3) ? 500 : 1;
        return gen_mod(g, 1, maxd, 1, maxd, 1, f, lo, hi);
}
static Mod transpose(const Mod &m) { Mod t = m; std::swap(t.w, t.h); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) t.at(y, x) = m.at(x, y); return t; }
static float gen_sigma(Gen &g) { return (float)(g.b(0.3) ? g.pick(std::vector<double>{0.5, 1, 1.6, 0.1, 3, 8, 0.01}) : g.real(0.2, 5)); }

struct Run { Holder s; Holder d; NXImage *out; std::string raw; bool inplace; };
FACET(smooth, 2.0, "Gaussian smoothing with any two widths and truncation factor of a gray image (uchar/float, any size from 1x1, any stride), into another image or in place, with own or caller's buffer, C or C++: every pixel equals the direct two-pass convolution with repeated borders (8 bit truncated after each pass), source unchanged; nontrivial: at least 3x3 and not constant")
{
        Mod m = gen_gray(g, g.b(0.03) ? 150 : 36); float sx = gen_sigma(g), sy = g.b(0.4) ? sx : gen_sigma(g), tf = (float)g.pick(std::vector<double>{3, 2, 4, 5, 2.5, 0.1, 3.3});
        int st = gen_stride(g, m); Holder s(make(m, st, g.bits64())); bool in = g.b(0.35); Holder d0(gen_dest(g)); NXImage *d = in ? s : d0;
        std::string raw((char *)s->data.v, (size_t)s->row_stride * s->height * (m.f32 ? 4 : 1));
        g.note("%s sigma %g %g factor %g%s stride %d", brief(m).c_str(), sx, sy, tf, in ? " in place" : "", st);
        int nkx = 0, nky = 0; int how = (int)g.u(0, 2);
        if (how == 0) nx_image_smooth(d, s, sx, sy, tf, NULL);
        else if (how == 1) { float *b = nx_image_filter_buffer_alloc(m.w, m.h, sx, sy, tf, &nkx, &nky); nx_image_smooth(d, s, sx, sy, tf, b); nx_free(b);
                CHECK(nkx == nx_kernel_size_gaussian(sx, tf) && nky == nx_kernel_size_gaussian(sy, tf), "buffer allocation reports kernel sizes %d, %d", nkx, nky); }
        else { VGImage a(d, false), b(s, false); a.smooth(b, sx, sy, tf); }
        // the window reaches at least the truncation factor: kernel size 2*f*sigma+1 rounded up to odd, at least 3
        auto ks = [&](float sg) { int n = (int)(2.0 * tf * sg + 1.0); if (n % 2 == 0) n++; return std::max(n, 3); };
        double e = 2e-6 * std::max(1.0, maxabs(m));
        Iv w{m, m}; w = pass(w, gauss_kernel(ks(sx) / 2 + 1, sx), true, e); w = pass(w, gauss_kernel(ks(sy) / 2 + 1, sy), false, e);
        check_iv(d, w, in ? "smoothing in place" : "smoothing");
        if (!in) CHECK(!memcmp(raw.data(), s->data.v, raw.size()), "smoothing changed its source");
        // a constant image stays constant up to rounding
        bool cst = std::all_of(m.v.begin(), m.v.end(), [&](double v) { return v == m.v[0]; });
        if (cst) for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) CHECK(std::fabs(get(d, x, y) - m.v[0]) <= (m.f32 ? 2 * e : 2), "constant image of %g smooths to %g", m.v[0], get(d, x, y));
        g.nontrivial(m.w > 2 && m.h > 2 && !cst);
}
FACET(box, 2.0, "box filters (x, y, both) with any radii, also larger than the image, same variations: every pixel equals the direct mean with repeated borders; nontrivial: at least 3x3")
{
        Mod m = gen_gray(g, g.b(0.03) ? 400 : 36); int rx = (int)(g.b(0.8) ? g.u(1, 6) : g.u(1, 60)), ry = g.b(0.4) ? rx : (int)g.u(1, 9), kind = (int)g.u(0, 2);
        int st = gen_stride(g, m); Holder s(make(m, st, g.bits64())); bool in = g.b(0.35); Holder d0(gen_dest(g)); NXImage *d = in ? s : d0;
        std::string raw((char *)s->data.v, (size_t)s->row_stride * s->height * (m.f32 ? 4 : 1));
        g.note("%s kind %d radii %d %d%s", brief(m).c_str(), kind, rx, ry, in ? " in place" : "");
        int how = (int)g.u(0, 2);
        if (how < 2) {
                float *b = how ? nx_filter_buffer_alloc(std::max(m.w, m.h), std::max(rx, ry)) : NULL;
                if (kind == 0) nx_image_filter_box_x(d, s, rx, b); else if (kind == 1) nx_image_filter_box_y(d, s, ry, b); else nx_image_filter_box(d, s, rx, ry, b);
                nx_free(b);
        } else { VGImage a(d, false), b(s, false); if (kind == 0) a.filter_box_x(b, rx); else if (kind == 1) a.filter_box_y(b, ry); else a.filter_box(b, rx, ry); }
        double e = (1e-6 + 3e-7 * std::max(m.w, m.h) + 3e-7 * std::max(rx, ry)) * std::max(1.0, maxabs(m));
        Iv w{m, m}; if (kind != 1) w = pass(w, box_kernel(rx), true, e); if (kind != 0) w = pass(w, box_kernel(ry), false, e);
        check_iv(d, w, "box filter");
        if (!in) CHECK(!memcmp(raw.data(), s->data.v, raw.size()), "box filter changed its source");
        g.nontrivial(m.w > 2 && m.h > 2);
}
FACET(transpose, 0.8, "smoothing (or box filtering) the transposed float image with exchanged widths gives the transposed result; nontrivial: not square")
{
        Mod m = gen_mod(g, 2, 30, 2, 30, 1, true, -1, 2), t = transpose(m); Holder a(make(m, gen_stride(g, m))), b(make(t, gen_stride(g, t))), da(gen_dest(g)), db(gen_dest(g));
        if (g.b()) { float sx = gen_sigma(g), sy = gen_sigma(g); nx_image_smooth(da, a, sx, sy, 3, NULL); nx_image_smooth(db, b, sy, sx, 3, NULL); g.note("%s sigma %g %g", brief(m).c_str(), sx, sy); }
        else { int rx = (int)g.u(1, 8), ry = (int)g.u(1, 8); nx_image_filter_box(da, a, rx, ry, NULL); nx_image_filter_box(db, b, ry, rx, NULL); g.note("%s radii %d %d", brief(m).c_str(), rx, ry); }
        check_same(db, transpose(model(da)), "transposed filter", 2e-5 * (1 + std::max(m.w, m.h) / 40.0));
        g.nontrivial(m.w != m.h);
}
FACET(kernels, 0.6, "Gaussian kernels of any size and width: positive, decreasing, proportional to exp(-i^2/2s^2), summing to one; kernel sizes are odd, at least 3, cover factor*sigma on both sides and no more than needed; nontrivial: size above 3")
{
        float s = gen_sigma(g); int nk = (int)(g.b() ? g.u(2, 12) : g.u(2, 60)); std::vector<float> k(nk + 2, -7.f);
        nx_kernel_sym_gaussian(nk, k.data(), s);
        CHECK(k[nk] == -7.f, "the kernel is written past its %d entries", nk);
        auto w = gauss_kernel(nk, s); double sum = 0;
        for (int i = 0; i < nk; ++i) { sum += i ? 2.0 * k[i] : k[i]; CHECK(std::fabs(k[i] - w[i]) <= 2e-6, "kernel entry %d of %d for sigma %g is %g, expected %g", i, nk, s, k[i], w[i]); }
        CHECK(std::fabs(sum - 1) < 3e-6, "kernel of %d entries for sigma %g sums to %.9g", nk, s, sum);
        float f = (float)g.real(0.5, 6); int n = nx_kernel_size_gaussian(s, f); double full = 2.0 * f * (double)s;
        CHECK(n % 2 == 1 && n >= 3, "kernel size for sigma %g factor %g is %d", s, f, n);
        CHECK(n >= full - 1e-4 && (n == 3 || n <= full + 2 + 1e-4), "kernel size for sigma %g factor %g is %d", s, f, n);
        g.note("sigma %g, %d entries", s, nk); g.nontrivial(nk > 3);
}
FACET(buffers, 1.5, "copying n strided or consecutive values (uchar or float) into a buffer with a zero, repeated or mirrored border of any width, followed by a symmetric convolution with an arbitrary kernel or a box mean in place: equals the direct sum; nothing written outside the buffer; nontrivial: border of 2 or more")
{
        int n = (int)g.u(2, 40), mode = (int)g.u(0, 2), nb = (int)g.u(1, mode == 2 ? std::min(12, n - 1) : 20), stride = (int)g.u(1, 5); bool uc = g.b(), one = g.b(0.4); if (one) stride = 1;
        NXBorderMode bm = mode == 0 ? NX_BORDER_ZERO : mode == 1 ? NX_BORDER_REPEAT : NX_BORDER_MIRROR; Rng r{g.bits64()};
        std::vector<uchar> du((size_t)(n - 1) * stride + 1); std::vector<float> df(du.size());
        for (size_t i = 0; i < du.size(); ++i) { du[i] = r(); df[i] = (float)(r.unit() * 4 - 2); }
        std::vector<float> guard(n + 2 * nb + 8, 12345.f); float *buf = guard.data() + 4;
        if (uc) { if (one) nx_filter_copy_to_buffer1_uc(n, buf, du.data(), nb, bm); else nx_filter_copy_to_buffer_uc(n, buf, du.data(), stride, nb, bm); }
        else { if (one) nx_filter_copy_to_buffer1(n, buf, df.data(), nb, bm); else nx_filter_copy_to_buffer(n, buf, df.data(), stride, nb, bm); }
        auto val = [&](int i) -> double {
                if (i < 0 || i >= n) { if (mode == 0) return 0; if (mode == 1) i = i < 0 ? 0 : n - 1; else i = i < 0 ? -i : 2 * n - 2 - i; }
                return uc ? (double)du[(size_t)i * stride] : (double)df[(size_t)i * stride]; };
        g.note("n %d border %d mode %d stride %d %s", n, nb, mode, stride, uc ? "uchar" : "float");
        for (int i = -nb; i < n + nb; ++i) CHECK(buf[i + nb] == (float)val(i), "buffer entry %d of n %d (border %d, mode %d) is %g, expected %g", i, n, nb, mode, buf[i + nb], val(i));
        if (g.b()) {
                std::vector<float> k(nb + 1); for (auto &v : k) v = (float)(r.unit() * 2 - 0.5);
                nx_convolve_sym(n, buf, nb + 1, k.data());
                for (int i = 0; i < n; ++i) { double t = 0, a = 0; for (int j = -nb; j <= nb; ++j) { t += k[std::abs(j)] * val(i + j); a += std::fabs(k[std::abs(j)] * val(i + j)); } CHECK(std::fabs(buf[i] - t) <= 1e-5 * (a + 1), "convolved entry %d is %g, direct sum %g", i, buf[i], t); }
        } else {
                nx_convolve_box(n, buf, nb);
                for (int i = 0; i < n; ++i) { double t = 0; for (int j = -nb; j <= nb; ++j) t += val(i + j); t /= 2 * nb + 1; CHECK(std::fabs(buf[i] - t) <= 2e-5 * (uc ? 255 : 2), "box entry %d is %g, direct mean %g", i, buf[i], t); }
        }
        for (int i = 0; i < 4; ++i) CHECK(guard[i] == 12345.f && guard[guard.size() - 1 - i] == 12345.f, "the filter wrote outside its buffer");
        float *al = nx_filter_buffer_alloc(n, nb); for (int i = 0; i < n + 2 * nb; ++i) al[i] = (float)i; nx_free(al);
        g.nontrivial(nb > 1);
}
