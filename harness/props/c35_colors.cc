// C35: colour conversions and colour maps.
#include "img.hpp"
#include "../color_tables.h"
#include "virg/nexus/nx_colorspace.h"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_color_map.hpp"
using namespace im;
using namespace virg::nexus;

static const NXColorMap MAPS[] = {NX_COLOR_MAP_GRAY, NX_COLOR_MAP_VIRIDIS, NX_COLOR_MAP_PLASMA, NX_COLOR_MAP_MAGMA, NX_COLOR_MAP_CUBEHELIX};
static const VGColorMap::Type VMAPS[] = {VGColorMap::GRAY, VGColorMap::VIRIDIS, VGColorMap::PLASMA, VGColorMap::MAGMA, VGColorMap::CUBEHELIX};
static const char *NAMES[] = {"gray", "viridis", "plasma", "magma", "cubehelix"};
// colour of the map at t, real valued 0..255
static void ref_map(int map, double t, double *rgb)
{
        t = t < 0 ? 0 : t > 1 ? 1 : t;
        float (*tab)[3] = map == 1 ? ref_viridis : map == 2 ? ref_plasma : map == 3 ? ref_magma : ref_cubehelix;
        int n = map == 1 ? ref_viridis_size : map == 2 ? ref_plasma_size : map == 3 ? ref_magma_size : ref_cubehelix_size;
        for (int c = 0; c < 3; ++c) {
                if (map == 0) { rgb[c] = 255 * t; continue; }
                double p = (n - 1) * t; int k = std::min((int)p, n - 2); double a = p - k;
                rgb[c] = 255 * ((1 - a) * tab[k][c] + a * tab[k + 1][c]);
        }
}
static void check_rgb(int map, double t, const uchar *got, const char *what)
{
        double w[3]; ref_map(map, t, w);
        for (int c = 0; c < 3; ++c) CHECK(trunc_ok(got[c], w[c], 5e-3), "%s: map %s at %.9g gives component %d = %d, expected %.4f truncated", what, NAMES[map], t, c, got[c], w[c]);
}
static double gen_t(Gen &g)
{
        switch (g.u(0, 5)) {
        case 0: return g.pick(std::vector<double>{0, 1, 0.5, 1 - 1e-7, 1e-7});
        case 1: return g.u(0, 255) / 255.0;
        case 2: return g.u(0, 255) / 256.0 + g.real(-1e-6, 1e-6);
        case 3: return g.pick(std::vector<double>{-0.1, 1.0001, 1.5, -1, 2, 100, -1e30, 1e30, -1e-8, 1 + 1e-6});
        default: return g.unit();
        }
}
FACET(color_map, 2, "every colour map at a random value (ends, table positions, between them, outside 0..1): the table entry or linear interpolation, clamped at the ends, truncated to 8 bit; C++ gives the same colour with alpha 1; nontrivial: not the gray map")
{
        int m = (int)g.u(0, 4); float t = (float)gen_t(g); uchar c[5] = {9, 9, 9, 77, 77};
        g.note("%s at %g", NAMES[m], t);
        nx_color_map_apply(c, c + 1, c + 2, t, MAPS[m]);
        check_rgb(m, t, c, "colour map"); CHECK(c[3] == 77, "colour map wrote a fourth component");
        VGColor v = VGColorMap::apply(VMAPS[m], t);
        CHECK(std::fabs(v.r() * 255 - c[0]) < 1e-9 && std::fabs(v.g() * 255 - c[1]) < 1e-9 && std::fabs(v.b() * 255 - c[2]) < 1e-9, "C++ colour map %s at %g: %g %g %g, C gives %d %d %d", NAMES[m], t, v.r(), v.g(), v.b(), c[0], c[1], c[2]);
        CHECK(v.a() >= 0 && v.a() <= 1, "C++ colour map gives alpha %g", v.a());
        g.nontrivial(m > 0);
}
FACET(map_image, 1, "colour map applied to a gray image (uchar/float, values also outside 0..1, any stride): RGBA 8-bit image of the same size with the mapped colours and alpha 255, source unchanged; nontrivial: at least 2x2")
{
        int mp = (int)g.u(0, 4); bool f = g.b(); Mod m = gen_mod(g, 1, 40, 1, 40, 1, f, g.b(0.5) ? 0 : -0.5, g.b(0.5) ? 1 : 1.5); Holder s(make(m, gen_stride(g, m))), d(gen_dest(g));
        g.note("%s %s", NAMES[mp], brief(m).c_str());
        if (g.b(0.3)) { VGImage a(d, false), b(s, false), x; x.apply_colormap(a, b, VMAPS[mp]); } else nx_image_apply_colormap(d, s, MAPS[mp]);
        check_shape(d, m.w, m.h, 4, false, "colour mapped image");
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { uchar c[3]; for (int k = 0; k < 3; ++k) c[k] = (uchar)get(d, x, y, k); check_rgb(mp, f ? m.at(x, y) : m.at(x, y) / 255.0, c, "colour mapped image"); CHECK(get(d, x, y, 3) == 255, "alpha of a mapped pixel is %g", get(d, x, y, 3)); }
        check_same(s, m, "source of the colour map");
        g.nontrivial(m.w > 1 && m.h > 1);
}
FACET(gray, 2, "luminance 0.3 r + 0.59 g + 0.11 b of random colours, 8 bit (truncated) and float (clamped to 0..1), singly and for buffers with any strides; gray to RGBA replicates with full alpha; gray colours stay gray within 1 (1e-6 for float), and bytes between rows are untouched; nontrivial: unequal components")
{
        if (g.b(0.4)) {
                int r = (int)g.u(0, 255), gg = (int)g.u(0, 255), b = (int)g.u(0, 255); if (g.b(0.3)) gg = b = r; g.note("%d %d %d", r, gg, b);
                int v = nx_rgb_to_gray_uc(r, gg, b); double w = 0.3 * r + 0.59 * gg + 0.11 * b;
                CHECK(trunc_ok(v, w, 1e-3), "luminance of %d %d %d is %d, expected %.3f truncated", r, gg, b, v, w);
                if (r == gg && gg == b) CHECK(std::abs(v - r) <= 1, "gray %d becomes %d", r, v);
                float fr = (float)g.real(-0.5, 1.5), fg = (float)g.real(-0.5, 1.5), fb = (float)g.real(-0.5, 1.5); double fv = nx_rgb_to_gray_f32(fr, fg, fb), fw = std::min(1.0, std::max(0.0, 0.3 * fr + 0.59 * fg + 0.11 * fb));
                CHECK(std::fabs(fv - fw) < 1e-6, "luminance of %g %g %g is %g, expected %g", fr, fg, fb, fv, fw);
                g.nontrivial(r != gg); return;
        }
        bool f = g.b(); int w = gen_dim(g, 0, 20), h = gen_dim(g, 0, 20), sg = w + (int)g.u(0, 9), sc = 4 * w + (int)g.u(0, 9); Rng r{g.bits64()};
        std::vector<float> gf((size_t)sg * h + 1, 3.f), cf((size_t)sc * h + 1, 3.f); std::vector<uchar> gu(gf.size(), 33), cu(cf.size(), 33); g.note("%dx%d strides %d %d", w, h, sg, sc);
        auto noise = [&](std::vector<float> &a, std::vector<uchar> &b) { for (auto &v : a) v = (float)r.unit(); for (auto &v : b) v = r(); };
        if (g.b()) {
                noise(cf, cu); if (f) nx_convert_rgba_to_gray_f32(w, h, gf.data(), sg, cf.data(), sc); else nx_convert_rgba_to_gray_uc(w, h, gu.data(), sg, cu.data(), sc);
                for (int y = 0; y < h; ++y) for (int x = 0; x < sg; ++x) {
                        size_t o = (size_t)y * sg + x, i = (size_t)y * sc + 4 * x;
                        if (x >= w) { CHECK(gf[o] == 3.f && gu[o] == 33, "padding of the gray buffer changed"); continue; }
                        double e = f ? 0.3 * cf[i] + 0.59 * cf[i+1] + 0.11 * cf[i+2] : 0.3 * cu[i] + 0.59 * cu[i+1] + 0.11 * cu[i+2];
                        if (f) CHECK(std::fabs(gf[o] - e) < 1e-6, "gray (%d,%d) is %g, expected %g", x, y, gf[o], e); else CHECK(trunc_ok(gu[o], e), "gray (%d,%d) is %d, expected %.3f truncated", x, y, gu[o], e);
                }
                CHECK(gf.back() == 3.f && gu.back() == 33, "wrote past the gray buffer");
        } else {
                noise(gf, gu); if (f) nx_convert_gray_to_rgba_f32(w, h, cf.data(), sc, gf.data(), sg); else nx_convert_gray_to_rgba_uc(w, h, cu.data(), sc, gu.data(), sg);
                for (int y = 0; y < h; ++y) for (int x = 0; x < sc; ++x) {
                        size_t o = (size_t)y * sc + x, i = (size_t)y * sg + x / 4;
                        if (x >= 4 * w) { CHECK(cf[o] == 3.f && cu[o] == 33, "padding of the colour buffer changed"); continue; }
                        if (f) CHECK(cf[o] == (x % 4 == 3 ? 1.f : gf[i]), "colour (%d,%d) component %d is %g", x / 4, y, x % 4, cf[o]); else CHECK(cu[o] == (x % 4 == 3 ? 255 : gu[i]), "colour (%d,%d) component %d is %d", x / 4, y, x % 4, cu[o]);
                }
                CHECK(cf.back() == 3.f && cu.back() == 33, "wrote past the colour buffer");
                // and back
                std::vector<float> bf(gf.size()); std::vector<uchar> bu(gu.size());
                if (f) nx_convert_rgba_to_gray_f32(w, h, bf.data(), sg, cf.data(), sc); else nx_convert_rgba_to_gray_uc(w, h, bu.data(), sg, cu.data(), sc);
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { size_t o = (size_t)y * sg + x; if (f) CHECK(std::fabs(bf[o] - gf[o]) < 1e-6, "gray %g comes back as %g", gf[o], bf[o]); else CHECK(std::abs(bu[o] - gu[o]) <= 1, "gray %d comes back as %d", gu[o], bu[o]); }
        }
        g.nontrivial(w > 0 && h > 1 && (sg > w || sc > 4 * w));
}
