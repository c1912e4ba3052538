// C16: image pyramids have the promised levels, scales and contents.
#include "filt.hpp"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/vg_image_pyr.hpp"
using namespace im;
using namespace virg::nexus;

struct Cfg { int type, levels, oct, steps; float factor, sigma0; };
static Cfg gen_cfg(Gen &g)
{
        Cfg c; c.type = (int)g.u(0, 2); c.sigma0 = (float)(g.b(0.4) ? g.pick(std::vector<double>{0.5, 0.2, 1, 1.6, 0}) : g.real(0.5, 2)); c.steps = 1; c.factor = 2;
        if (c.type == 1) { c.oct = (int)g.u(1, 4); c.steps = (int)g.u(1, 4); c.levels = c.oct * c.steps; }
        else { c.levels = (int)g.u(1, c.type == 0 ? 6 : 4); c.oct = c.type == 0 ? c.levels : -1; if (c.type == 2) c.factor = (float)(g.b(0.3) ? g.pick(std::vector<double>{2, 1.5, 1.2, 3, 1}) : g.real(1.01, 2.5)); }
        return c;
}
static void set_cfg(NXImagePyrBuilder *b, const Cfg &c)
{
        if (c.type == 0) nx_image_pyr_builder_set_fast(b, c.levels, c.sigma0); else if (c.type == 1) nx_image_pyr_builder_set_fine(b, c.oct, c.steps, c.sigma0); else nx_image_pyr_builder_set_scaled(b, c.levels, c.factor, c.sigma0);
}
static std::string str(const Cfg &c) { return c.type == 0 ? strf("fast %d sigma %g", c.levels, c.sigma0) : c.type == 1 ? strf("fine %dx%d sigma %g", c.oct, c.steps, c.sigma0) : strf("scaled %d by %g sigma %g", c.levels, c.factor, c.sigma0); }

static int ksize(float s, bool &edge) { double t = 2.0 * 4.0f * s + 1.0; if (std::fabs(t - std::round(t)) < 1e-4) edge = true; int n = (int)t; if (n % 2 == 0) n++; return std::max(n, 3); }
static float sigma_g(float cur, float want) { return (float)std::sqrt((double)(want * want - cur * cur)); }
static Iv smooth(const Iv &a, float s, bool &edge) { if (!(s > 0)) return a; auto k = gauss_kernel(ksize(s, edge) / 2 + 1, s); return pass(pass(a, k, true, 0), k, false, 0); }
static Iv map2(const Iv &a, int w, int h, const std::function<double(const Mod &, int, int)> &f)
{
        Iv o; o.lo.w = o.hi.w = w; o.lo.h = o.hi.h = h; o.lo.v.assign((size_t)w * h, 0); o.hi.v = o.lo.v;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { o.lo.at(x, y) = std::floor(std::max(0.0, f(a.lo, x, y) - 2e-3)); o.hi.at(x, y) = std::floor(std::min(255.0, f(a.hi, x, y) + 2e-3)); }
        return o;
}
static int mi(int i, int n) { if (n == 1) return 0; int p = 2 * n - 2; i = ((i % p) + p) % p; return i < n ? i : p - i; }
static Iv halve_aa(const Iv &a)
{
        static const int k[5] = {1, 6, 11, 6, 1};
        Iv x = map2(a, a.lo.w / 2, a.lo.h, [&](const Mod &m, int x, int y) { double t = 0; for (int i = -2; i <= 2; ++i) t += k[i+2] * m.at(mi(2 * x + i, m.w), y); return t / 25; });
        return map2(x, x.lo.w, x.lo.h / 2, [&](const Mod &m, int x, int y) { double t = 0; for (int i = -2; i <= 2; ++i) t += k[i+2] * m.at(x, mi(2 * y + i, m.h)); return t / 25; });
}
struct Lev { double scale, sigma; Iv px; bool known; };
// levels promised for image m
static std::vector<Lev> ref(const Cfg &c, const Mod &m, bool &edge)
{
        std::vector<Lev> L(c.levels); float s0 = std::max(c.sigma0, 0.5f);
        for (int i = 0; i < c.levels; ++i) { L[i].sigma = (float)(s0 * std::pow(2.0, i / (double)c.steps)); L[i].scale = std::pow((double)c.factor, i / c.steps); L[i].known = true; }
        Iv cur{m, m}; cur = smooth(cur, sigma_g(0.5f, (float)L[0].sigma), edge); L[0].px = cur;
        if (c.type == 0) for (int i = 1; i < c.levels; ++i) L[i].px = halve_aa(L[i-1].px);
        else if (c.type == 1) {
                // smoothing is relative to the octave's sampling; levels are exactly the smoothed and halved previous one
                float curs = (float)L[0].sigma, mul = 1;
                for (int o = 0; o < c.oct; ++o) {
                        for (int j = 1; j < c.steps; ++j) { float d = (float)L[o*c.steps+j].sigma * mul; L[o*c.steps+j].px = smooth(L[o*c.steps+j-1].px, sigma_g(curs, d), edge); curs = d; }
                        if (o + 1 < c.oct) {
                                float d = (float)L[(o+1)*c.steps].sigma * mul; Iv w = smooth(L[(o+1)*c.steps-1].px, sigma_g(curs, d), edge);
                                L[(o+1)*c.steps].px = map2(w, w.lo.w / 2, w.lo.h / 2, [](const Mod &q, int x, int y) { return q.at(2 * x, 2 * y); });
                                // plain sampling: no rounding slack
                                for (int y = 0; y < w.lo.h / 2; ++y) for (int x = 0; x < w.lo.w / 2; ++x) { L[(o+1)*c.steps].px.lo.at(x, y) = w.lo.at(2*x, 2*y); L[(o+1)*c.steps].px.hi.at(x, y) = w.hi.at(2*x, 2*y); }
                                curs = d * 0.5f; mul *= 0.5f;
                        }
                }
        } else {
                float curs = (float)L[0].sigma;
                for (int i = 1; i < c.levels; ++i) {
                        cur = smooth(cur, sigma_g(curs, (float)L[i].sigma), edge); curs = (float)L[i].sigma; double sc = L[i].scale;
                        double ew = m.w / sc, eh = m.h / sc; for (double e : {ew, eh}) if (std::fabs(e - std::round(e)) < 1e-3 + 1e-6 * e && L[i].scale != 2 && L[i].scale != 4 && L[i].scale != 8 && L[i].scale != 1) edge = true;
                        auto at = [&](double ox, double oy) { return map2(cur, (int)ew, (int)eh, [&](const Mod &q, int x, int y) {      // positions in single precision
                                auto pos = [](double v, double o) { return o != 0 ? std::max(0.0, v * (1 + o)) : std::fabs(v - std::round(v)) <= 4e-7 * v ? std::round(v) : v; }; double xp = pos(x * sc, ox), yp = pos(y * sc, oy); int x0 = (int)xp, y0 = (int)yp; double dx = xp - x0, dy = yp - y0;
                                return (q.rep(x0, y0) * (1 - dx) + q.rep(x0 + 1, y0) * dx) * (1 - dy) + (q.rep(x0, y0 + 1) * (1 - dx) + q.rep(x0 + 1, y0 + 1) * dx) * dy; }); };
                        L[i].px = at(0, 0);
                        for (double ox : {-4e-7, 0.0, 4e-7}) for (double oy : {-4e-7, 0.0, 4e-7}) { Iv o = at(ox, oy); for (size_t k = 0; k < o.lo.v.size(); ++k) { L[i].px.lo.v[k] = std::min(L[i].px.lo.v[k], o.lo.v[k]); L[i].px.hi.v[k] = std::max(L[i].px.hi.v[k], o.hi.v[k]); } }
                }
        }
        return L;
}
static void check_pyr(const NXImagePyr *p, const std::vector<Lev> &L, const std::string &what)
{
        CHECK(p->n_levels == (int)L.size(), "%s: %d levels, expected %zu", what.c_str(), p->n_levels, L.size());
        for (size_t i = 0; i < L.size(); ++i) {
                std::string w = strf("%s, level %zu", what.c_str(), i);
                CHECK(near_(p->levels[i].scale, L[i].scale, 1e-5, 0), "%s: scale %g, expected %g", w.c_str(), p->levels[i].scale, L[i].scale);
                CHECK(near_(p->levels[i].sigma, L[i].sigma, 1e-5, 0), "%s: sigma %g, expected %g", w.c_str(), p->levels[i].sigma, L[i].sigma);
                check_iv(p->levels[i].img, L[i].px, w.c_str());
        }
}
static Mod gen_src(Gen &g, const Cfg &c)
{
        // sizes so that no level is empty
        int need = 1; if (c.type != 2) need = 1 << ((c.levels - 1) / c.steps); else need = (int)std::ceil(std::pow(c.factor, c.levels - 1));
        need = std::max(need, 1); int mx = std::max(2 * need + 8, 48);
        return gen_mod(g, need, mx, need, mx, 1, false);
}
static bool same_pyr(const NXImagePyr *a, const NXImagePyr *b, std::string &why)
{
        if (a->n_levels != b->n_levels) { why = "number of levels"; return false; }
        for (int i = 0; i < a->n_levels; ++i) {
                if (a->levels[i].scale != b->levels[i].scale || a->levels[i].sigma != b->levels[i].sigma) { why = strf("scale or sigma of level %d", i); return false; }
                Mod x = model(a->levels[i].img), y = model(b->levels[i].img);
                if (x.w != y.w || x.h != y.h || x.v != y.v) { why = strf("pixels of level %d", i); return false; }
        }
        return true;
}
struct PH { NXImagePyr *p; NXImagePyrBuilder *b; PH() : p(nx_image_pyr_alloc()), b(nx_image_pyr_builder_alloc()) {} ~PH() { nx_image_pyr_free(p); nx_image_pyr_builder_free(b); } };

FACET(build, 2.0, "pyramid of a random 8-bit gray image (any stride) in fast, fine or scaled mode, any number of levels, sigma and factor, through C or C++: number of levels, scale, sigma and every pixel of every level equal an independent smoothing and resampling (interval arithmetic over 8-bit truncation); image unchanged; nontrivial: at least 3 levels")
{
        Cfg c = gen_cfg(g); Mod m = gen_src(g, c); bool edge = false; auto L = ref(c, m, edge); if (edge) g.discard();
        int st = gen_stride(g, m); Holder s(make(m, st, g.bits64())); g.note("%s of %s stride %d", str(c).c_str(), brief(m).c_str(), st);
        size_t h0 = c_heap_bytes();
        if (g.b(0.3)) {
                VGImage v(s, false);
                VGImagePyr p = c.type == 0 ? VGImagePyr::build_fast_from(v, c.levels, c.sigma0) : c.type == 1 ? VGImagePyr::build_fine_from(v, c.oct, c.steps, c.sigma0) : VGImagePyr::build_scaled_from(v, c.levels, c.factor, c.sigma0);
                check_pyr(p.nx_pyr(), L, "C++ " + str(c));
                CHECK(p.n_levels() == c.levels && p.type() == (c.type == 0 ? VGImagePyr::FAST : c.type == 1 ? VGImagePyr::FINE : VGImagePyr::SCALED) && p.n_octaves() == c.oct && p.n_octave_steps() == c.steps && p.scale_factor() == c.factor, "C++ pyramid reports other parameters than %s", str(c).c_str());
                CHECK(p.sigma0() == std::max(0.5f, c.sigma0), "sigma0 is %g", p.sigma0());
                int i = (int)g.u(0, c.levels - 1); CHECK(p.level_scale(i) == p.nx_pyr()->levels[i].scale && p.level_sigma(i) == p.nx_pyr()->levels[i].sigma && p[i].nx_img() == p.nx_pyr()->levels[i].img, "C++ accessors of level %d", i);
        } else {
                NXImagePyrBuilder *b = c.type == 0 ? nx_image_pyr_builder_new_fast(c.levels, c.sigma0) : c.type == 1 ? nx_image_pyr_builder_new_fine(c.oct, c.steps, c.sigma0) : nx_image_pyr_builder_new_scaled(c.levels, c.factor, c.sigma0);
                NXImagePyr *p = nx_image_pyr_builder_build0(b, s);
                try { check_pyr(p, L, str(c)); } catch (...) { nx_image_pyr_free(p); nx_image_pyr_builder_free(b); throw; }
                nx_image_pyr_free(p); nx_image_pyr_builder_free(b);
                CHECK(c_heap_bytes() == h0, "building and freeing a pyramid keeps memory");
        }
        check_same(s, m, "source of the pyramid");
        g.nontrivial(c.levels >= 3);
}
FACET(history, 1.5, "2-6 builds with one builder and one pyramid object, changing mode, parameters and image size, also updating from the present level 0: each equals the pyramid of a new builder; nontrivial: number of levels or size changed")
{
        PH h; int n = (int)g.u(2, 6); bool changed = false; int pl = -1, pw = -1; std::string log;
        for (int k = 0; k < n; ++k) {
                Cfg c = gen_cfg(g); set_cfg(h.b, c); Mod m;
                PH f; set_cfg(f.b, c);
                if (h.p->n_levels == c.levels && k > 0 && g.b(0.5)) {
                        // level 0 as it is now becomes the original
                        m = model(h.p->levels[0].img); log += strf(" | update %s", str(c).c_str());
                        Holder s(make(m)); nx_image_pyr_builder_update(h.b, h.p); nx_image_pyr_builder_build(f.b, f.p, s);
                } else {
                        m = gen_src(g, c); Holder s(make(m, gen_stride(g, m), g.bits64())); log += strf(" | build %s of %dx%d", str(c).c_str(), m.w, m.h);
                        nx_image_pyr_builder_build(h.b, h.p, s); nx_image_pyr_builder_build(f.b, f.p, s);
                        check_same(s, m, "source of the pyramid");
                }
                std::string why; CHECK(same_pyr(h.p, f.p, why), "after%s: %s differ from a new pyramid", log.c_str(), why.c_str());
                changed |= pl >= 0 && (pl != c.levels || pw != m.w); pl = c.levels; pw = m.w;
        }
        g.note("%s", log.c_str()); g.nontrivial(changed);
}
FACET(cxx_rebuild, 0.6, "C++ pyramid rebuilt from other images and from its edited level 0: equals a new pyramid; nontrivial: always")
{
        Cfg c = gen_cfg(g); Mod m = gen_src(g, c), m2 = gen_src(g, c); Holder s(make(m, gen_stride(g, m))), t(make(m2, gen_stride(g, m2))); g.note("%s %s -> %s", str(c).c_str(), brief(m).c_str(), brief(m2).c_str());
        auto bld = [&](NXImage *i) { VGImage v(i, false); return c.type == 0 ? VGImagePyr::build_fast_from(v, c.levels, c.sigma0) : c.type == 1 ? VGImagePyr::build_fine_from(v, c.oct, c.steps, c.sigma0) : VGImagePyr::build_scaled_from(v, c.levels, c.factor, c.sigma0); };
        VGImagePyr p = bld(s), q = bld(t); std::string why;
        p.rebuild_from(VGImage(t, false)); CHECK(same_pyr(p.nx_pyr(), q.nx_pyr(), why), "rebuilt pyramid (%s): %s differ", str(c).c_str(), why.c_str());
        { VGImage l0 = p[0]; nx_image_copy(l0.nx_img(), s); } p.rebuild(); VGImagePyr o = bld(s);
        CHECK(same_pyr(p.nx_pyr(), o.nx_pyr(), why), "pyramid rebuilt from level 0 (%s): %s differ", str(c).c_str(), why.c_str());
        g.nontrivial();
}
FACET(levels, 0.5, "levels allocated, initialised for a size and created singly: requested number, size floor(w/scale), scale and sigma, all pixels addressable, also when reused with another number of levels, and levels that have shrunk to nothing; levels freed and made by hand, with an image copied to level 0; nontrivial: reused")
{
        PH h; int n = (int)g.u(1, 4);
        for (int k = 0; k < n; ++k) {
                Cfg c = gen_cfg(g); set_cfg(h.b, c); int w = (int)g.u(1, 200), hh = (int)g.u(1, 200);
                nx_image_pyr_builder_init_levels(h.b, h.p, w, hh);
                CHECK(h.p->n_levels == c.levels, "%d levels, expected %d", h.p->n_levels, c.levels);
                for (int i = 0; i < c.levels; ++i) {
                        double sc = std::pow((double)c.factor, i / c.steps); NXImage *p = h.p->levels[i].img;
                        auto ok = [&](int got, int full) { return got >= (int)(full / sc - 1e-4) && got <= (int)(full / sc + 1e-4); };
                        CHECK(ok(p->width, w) && ok(p->height, hh), "%s: level %d of %dx%d is %dx%d", str(c).c_str(), i, w, hh, p->width, p->height);
                        check_shape(p, p->width, p->height, 1, false, "level");
                        CHECK(near_(h.p->levels[i].scale, sc, 1e-5, 0) && near_(h.p->levels[i].sigma, std::max(0.5f, c.sigma0) * std::pow(2.0, i / (double)c.steps), 1e-5, 0), "%s: scale %g sigma %g of level %d", str(c).c_str(), h.p->levels[i].scale, h.p->levels[i].sigma, i);
                        for (int y = 0; y < p->height; ++y) for (int x = 0; x < p->width; ++x) set(p, x, y, 0, 5);
                }
                g.note("%s %dx%d", str(c).c_str(), w, hh);
        }
        // tiny images: levels may vanish, nothing may crash
        Cfg c = gen_cfg(g); set_cfg(h.b, c); Mod m = gen_mod(g, 1, 6, 1, 6, 1, false); Holder s(make(m)); nx_image_pyr_builder_build(h.b, h.p, s);
        CHECK(h.p->n_levels == c.levels, "levels of a tiny image");
        // levels made by hand
        int nl = (int)g.u(1, 5); nx_image_pyr_free_levels(h.p); CHECK(h.p->n_levels == 0 && !h.p->levels, "%d levels after freeing them", h.p->n_levels); nx_image_pyr_alloc_levels(h.p, nl); CHECK(h.p->n_levels == nl, "%d levels, %d allocated", h.p->n_levels, nl); struct G { int w, h; float sc, sg; }; std::vector<G> made(nl);
        for (int i = 0; i < nl; ++i) { G q{(int)g.u(1, 40), (int)g.u(1, 40), (float)g.real(0.5, 9), (float)g.real(0, 9)}; nx_image_pyr_create_level(h.p, i, q.w, q.h, q.sc, q.sg); made[i] = q; }
        Mod z = gen_mod(g, 1, 60, 1, 60, 1, false); Holder zi(make(z, gen_stride(g, z), 1)); float sg = (float)g.real(0, 3); if (g.b(0.8)) { nx_image_pyr_copy_to_level0(h.p, zi, sg); made[0] = G{z.w, z.h, 1.0f, sg}; check_same(h.p->levels[0].img, z, "level 0"); check_same(zi, z, "image copied to level 0"); }
        for (int i = 0; i < nl; ++i) { check_shape(h.p->levels[i].img, made[i].w, made[i].h, 1, false, "level made by hand"); CHECK(h.p->levels[i].scale == made[i].sc && h.p->levels[i].sigma == made[i].sg, "level %d has scale %g and sigma %g, given %g and %g", i, h.p->levels[i].scale, h.p->levels[i].sigma, made[i].sc, made[i].sg); }
        g.nontrivial(n > 1);
}
