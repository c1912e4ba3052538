// C12: images survive saving to and loading from image files.
#include <array>
#include "../imgio.hpp"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_image_io_pnm.h"
#include "virg/nexus/nx_image_io_png.h"
#include "virg/nexus/nx_image_io_jpeg.h"
#include "virg/nexus/vg_image.hpp"
using namespace im;
using namespace imf;

enum Fmt { PNM, PNG, JPEG };
static const NXImageLoadMode MODES[] = {NX_IMAGE_LOAD_AS_IS, NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA};
static const char *mname(int m) { return m < 0 ? "as is" : m == 0 ? "grayscale" : "RGBA"; }

static void save_any(Gen &g, const NXImage *p, const std::string &fn, Fmt f)
{
        bool bad = false; std::string msg;
        int how = (int)g.u(0, 4);
        bool ft = fatal([&] {
                switch (how) {
                case 0: bad = nx_image_save(p, fn.c_str()) != NX_OK; break;
                case 1: nx_image_xsave(p, fn.c_str()); break;
                case 2: bad = (f == PNM ? nx_image_save_pnm : f == PNG ? nx_image_save_png : nx_image_save_jpeg)(p, fn.c_str()) != NX_OK; break;
                case 3: (f == PNM ? nx_image_xsave_pnm : f == PNG ? nx_image_xsave_png : nx_image_xsave_jpeg)(p, fn.c_str()); break;
                default: { virg::nexus::VGImage v(nx_image_copy0(p), true); if (g.b()) v.xsave(fn); else bad = !v.save(fn); }
                }
        }, &msg);
        CHECK(!ft && !bad, "saving a %s image to %s failed (interface %d): %s", brief(model(p)).c_str(), fn.c_str(), how, msg.c_str());
}
static NXImage *load_any(Gen &g, const std::string &fn, Fmt f, NXImageLoadMode mode, const std::string &what)
{
        NXImage *p = gen_load_target(g);
        bool bad = false; std::string msg;
        int how = (int)g.u(0, 4);
        bool ft = fatal([&] {
                switch (how) {
                case 0: bad = nx_image_load(p, fn.c_str(), mode) != NX_OK; break;
                case 1: nx_image_xload(p, fn.c_str(), mode); break;
                case 2: bad = (f == PNM ? nx_image_load_pnm : f == PNG ? nx_image_load_png : nx_image_load_jpeg)(p, fn.c_str(), mode) != NX_OK; break;
                case 3: (f == PNM ? nx_image_xload_pnm : f == PNG ? nx_image_xload_png : nx_image_xload_jpeg)(p, fn.c_str(), mode); break;
                default: {
                        auto vm = mode == NX_IMAGE_LOAD_AS_IS ? virg::nexus::VGImage::LOAD_AS_IS : mode == NX_IMAGE_LOAD_GRAYSCALE ? virg::nexus::VGImage::LOAD_GRAYSCALE : virg::nexus::VGImage::LOAD_RGBA;
                        virg::nexus::VGImage v(p, false); if (g.b()) v.xload(fn, vm); else bad = !v.load(fn, vm); }
                }
        }, &msg);
        if (ft || bad) { nx_image_free(p); fail("loading %s as %s failed (interface %d): %s", what.c_str(), mname(mode), how, msg.c_str()); }
        return p;
}
static std::string file_name(Gen &g, Fmt f)
{
        static const std::vector<const char *> e[3] = {{".pgm", ".ppm", ".PGM", ".PPM"}, {".png", ".PNG"}, {".jpg", ".jpeg", ".JPG", ".JPEG"}};
        std::string base = g.pick(std::vector<std::string>{"i", "a.b", "with space", "x.png", "y.jpg", "z.pgm"});
        return scratch_file(base + g.pick(e[f]));
}
// want: pixels of the file as r,g,b,a; gray: whether it is a gray file
static void expect(const NXImage *p, int w, int h, bool gray, NXImageLoadMode mode, const std::function<std::array<double, 4>(int, int)> &px, double gtol, const std::string &what, bool any_alpha = false)
{
        bool og = mode == NX_IMAGE_LOAD_GRAYSCALE || (mode == NX_IMAGE_LOAD_AS_IS && gray);
        std::string wh = what + " loaded as " + mname(mode);
        check_shape(p, w, h, og ? 1 : 4, false, wh.c_str());
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                auto q = px(x, y);
                if (og) {
                        double v = get(p, x, y);
                        if (gray) CHECK(v == q[0], "%s: pixel (%d,%d) is %g, the file holds %g", wh.c_str(), x, y, v, q[0]);
                        else CHECK(std::fabs(v - luma(q[0], q[1], q[2])) <= gtol, "%s: pixel (%d,%d) is %g, luminance of (%g,%g,%g) is %.3f", wh.c_str(), x, y, v, q[0], q[1], q[2], luma(q[0], q[1], q[2]));
                } else for (int c = 0; c < 4; ++c) {
                        double v = get(p, x, y, c);
                        if (c == 3 && any_alpha && v == 255) continue;
                        CHECK(v == q[c], "%s: pixel (%d,%d) channel %d is %g, the file holds %g", wh.c_str(), x, y, c, v, q[c]);
                }
        }
}
static Mod gen_img(Gen &g)
{
        bool big = g.b(0.02);
        return gen_mod(g, 1, big ? 700 : 60, 1, big ? 300 : 60, g.b() ? 4 : 1, false);
}
static void reload(Gen &g, const Mod &m, const std::string &fn, Fmt f, bool alpha)
{
        NXImageLoadMode mode = MODES[g.u(0, 2)];
        Holder q(load_any(g, fn, f, mode, brief(m) + " saved as " + fn));
        expect(q, m.w, m.h, m.nc == 1, mode, [&](int x, int y) -> std::array<double, 4> {
                if (m.nc == 1) return {m.at(x, y), m.at(x, y), m.at(x, y), 255};
                return {m.at(x, y, 0), m.at(x, y, 1), m.at(x, y, 2), alpha ? m.at(x, y, 3) : 255}; }, 1.01, brief(m) + " saved as " + fn);
}

FACET(pnm_roundtrip, 1.0, "random 8-bit gray/RGBA image of any size and row stride saved under a PGM/PPM name through one of five interfaces and loaded in one of three modes into a fresh or used image: same size, colour channels equal, alpha 255, gray = luminance within 1; nontrivial: more than one row and padded or coloured")
{
        Mod m = gen_img(g); int st = gen_stride(g, m); Holder p(make(m, st));
        std::string fn = file_name(g, PNM);
        g.note("%s stride %d -> %s", brief(m).c_str(), st, fn.substr(fn.rfind('/')).c_str());
        save_any(g, p, fn, PNM); check_same(p, m, "saved image");
        reload(g, m, fn, PNM, false);
        g.nontrivial(m.h > 1 && (st > 0 || m.nc == 4));
}
FACET(png_roundtrip, 1.0, "the same through PNG: all channels including alpha equal")
{
        Mod m = gen_img(g); int st = gen_stride(g, m); Holder p(make(m, st));
        std::string fn = file_name(g, PNG);
        g.note("%s stride %d", brief(m).c_str(), st);
        save_any(g, p, fn, PNG); check_same(p, m, "saved image");
        reload(g, m, fn, PNG, true);
        g.nontrivial(m.h > 1 && (st > 0 || m.nc == 4));
}
FACET(jpeg_save, 1.0, "random image saved as JPEG; the file, decoded independently, has the same size and channels and pixels close to those saved (gray within 8; colour within 8 of an independent quality-100 encoding); nontrivial: more than 8x8")
{
        Mod m = gen_img(g); int st = gen_stride(g, m); Holder p(make(m, st));
        std::string fn = file_name(g, JPEG);
        g.note("%s stride %d", brief(m).c_str(), st);
        save_any(g, p, fn, JPEG); check_same(p, m, "saved image");
        JpegDec d = jpeg_decode(slurp(fn), 0);
        CHECK(d.ok && d.warn == 0, "%s saved as JPEG cannot be decoded", brief(m).c_str());
        CHECK(d.w == m.w && d.h == m.h && d.nc == (m.nc == 1 ? 1 : 3), "JPEG of %s holds %dx%dx%d", brief(m).c_str(), d.w, d.h, d.nc);
        JpegSpec q; q.w = m.w; q.h = m.h; q.nc = d.nc; q.quality = 100; q.hs = q.vs = 2; q.s.resize((size_t)m.w * m.h * d.nc);
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int c = 0; c < d.nc; ++c) q.s[((size_t)y * m.w + x) * d.nc + c] = (uchar)m.at(x, y, c);
        JpegDec r; if (m.nc == 4) r = jpeg_decode(jpeg_encode(q), 0);
        for (size_t k = 0; k < q.s.size(); ++k) {
                double e = m.nc == 1 ? q.s[k] : r.s[k];
                CHECK(std::fabs(d.s[k] - e) <= 8, "JPEG of %s: sample %zu is %d, expected about %g", brief(m).c_str(), k, d.s[k], e);
        }
        // and the library reads back what the file holds
        NXImageLoadMode mode = MODES[g.u(0, 2)];
        Holder l(load_any(g, fn, JPEG, mode, "saved JPEG"));
        JpegDec dg = mode == NX_IMAGE_LOAD_GRAYSCALE && m.nc == 4 ? jpeg_decode(slurp(fn), 1) : d;
        expect(l, m.w, m.h, dg.nc == 1, mode, [&](int x, int y) -> std::array<double, 4> { const uchar *s = &dg.s[((size_t)y * m.w + x) * dg.nc]; return {(double)s[0], (double)s[dg.nc == 1 ? 0 : 1], (double)s[dg.nc == 1 ? 0 : 2], 255}; }, 0, "saved JPEG");
        g.nontrivial(m.w > 8 && m.h > 8);
}
FACET(png_foreign, 1.5, "PNG written by an independent encoder: gray 1/2/4/8/16, gray+alpha, RGB 8/16, palette 1/2/4/8, RGBA 8/16, with or without interlacing and transparency; loaded pixels equal those encoded (16 bit: high byte); nontrivial: more than 2x2")
{
        PngSpec q = gen_png(g); std::string fn = file_name(g, PNG);
        g.note("%s", q.str().c_str());
        spit(fn, png_encode(q));
        NXImageLoadMode mode = MODES[g.u(0, 2)];
        Holder p(load_any(g, fn, PNG, mode, q.str()));
        expect(p, q.w, q.h, q.gray(), mode, [&](int x, int y) -> std::array<double, 4> { auto v = q.px(x, y); return {(double)v[0], (double)v[1], (double)v[2], (double)v[3]}; }, q.depth == 16 ? 2.01 : 1.01, q.str(), q.color == PNG_COLOR_TYPE_GRAY_ALPHA);
        g.nontrivial(q.w > 2 && q.h > 2);
}
FACET(jpeg_foreign, 1.0, "JPEG written by an independent encoder (gray or colour, any quality, subsampling, progressive, restart intervals, RGB colour space): loaded pixels equal an independent decoding; nontrivial: more than 2x2")
{
        JpegSpec q = gen_jpeg(g); std::string d = jpeg_encode(q), fn = file_name(g, JPEG);
        g.note("JPEG %dx%dx%d quality %d progressive %d rgb %d sampling %dx%d restart %d", q.w, q.h, q.nc, q.quality, q.progressive, q.rgbspace, q.hs, q.vs, q.restart);
        spit(fn, d);
        NXImageLoadMode mode = MODES[g.u(0, 2)];
        JpegDec r = jpeg_decode(d, mode == NX_IMAGE_LOAD_GRAYSCALE ? 1 : mode == NX_IMAGE_LOAD_RGBA ? 3 : 0);
        CHECK(r.ok, "harness: own JPEG not decodable");
        Holder p(load_any(g, fn, JPEG, mode, "JPEG"));
        expect(p, q.w, q.h, r.nc == 1, mode, [&](int x, int y) -> std::array<double, 4> { const uchar *s = &r.s[((size_t)y * q.w + x) * r.nc]; return {(double)s[0], (double)s[r.nc == 1 ? 0 : 1], (double)s[r.nc == 1 ? 0 : 2], 255}; }, 0, "JPEG");
        g.nontrivial(q.w > 2 && q.h > 2);
}
FACET(pnm_foreign, 1.0, "PGM/PPM written independently with any white space and comments between the header fields, and any pixel bytes (including bytes that look like white space or digits): loaded pixels equal those encoded; nontrivial: has a comment or unusual separator")
{
        int w = gen_dim(g, 1, 40), h = gen_dim(g, 1, 40), nc = g.b() ? 3 : 1; Rng r{g.bits64()};
        std::vector<uchar> s((size_t)w * h * nc); int k = (int)g.u(0, 2);
        for (auto &v : s) v = k == 0 ? r() : k == 1 ? "\n \t\r0#5"[r() % 7] : (uchar)(r() % 3 * 127);
        std::string d = pnm_encode(w, h, nc, s, 255, g.b(0.85) ? &g : nullptr), fn = file_name(g, PNM);
        g.note("%s", show(d.substr(0, 60)).c_str());
        spit(fn, d);
        NXImageLoadMode mode = MODES[g.u(0, 2)];
        std::string what = strf("PNM with header %s", show(d.substr(0, d.size() - s.size())).c_str());
        Holder p(load_any(g, fn, PNM, mode, what));
        expect(p, w, h, nc == 1, mode, [&](int x, int y) -> std::array<double, 4> { const uchar *q = &s[((size_t)y * w + x) * nc]; return {(double)q[0], (double)q[nc == 1 ? 0 : 1], (double)q[nc == 1 ? 0 : 2], 255}; }, 1.01, what);
        g.nontrivial(d.size() - s.size() > 12);
}
FACET(format_names, 0.3, "file formats: recognised from the extension (listed spellings, last dot only) and from the first bytes; a file loads by its contents whatever its name, and an unknown extension is saved as PNM; nontrivial: always")
{
        struct E { const char *e; NXImageFileFormat f; };
        static const std::vector<E> es = {{".pgm", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".PGM", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".ppm", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".PPM", NX_IMAGE_FILE_FORMAT_PNM_BINARY},
                {".jpg", NX_IMAGE_FILE_FORMAT_JPEG}, {".jpeg", NX_IMAGE_FILE_FORMAT_JPEG}, {".JPG", NX_IMAGE_FILE_FORMAT_JPEG}, {".JPEG", NX_IMAGE_FILE_FORMAT_JPEG}, {".png", NX_IMAGE_FILE_FORMAT_PNG}, {".PNG", NX_IMAGE_FILE_FORMAT_PNG},
                {"", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".bmp", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".pngx", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".jp", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".tif", NX_IMAGE_FILE_FORMAT_UNKNOWN}};
        E e = g.pick(es);
        std::string stem = g.pick(std::vector<std::string>{"image", "a.png", "b.pgm.x", "jpg", "c.jpeg"});
        if (std::string(e.e).empty()) stem = g.pick(std::vector<std::string>{"image", "png", "jpg"});
        std::string name = stem + e.e; g.note("%s", name.c_str());
        CHECK(nx_image_file_format_from_filename(name.c_str()) == e.f, "%s has format %d, expected %d", name.c_str(), nx_image_file_format_from_filename(name.c_str()), e.f);
        Mod m = gen_mod(g, 1, 12, 1, 12, g.b() ? 4 : 1, false); Holder p(make(m));
        std::string fn = scratch_file("u_" + name);
        CHECK(!fatal([&] { CHECK(nx_image_save(p, fn.c_str()) == NX_OK, "saving to %s failed", name.c_str()); }), "saving to %s ended in a fatal error", name.c_str());
        NXImageFileFormat wf = e.f == NX_IMAGE_FILE_FORMAT_UNKNOWN ? NX_IMAGE_FILE_FORMAT_PNM_BINARY : e.f, hf = nx_image_file_format_from_header(fn.c_str());
        CHECK(hf == wf, "%s was saved in format %d, expected %d", name.c_str(), hf, wf);
        // contents decide on loading
        std::string fn2 = scratch_file("renamed" + std::string(g.pick(es).e)); spit(fn2, slurp(fn));
        Holder q(gen_load_target(g));
        CHECK(nx_image_load(q, fn2.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK, "%s renamed to %s does not load", name.c_str(), fn2.c_str());
        if (wf == NX_IMAGE_FILE_FORMAT_JPEG) check_shape(q, m.w, m.h, m.nc, false, name.c_str());
        else { Mod x = m; if (m.nc == 4 && wf != NX_IMAGE_FILE_FORMAT_PNG) for (int y = 0; y < m.h; ++y) for (int c = 0; c < m.w; ++c) x.at(c, y, 3) = 255; check_same(q, x, name.c_str()); }
        g.nontrivial();
}
