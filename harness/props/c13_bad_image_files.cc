// C13: damaged or truncated image files and write failures are reported, never accepted.
#include <array>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <csignal>
#include "../imgio.hpp"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_image_io_pnm.h"
#include "virg/nexus/nx_image_io_png.h"
#include "virg/nexus/nx_image_io_jpeg.h"
#include "virg/nexus/vg_image.hpp"
using namespace im;
using namespace imf;

static const NXImageLoadMode MODES[] = {NX_IMAGE_LOAD_AS_IS, NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA};
struct File { int f; std::string d; int w, h; };       // f: 0 PNM 1 PNG 2 JPEG
static File gen_file(Gen &g, int f, int maxd = 24)
{
        File o; o.f = f;
        if (f == 0) {
                int nc = g.b() ? 3 : 1; o.w = gen_dim(g, 1, maxd); o.h = gen_dim(g, 1, maxd); Rng r{g.bits64()};
                std::vector<uchar> s((size_t)o.w * o.h * nc); for (auto &v : s) v = r();
                o.d = pnm_encode(o.w, o.h, nc, s, 255, g.b(0.6) ? &g : nullptr);
        } else if (f == 1) { PngSpec q = gen_png(g, maxd); o.w = q.w; o.h = q.h; o.d = png_encode(q); }
        else { JpegSpec q = gen_jpeg(g, maxd); o.w = q.w; o.h = q.h; o.d = jpeg_encode(q); }
        return o;
}
// every pixel addressable, and the object can be used again after a failed load
static void usable(Gen &g, NXImage *p, const char *what)
{
        CHECK(p->width >= 0 && p->height >= 0, "%s: image size is %dx%d", what, p->width, p->height);
        if (p->width > 0 && p->height > 0) {
                check_shape(p, p->width, p->height, p->n_channels == 4 ? 4 : 1, p->dtype == NX_IMAGE_FLOAT32, what);
                double s = 0; for (int c = 0; c < p->n_channels; ++c) s += get(p, 0, 0, c) + get(p, p->width - 1, p->height - 1, c);
                set(p, p->width - 1, p->height - 1, p->n_channels - 1, 7); (void)s;
        }
        Mod m = gen_mod(g, 1, 9, 1, 9, g.b() ? 4 : 1, false); Holder q(make(m));
        std::string fn = scratch_file("again.png");
        CHECK(nx_image_save(q, fn.c_str()) == NX_OK && nx_image_load(p, fn.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK, "%s: the image object cannot be loaded into afterwards", what);
        check_same(p, m, what);
}
enum Out { OK, REPORTED, FATAL };
static Out try_load(Gen &g, NXImage *p, const std::string &fn, int f, NXImageLoadMode mode, bool &fatal_if)
{
        bool bad = false; int how = (int)g.u(0, 5); fatal_if = how % 2 == 1; using virg::nexus::VGImage; auto vm = mode == NX_IMAGE_LOAD_AS_IS ? VGImage::LOAD_AS_IS : mode == NX_IMAGE_LOAD_GRAYSCALE ? VGImage::LOAD_GRAYSCALE : VGImage::LOAD_RGBA;
        bool ft = fatal([&] {
                switch (how) {
                case 0: bad = nx_image_load(p, fn.c_str(), mode) != NX_OK; break;
                case 1: nx_image_xload(p, fn.c_str(), mode); break;
                case 4: { VGImage v(p, false); bad = !v.load(fn, vm); break; }
                case 5: { VGImage v(p, false); v.xload(fn, vm); break; }
                case 2: bad = (f == 0 ? nx_image_load_pnm : f == 1 ? nx_image_load_png : nx_image_load_jpeg)(p, fn.c_str(), mode) != NX_OK; break;
                default: (f == 0 ? nx_image_xload_pnm : f == 1 ? nx_image_xload_png : nx_image_xload_jpeg)(p, fn.c_str(), mode); break;
                }
        });
        return ft ? FATAL : bad ? REPORTED : OK;
}
static void verdict(Out o, bool fatal_if, bool must_fail, const std::string &what)
{
        if (must_fail) CHECK(o != OK, "%s was reported as loaded", what.c_str());
        CHECK(fatal_if || o != FATAL, "%s: the non-fatal interface ended in a fatal error", what.c_str());
}
FACET(truncated, 1.5, "valid PNM/PNG/JPEG file cut at any byte (JPEG: at least 3 bytes missing, so that pixel data are cut), loaded through fatal and non-fatal interfaces in any mode: never reported as loaded, no crash, no memory lost, object usable afterwards; nontrivial: cut inside the pixel data")
{
        int f = (int)g.u(0, 2); File o = gen_file(g, f);
        size_t miss = f == 2 ? 3 : 1; if (o.d.size() <= miss) g.discard();
        size_t keep = g.b(0.3) ? o.d.size() - std::min<size_t>(o.d.size(), miss + g.u(0, 12)) : (size_t)g.u(0, o.d.size() - miss);
        std::string fn = scratch_file("cut.img"); spit(fn, o.d.substr(0, keep));
        g.note("format %d %dx%d, %zu of %zu bytes", f, o.w, o.h, keep, o.d.size());
        Holder p(gen_load_target(g)); bool fi; NXImageLoadMode m = MODES[g.u(0, 2)];
        Out r = try_load(g, p, fn, f, m, fi);
        std::string what = strf("a %s file cut after %zu of %zu bytes", f == 0 ? "PNM" : f == 1 ? "PNG" : "JPEG", keep, o.d.size());
        verdict(r, fi, true, what);
        usable(g, p, what.c_str());
        g.nontrivial(keep > 40);
}
FACET(closed_early, 0.5, "JPEG file whose scan data are cut anywhere and then properly closed with an end marker, where the reference decoder says that data are missing: never reported as loaded; nontrivial: data missing")
{
        JpegSpec q = gen_jpeg(g, 40); q.progressive = false; q.restart = 0; std::string d = jpeg_encode(q);
        size_t sos = d.rfind("\xff\xda"); if (sos == std::string::npos || sos + 16 >= d.size()) g.discard();
        size_t keep = g.u(sos + 14, d.size() - 3); d = d.substr(0, keep); if (d.back() == '\xff') d.pop_back(); d += "\xff\xd9";
        JpegDec ref = jpeg_decode(d, 0); if (!ref.ok || !ref.cut) g.discard();
        std::string fn = scratch_file("closed.jpg"); spit(fn, d); g.note("%dx%d, %zu bytes", q.w, q.h, d.size());
        Holder p(gen_load_target(g)); bool fi; Out r = try_load(g, p, fn, 2, MODES[g.u(0, 2)], fi);
        verdict(r, fi, true, "a JPEG file with missing pixel data before its end marker"); usable(g, p, "closed early"); g.nontrivial(true);
}
FACET(truncation_leak, 0.5, "the same through the non-fatal interfaces, with the heap measured: a failed load returns all memory it took; nontrivial: failed inside the pixel data")
{
        int f = (int)g.u(0, 2); File o = gen_file(g, f, 40);
        size_t keep = o.d.size() > 3 ? (size_t)g.u(0, o.d.size() - 3) : 0;
        std::string fn = scratch_file("leak.img"); spit(fn, o.d.substr(0, keep)); NXImageLoadMode m = MODES[g.u(0, 2)];
        g.note("format %d %dx%d, %zu of %zu bytes", f, o.w, o.h, keep, o.d.size());
        nx_image_load_png(Holder(nx_image_alloc()), fn.c_str(), m);
        size_t h0 = c_heap_bytes();
        { NXImage *p = nx_image_alloc(); nx_image_load(p, fn.c_str(), m); (f == 0 ? nx_image_load_pnm : f == 1 ? nx_image_load_png : nx_image_load_jpeg)(p, fn.c_str(), m); nx_image_free(p); }
        size_t h1 = c_heap_bytes();
        CHECK(h1 == h0, "failed loads of a %s file cut after %zu of %zu bytes keep %zd bytes allocated", f == 0 ? "PNM" : f == 1 ? "PNG" : "JPEG", keep, o.d.size(), (ssize_t)(h1 - h0));
        g.nontrivial(keep > 40);
}
static bool huge_dims(int f, const std::string &d)      // would a decoder following the header need very much memory
{
        double w = 0, h = 0;
        if (f == 1 && d.size() > 24) { auto u = [&](size_t i) { return (double)((uchar)d[i] * 16777216.0 + (uchar)d[i+1] * 65536.0 + (uchar)d[i+2] * 256.0 + (uchar)d[i+3]); }; w = u(16); h = u(20); }
        if (f == 2) for (size_t i = 0; i + 9 < d.size(); ++i) if ((uchar)d[i] == 0xFF && (uchar)d[i+1] >= 0xC0 && (uchar)d[i+1] <= 0xCF) { h = std::max(h, (uchar)d[i+5] * 256.0 + (uchar)d[i+6]); w = std::max(w, (uchar)d[i+7] * 256.0 + (uchar)d[i+8]); }
        return w * h > 4e6;
}
FACET(corrupted, 2.0, "valid PNM/PNG/JPEG file with random bytes overwritten, deleted, inserted, swapped or chunks duplicated, loaded in every way: either reported, or a complete addressable image; a PNG with a damaged critical chunk is never accepted; nontrivial: signature intact")
{
        int f = (int)g.u(0, 2); File o = gen_file(g, f); std::string d = o.d;
        int n = (int)g.u(1, 6);
        for (int k = 0; k < n; ++k) {
                size_t i = g.b(0.5) ? g.u(0, std::min<size_t>(d.size(), 64) - 1) : g.u(0, d.size() - 1);
                switch (g.u(0, 5)) {
                case 0: d[i] = (char)g.u(0, 255); break;
                case 1: d[i] ^= 1 << g.u(0, 7); break;
                case 2: d.erase(i, g.u(1, 8)); break;
                case 3: d.insert(i, std::string(g.u(1, 6), (char)g.u(0, 255))); break;
                case 4: d += d.substr(i, g.u(1, 60)); break;
                default: d[i] = g.pick(std::vector<char>{0, '\xff', '\n', '0', '9', '-', '\x7f', '\x80'});
                }
                if (d.empty()) d = "P";
        }
        if (huge_dims(f, d)) g.discard();
        if (f == 0) { int a = 0, b = 0, c = 0; char x; if (sscanf(d.c_str(), "P%c %d %d %d", &x, &a, &b, &c) >= 3 && (double)a * b > 4e6) g.discard(); }
        std::string fn = scratch_file("bad.img"); spit(fn, d);
        g.note("format %d, %d edits", f, n);
        Holder p(gen_load_target(g)); bool fi; NXImageLoadMode m = MODES[g.u(0, 2)];
        Out r = try_load(g, p, fn, f, m, fi);
        std::string what = strf("a %s file with %d random edits", f == 0 ? "PNM" : f == 1 ? "PNG" : "JPEG", n);
        verdict(r, fi, false, what);
        if (r == OK) { CHECK(p->width > 0 && p->height > 0 && p->data.v, "%s loaded as an empty image", what.c_str()); Mod all = model(p); CHECK((int)all.v.size() == p->width * p->height * p->n_channels, "size"); }
        usable(g, p, what.c_str());
        g.nontrivial(d.size() > 8 && d.substr(0, 2) == o.d.substr(0, 2));
}
FACET(png_bitflip, 0.6, "PNG with one bit flipped inside a critical chunk (length, type, data or CRC of IHDR, PLTE, IDAT, IEND): never reported as loaded; nontrivial: always")
{
        PngSpec q = gen_png(g, 24); q.trns = q.color == PNG_COLOR_TYPE_PALETTE ? false : q.trns; std::string d = png_encode(q);
        // byte ranges of critical chunks
        std::vector<size_t> at; size_t i = 8;
        while (i + 12 <= d.size()) { size_t n = ((uchar)d[i] << 24) | ((uchar)d[i+1] << 16) | ((uchar)d[i+2] << 8) | (uchar)d[i+3]; std::string t = d.substr(i + 4, 4);
                if (t == "IDAT" || t == "IHDR") for (size_t k = i + 8; k < i + 12 + n; ++k) at.push_back(k);
                i += 12 + n; }
        size_t k = g.pick(at); d[k] ^= 1 << g.u(0, 7);
        if (huge_dims(1, d)) g.discard();
        std::string fn = scratch_file("flip.png"); spit(fn, d); g.note("%s byte %zu", q.str().c_str(), k);
        Holder p(gen_load_target(g)); bool fi; Out r = try_load(g, p, fn, 1, MODES[g.u(0, 2)], fi);
        verdict(r, fi, true, strf("%s with a bit flipped in byte %zu", q.str().c_str(), k));
        usable(g, p, "flipped PNG"); g.nontrivial();
}
FACET(pnm_headers, 1.0, "PNM headers with impossible attributes (zero, negative, huge, missing or non-numeric size, 16-bit or zero maximum or one not set off from the pixels, unsupported magic numbers, no pixel data): always reported; nontrivial: always")
{
        static const std::vector<std::string> bad = {"0", "-1", "-5", "99999999999999999999", "2147483647", "65536000", "x", "", "1x", "0x10", "-2147483648"};
        std::string w = std::to_string(g.u(1, 5)), h = std::to_string(g.u(1, 5)), mx = "255", magic = g.b() ? "P5" : "P6";
        switch (g.u(0, 5)) {
        case 5: mx = g.pick(std::vector<std::string>{"255x", "255.", "200-", "1,", "255\xf0"}); break;    // pixels not set off by white space
        case 0: w = g.pick(bad); break;
        case 1: h = g.pick(bad); break;
        case 2: mx = g.pick(std::vector<std::string>{"0", "-1", "65535", "256", "x", "", "1000000"}); break;
        case 3: magic = g.pick(std::vector<std::string>{"P1", "P2", "P3", "P4", "P7", "P8", "p5", "Q6", "PF", "5P"}); break;
        default: w = g.pick(bad); h = g.pick(bad); break;
        }
        std::string d = magic + "\n" + w + " " + h + "\n" + mx + "\n" + std::string(g.u(0, 80), (char)g.u(0, 255));
        // an empty field shifts the others: the pixel bytes then make up the rest of the header; keep those unreadable
        if (w.empty() || h.empty() || mx.empty()) d = magic + "\n" + w + " " + h + "\n" + mx + "\n\xf0\xf0\xf0\xf0";
        std::string fn = scratch_file("head.pgm"); spit(fn, d); g.note("%s", show(d.substr(0, 40)).c_str());
        Holder p(gen_load_target(g)); bool fi; Out r = try_load(g, p, fn, 0, MODES[g.u(0, 2)], fi);
        verdict(r, fi, true, "a PNM file starting with " + show(d.substr(0, 30)));
        usable(g, p, "PNM header"); g.nontrivial();
}
FACET(wrong_kind, 0.6, "missing files, directories, empty and tiny files, text, another format given to a format-specific loader, and CMYK JPEG files: reported, no crash; nontrivial: always")
{
        int k = (int)g.u(0, 4); int f = (int)g.u(0, 2); std::string fn = scratch_file("kind.img"); bool must = true;
        if (k == 0) { fn = scratch_file("missing") + "/none.png"; }
        else if (k == 1) { fn = scratch_file("dir.png"); mkdir(fn.c_str(), 0777); }
        else if (k == 2) spit(fn, g.pick(std::vector<std::string>{"", "P", "P5", "\xff\xd8", "\x89PNG", "\x89PNG\r\n\x1a\n", "hello world\n", "P6\n", "P5\n3", "P5 3 3", "P5 3 3 255", "\xff\xd8\xff\xd9"}));
        else if (k == 3) { int other = (f + (int)g.u(1, 2)) % 3; spit(fn, gen_file(g, other).d);
                Holder p(gen_load_target(g)); bool bad = false;
                bool ft = fatal([&] { bad = (f == 0 ? nx_image_load_pnm : f == 1 ? nx_image_load_png : nx_image_load_jpeg)(p, fn.c_str(), MODES[g.u(0, 2)]) != NX_OK; });
                CHECK(bad && !ft, "loader %d given a file of format %d: %s", f, other, ft ? "fatal error" : "reported as loaded");
                ft = fatal([&] { (f == 0 ? nx_image_xload_pnm : f == 1 ? nx_image_xload_png : nx_image_xload_jpeg)(p, fn.c_str(), MODES[g.u(0, 2)]); });
                CHECK(ft, "fatal loader %d given a file of format %d: accepted", f, other);
                usable(g, p, "other format"); g.note("loader %d, file %d", f, other); g.nontrivial(); return; }
        else { JpegSpec q = gen_jpeg(g, 24); q.nc = 4; q.rgbspace = false; q.s.assign((size_t)q.w * q.h * 4, (uchar)g.u(0, 255)); spit(fn, jpeg_encode(q)); f = 2; must = false; }
        g.note("kind %d format %d", k, f);
        Holder p(gen_load_target(g)); bool fi; Out r = try_load(g, p, fn, f, MODES[g.u(0, 2)], fi);
        verdict(r, fi, must, strf("unreadable file (kind %d) given as format %d", k, f));
        usable(g, p, "unreadable file"); g.nontrivial();
}
FACET(write_failure, 1.0, "saving to a full device, to a file limited to any number of bytes below its full size, to a missing directory or a directory: reported by the non-fatal and fatal by the fatal interface, no memory lost; an unlimited save afterwards succeeds; nontrivial: some bytes could be written")
{
        static const char *ext[] = {"pgm", "png", "jpg"}; int f = (int)g.u(0, 2);
        Mod m = gen_mod(g, 1, g.b(0.1) ? 300 : 90, 1, 90, g.b() ? 4 : 1, false); int st = gen_stride(g, m); Holder p(make(m, st));
        std::string ok = scratch_file(std::string("full.") + ext[f]); 
        CHECK(nx_image_save(p, ok.c_str()) == NX_OK, "saving failed");
        size_t size = slurp(ok).size();
        int k = (int)g.u(0, 3); size_t lim = 0;
        std::string fn;
        if (k == 0) { fn = scratch_file(std::string("dev.") + ext[f]); unlink(fn.c_str()); if (symlink("/dev/full", fn.c_str())) g.discard(); }
        else if (k == 1) { fn = scratch_file("nodir") + "/x." + ext[f]; }
        else if (k == 2) { fn = scratch_file(std::string("d.") + ext[f]); mkdir(fn.c_str(), 0777); }
        else { fn = scratch_file(std::string("lim.") + ext[f]); unlink(fn.c_str()); lim = g.b(0.4) ? size - g.u(1, std::min<size_t>(size, 20)) : (size_t)g.u(0, size - 1); }
        bool xi = g.b(); bool bad = false, gen = g.b(), vg = gen && g.b(0.4); ssize_t leak = 0;
        auto save = [&] {
                if (vg) { virg::nexus::VGImage v(const_cast<NXImage *>((const NXImage *)p), false); if (xi) v.xsave(fn); else bad = !v.save(fn); return; }
                if (xi) { if (gen) nx_image_xsave(p, fn.c_str()); else (f == 0 ? nx_image_xsave_pnm : f == 1 ? nx_image_xsave_png : nx_image_xsave_jpeg)(p, fn.c_str()); }
                else if (gen) bad = nx_image_save(p, fn.c_str()) != NX_OK; else bad = (f == 0 ? nx_image_save_pnm : f == 1 ? nx_image_save_png : nx_image_save_jpeg)(p, fn.c_str()) != NX_OK;
        };
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit old, now; getrlimit(RLIMIT_FSIZE, &old); now = old;
        if (k == 3) { now.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &now); }
        size_t h0 = c_heap_bytes();
        bool ft = fatal(save);
        leak = (ssize_t)(c_heap_bytes() - h0);
        setrlimit(RLIMIT_FSIZE, &old);
        g.note("%s to .%s, kind %d, limit %zu of %zu", brief(m).c_str(), ext[f], k, lim, size);
        CHECK(xi ? ft : (bad && !ft), "saving a %s image as %s (kind %d, room for %zu of %zu bytes) was %s by the %s interface", brief(m).c_str(), ext[f], k, lim, size, ft ? "fatal" : "accepted", xi ? "fatal" : "non-fatal");
        if (!xi) CHECK(leak == 0, "failed save of a %s image as %s (kind %d) keeps %zd bytes", brief(m).c_str(), ext[f], k, leak);
        std::string fn2 = scratch_file(std::string("after.") + ext[f]);
        CHECK(nx_image_save(p, fn2.c_str()) == NX_OK && slurp(fn2) == slurp(ok), "saving after a failed save differs");
        check_same(p, m, "saved image");
        g.nontrivial(k == 3 && lim > 0);
}
FACET(oversized, 0.2, "PNG and JPEG headers announcing images whose pixel count does not fit the library's arithmetic, with little data: reported, no write outside the image; nontrivial: always")
{
        int f = (int)g.u(1, 2); std::string d; int w, h;
        if (f == 1) {
                w = g.pick(std::vector<int>{65536, 46341, 65537, 32768, 1000000, 131072, 16384}); h = g.pick(std::vector<int>{65537, 65536, 46341, 131073, 32769, 1000000, 262145});
                if (4.0 * w * h < 4.3e9) g.discard();
                PngSpec q = gen_png(g, 8); q.w = q.h = 8; q.interlace = false; q.s.assign(64 * q.nch(), 0); d = png_encode(q);
                auto put = [&](size_t i, unsigned v) { d[i] = v >> 24; d[i+1] = v >> 16; d[i+2] = v >> 8; d[i+3] = v; };
                put(16, w); put(20, h);
                // header CRC, and compressed zero rows long enough to be decoded
                unsigned c = 0xffffffffu; for (size_t i = 12; i < 29; ++i) { c ^= (uchar)d[i]; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; }
                put(29, c ^ 0xffffffffu);
        } else {
                w = g.pick(std::vector<int>{65500, 46341, 65000, 50000}); h = g.pick(std::vector<int>{65500, 46341, 16400, 32800});
                if (4.0 * w * h < 4.2e9) g.discard();
                JpegSpec q = gen_jpeg(g, 8); q.nc = 3; q.progressive = false; q.s.assign((size_t)q.w * q.h * 3, 9); d = jpeg_encode(q);
                size_t i = d.find("\xff\xc0"); if (i == std::string::npos) g.discard();
                d[i+5] = h >> 8; d[i+6] = h; d[i+7] = w >> 8; d[i+8] = w;
        }
        std::string fn = scratch_file("big.img"); spit(fn, d); g.note("format %d %dx%d", f, w, h);
        Holder p(gen_load_target(g)); bool fi; Out r = try_load(g, p, fn, f, f == 2 ? NX_IMAGE_LOAD_RGBA : MODES[g.u(0, 2)], fi);
        verdict(r, fi, true, strf("a file announcing %dx%d pixels", w, h));
        usable(g, p, "oversized file"); g.nontrivial();
}
