// C11: image buffers under histories of resize, wrap, copy, swap, convert, release.
#include "img.hpp"
#include "virg/nexus/vg_image.hpp"
using namespace im;
using virg::nexus::VGImage;

struct I { NXImage *p; Mod m; int stride; };       // stride: required value, or -1: at least the row length
struct Ext { uint8_t *p; size_t n; std::vector<uint8_t> snap; };

static void rgba_to_gray(Mod &m)
{
        Mod r; r.w = m.w; r.h = m.h; r.nc = 1; r.f32 = m.f32; r.v.resize((size_t)m.w * m.h);
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) r.at(x, y) = m.at(x, y, 0) * 0.3 + m.at(x, y, 1) * 0.59 + m.at(x, y, 2) * 0.11;
        m = r;
}
static void gray_to_rgba(Mod &m)
{
        Mod r; r.w = m.w; r.h = m.h; r.nc = 4; r.f32 = m.f32; r.v.resize((size_t)m.w * m.h * 4);
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { for (int c = 0; c < 3; ++c) r.at(x, y, c) = m.at(x, y); r.at(x, y, 3) = m.f32 ? 1.0 : 255.0; }
        m = r;
}
static void check_img(const I &i, const char *w)
{
        check_same(i.p, i.m, w);
        if (i.stride >= 0) CHECK(i.p->row_stride == i.stride, "%s: row stride %d, expected %d", w, i.p->row_stride, i.stride);
        size_t sz = (size_t)i.p->row_stride * i.p->height * (i.m.f32 ? 4 : 1);
        if (sz) { volatile uint8_t t = ((uint8_t *)i.p->data.v)[sz - 1]; (void)t; }
}
static void fill_img(Gen &g, I &i)
{
        i.m.w = i.p->width; i.m.h = i.p->height; i.m.nc = i.p->n_channels; i.m.f32 = i.p->dtype == NX_IMAGE_FLOAT32; i.m.v.assign((size_t)i.m.w * i.m.h * i.m.nc, 0);
        fill_pixels(g, i.m);
        for (int y = 0; y < i.m.h; ++y) for (int x = 0; x < i.m.w; ++x) for (int c = 0; c < i.m.nc; ++c) set(i.p, x, y, c, i.m.at(x, y, c));
}
// what converting makes of m (8-bit results: read back from the image after checking them)
static void after_convert(I &i, const Mod &want, const char *w)
{
        check_shape(i.p, want.w, want.h, want.nc, want.f32, w);
        for (int y = 0; y < want.h; ++y) for (int x = 0; x < want.w; ++x) for (int c = 0; c < want.nc; ++c) {
                double a = get(i.p, x, y, c), b = want.at(x, y, c);
                bool ok = want.f32 ? std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b)) : trunc_ok(a, b);
                CHECK(ok, "%s: pixel (%d,%d) channel %d is %g, expected %g", w, x, y, c, a, b);
        }
        i.m = model(i.p);
}

FACET(history, 4, "2-4 images and 3-25 operations (resize with any size, stride, layout and element type, resize/new like another, wrap with and without ownership, copy into another or a new image, swap, convert channel layout or element type, zero, write, release, free) against pixel models; all images and wrapped buffers are compared after each. Non-trivial: at least 8 operations of which one is a copy, swap or wrap")
{
        size_t h0 = c_heap_bytes();
        {
        std::vector<I> A((size_t)g.u(2, 4)); std::vector<Ext> X; X.reserve(64);
        for (auto &i : A) {
                int k = (int)g.draw(6), w = gen_dim(g, 0, 20), h = gen_dim(g, 0, 20);
                bool f = g.b();
                NXImageDataType dt = f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR; i.stride = -1;
                switch (k) {
                case 0: i.p = nx_image_alloc(); w = h = 0; f = false; break;
                case 1: i.p = nx_image_new(w, h, NX_IMAGE_RGBA, dt); break;
                case 2: i.p = nx_image_new_gray(w, h, dt); break;
                case 3: i.p = nx_image_new_rgba(w, h, dt); break;
                case 4: i.p = f ? nx_image_new_gray_f32(w, h) : nx_image_new_gray_uc(w, h); break;
                case 5: i.p = f ? nx_image_new_rgba_f32(w, h) : nx_image_new_rgba_uc(w, h); break;
                default: i.p = nx_image_new(w, h, NX_IMAGE_GRAYSCALE, dt); break;
                }
                check_shape(i.p, w, h, k == 1 || k == 3 || k == 5 ? 4 : 1, f, "new image");
                fill_img(g, i);
        }
        int n = (int)g.u(3, 25), special = 0;
        for (int k = 0; k < n; ++k) {
                I &a = A[(size_t)g.u(0, (int64_t)A.size() - 1)], &b = A[(size_t)g.u(0, (int64_t)A.size() - 1)];
                const char *op = "?";
                switch (g.pick_idx({5, 1, 1, 3, 4, 1, 2, 3, 3, 1, 3, 1, 1})) {
                case 0: { op = "resize"; int w = gen_dim(g, 0, 24), h = gen_dim(g, 0, 24); bool same = g.b(0.2); if (same) { w = a.m.w; h = a.m.h; }
                        bool f = same ? a.m.f32 : g.b(); int nc = same ? a.m.nc : g.b(0.3) ? 4 : 1; int s = g.b() ? NX_IMAGE_STRIDE_DEFAULT : (int)g.u(0, w * nc + 20);
                        nx_image_resize(a.p, w, h, s, nc == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
                        check_shape(a.p, w, h, nc, f, op); a.stride = s >= w * nc ? s : -1; 
                        if (a.stride >= 0) CHECK(a.p->row_stride == s, "resize: row stride %d, expected %d", a.p->row_stride, s);
                        fill_img(g, a); break; }
                case 1: op = "resize_like"; if (&a == &b) continue; nx_image_resize_like(a.p, b.p); check_shape(a.p, b.m.w, b.m.h, b.m.nc, b.m.f32, op); a.stride = -1; fill_img(g, a); break;
                case 2: { op = "new_like"; if (&a == &b) continue; NXImage *q = nx_image_new_like(b.p); check_shape(q, b.m.w, b.m.h, b.m.nc, b.m.f32, op); nx_image_free(a.p); a.p = q; a.stride = -1; fill_img(g, a); break; }
                case 3: { op = "wrap"; ++special; bool own = g.b(), f = g.b(); int nc = g.b(0.3) ? 4 : 1, w = gen_dim(g, 1, 20), h = gen_dim(g, 1, 20), s = w * nc + (int)g.u(0, 9);
                        size_t nb = (size_t)s * h * (f ? 4 : 1); uint8_t *p = (uint8_t *)nx_xmalloc(nb); memset(p, 0x5A, nb);
                        nx_image_wrap(a.p, p, w, h, s, nc == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, own ? NX_TRUE : NX_FALSE);
                        CHECK(a.p->data.v == p, "wrapped image does not refer to the memory given"); check_shape(a.p, w, h, nc, f, op); a.stride = s; fill_img(g, a);
                        if (!own) X.push_back({p, nb, {}});
                        break; }
                case 4: op = "copy"; ++special; if (&a == &b) continue; nx_image_copy(a.p, b.p); CHECK(!a.p->data.v || a.p->data.v != b.p->data.v, "copy shares memory with its source"); a.m = b.m; a.stride = b.p->row_stride; break;
                case 5: { op = "copy0"; ++special; NXImage *q = nx_image_copy0(b.p); CHECK(!q->data.v || q->data.v != b.p->data.v, "copy0 shares memory with its source"); I t = {q, b.m, b.p->row_stride}; check_img(t, "copy0"); nx_image_free(a.p); a = t; break; }
                case 6: op = "swap"; ++special; if (&a == &b) continue; nx_image_swap(a.p, b.p); std::swap(a.m, b.m); std::swap(a.stride, b.stride); break;
                case 7: { op = "convert_type"; if (a.m.v.empty()) continue; bool rgba = g.b(); Mod w = a.m; if (rgba && w.nc == 1) gray_to_rgba(w); else if (!rgba && w.nc == 4) rgba_to_gray(w);
                        bool same = w.nc == a.m.nc; nx_image_convert_type(a.p, rgba ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE); if (!same) { a.stride = -1; after_convert(a, w, op); } break; }
                case 8: { op = "convert_dtype"; if (&a == &b || b.m.nc != 1 || b.m.v.empty()) continue; Mod w = b.m;
                        bool same = a.m.f32 == b.m.f32;
                        if (!same) { w.f32 = !w.f32; for (auto &v : w.v) v = w.f32 ? v / 255.0 : v * 255.0; }
                        nx_image_convert_dtype(a.p, b.p); a.stride = same ? b.p->row_stride : -1;
                        if (same) a.m = b.m; else after_convert(a, w, op);
                        break; }
                case 9: op = "set_zero"; nx_image_set_zero(a.p); for (auto &v : a.m.v) v = 0; break;
                case 10: op = "write"; fill_img(g, a); break;
                case 11: op = "release"; nx_image_release(a.p); a.m = Mod(); a.stride = -1; CHECK(a.p->data.v == NULL, "released image still has data"); break;
                default: op = "free"; nx_image_free(a.p); a.p = nx_image_alloc(); a.m = Mod(); a.stride = -1;
                }
                for (auto &x : X) {
                        bool used = false; for (auto &i : A) if (i.p->data.v == x.p) used = true;
                        if (used || x.snap.empty()) x.snap.assign(x.p, x.p + x.n);
                        else CHECK(memcmp(x.p, x.snap.data(), x.n) == 0, "%s: memory no image refers to any more was written to", op);
                }
                for (auto &i : A) check_img(i, op);
                g.note("%s %s", op, brief(a.m).c_str());
        }
        g.nontrivial(n >= 8 && special > 0);
        for (auto &i : A) nx_image_free(i.p);
        for (auto &x : X) { CHECK(memcmp(x.p, x.snap.data(), x.n) == 0, "freeing the images changed wrapped memory"); nx_free(x.p); }
        nx_image_free(NULL);
        }
        CHECK(c_heap_bytes() == h0, "%zd bytes of image memory not returned", (ssize_t)c_heap_bytes() - (ssize_t)h0);
}

FACET(cxx, 2, "2-3 C++ images and 3-15 operations (create, create_like, copy_of, clone, assignment, swap_with, convert, release, wrap of data or of a C image with and without ownership) against the same models; objects that share an image by assignment change together, clones do not. Non-trivial: at least one clone, swap or wrap")
{
        size_t h0 = c_heap_bytes();
        {
        struct V { VGImage v; std::shared_ptr<Mod> m; };
        std::vector<V> A((size_t)g.u(2, 3)); std::vector<NXImage *> ext; std::vector<uint8_t *> mem;
        for (auto &a : A) a.m = std::make_shared<Mod>();
        auto fill = [&](V &a) { I t = {a.v.nx_img(), Mod(), -1}; fill_img(g, t); *a.m = t.m; };
        int n = (int)g.u(3, 15), special = 0;
        for (int k = 0; k < n; ++k) {
                V &a = A[(size_t)g.u(0, (int64_t)A.size() - 1)], &b = A[(size_t)g.u(0, (int64_t)A.size() - 1)];
                const char *op = "?"; int w = gen_dim(g, 1, 16), h = gen_dim(g, 1, 16); bool f = g.b();
                VGImage::DataType dt = f ? VGImage::FLOAT32 : VGImage::UCHAR;
                switch (g.draw(10)) {
                case 0: { op = "create"; bool rgba = g.b(0.3); int s = g.b() ? VGImage::STRIDE_DEFAULT : w * (rgba ? 4 : 1) + (int)g.u(0, 5); a.v.create(w, h, s, rgba ? VGImage::RGBA : VGImage::GRAYSCALE, dt); check_shape(a.v.nx_img(), w, h, rgba ? 4 : 1, f, op); fill(a); break; }
                case 1: op = "create_gray"; a.v.create_gray(w, h, dt); check_shape(a.v.nx_img(), w, h, 1, f, op); fill(a); break;
                case 2: op = "create_rgba"; a.v.create_rgba(w, h, dt); check_shape(a.v.nx_img(), w, h, 4, f, op); fill(a); break;
                case 3: op = "create_like"; a.v.create_like(b.v); check_shape(a.v.nx_img(), b.m->w, b.m->h, b.m->nc, b.m->f32, op); CHECK(a.v.row_stride() == b.v.row_stride(), "an image created like one of row stride %d has row stride %d", (int)b.v.row_stride(), (int)a.v.row_stride()); fill(a); break;
                case 4: op = "copy_of"; if (a.m == b.m) continue; a.v.copy_of(b.v); *a.m = *b.m; break;
                case 5: { op = "clone"; ++special; VGImage c = b.v.clone(); check_same(c.nx_img(), *b.m, op); CHECK(c.nx_img() != b.v.nx_img(), "clone shares its image"); a.v = c; a.m = std::make_shared<Mod>(*b.m); break; }
                case 6: op = "assign"; a.v = b.v; a.m = b.m; break;
                case 7: op = "swap_with"; ++special; if (&a == &b) continue; a.v.swap_with(b.v); std::swap(a.m, b.m); break;
                case 8: { op = "convert"; if (a.m->v.empty()) continue; bool rgba = g.b(); if ((a.m->nc == 4) == rgba) continue; Mod t = *a.m; if (rgba) gray_to_rgba(t); else rgba_to_gray(t);
                        a.v.convert_type_to(rgba ? VGImage::RGBA : VGImage::GRAYSCALE); I i = {a.v.nx_img(), Mod(), -1}; after_convert(i, t, op); *a.m = i.m; break; }
                case 9: op = "release"; a.v.release(); *a.m = Mod(); break;
                default: { op = "wrap"; ++special; int how = (int)g.draw(2);
                        if (how == 0) { uint8_t *p = (uint8_t *)nx_xmalloc((size_t)w * h * 4); bool own = g.b(); if (!own) mem.push_back(p);
                                if (f) a.v.wrap<float>((float *)p, w, h, w, VGImage::GRAYSCALE, VGImage::FLOAT32, own); else a.v.wrap<uchar>((uchar *)p, w, h, w + 2, VGImage::GRAYSCALE, VGImage::UCHAR, own); }
                        else { NXImage *q = nx_image_new(w, h, NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR); bool own = how == 1; if (!own) ext.push_back(q); if (g.b()) a.v.wrap(q, own); else a.v = VGImage(q, own); a.m = std::make_shared<Mod>(); }
                        fill(a); break; }
                }
                for (auto &i : A) {
                        check_same(i.v.nx_img(), *i.m, op);
                        const VGImage &c = i.v;
                        CHECK(c.width() == i.m->w && c.height() == i.m->h && c.n_channels() == i.m->nc, "%s: accessors report %dx%dx%d", op, c.width(), c.height(), c.n_channels());
                        CHECK((c.type() == VGImage::RGBA) == (i.m->nc == 4) && (c.data_type() == VGImage::FLOAT32) == i.m->f32, "%s: type accessors wrong", op);
                        if (!i.m->v.empty()) { int y = (int)g.u(0, i.m->h - 1); 
                                double p = i.m->f32 ? (double)c.data<float>(y)[0] : (double)c.data<uchar>(y)[0];
                                CHECK(p == i.m->at(0, y), "%s: row %d accessor reads %g, expected %g", op, y, p, i.m->at(0, y)); }
                }
                g.note("%s", op);
        }
        g.nontrivial(special > 0);
        A.clear();
        for (auto *q : ext) nx_image_free(q);
        for (auto *p : mem) nx_free(p);
        }
        CHECK(c_heap_bytes() == h0, "%zd bytes of image memory not returned", (ssize_t)c_heap_bytes() - (ssize_t)h0);
}
