// Images for the harnesses: generated NXImages with any stride, and a plain double-valued model.
#pragma once
#include "core.hpp"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_alloc.h"

namespace im {

struct Mod {                       // reference image
        int w = 0, h = 0, nc = 1; bool f32 = false;
        std::vector<double> v;
        double &at(int x, int y, int c = 0) { return v[((size_t)y * w + x) * nc + c]; }
        double at(int x, int y, int c = 0) const { return v[((size_t)y * w + x) * nc + c]; }
        double rep(int x, int y) const { x = x < 0 ? 0 : x >= w ? w - 1 : x; y = y < 0 ? 0 : y >= h ? h - 1 : y; return at(x, y); }   // repeated border
};
struct Holder {                    // frees the image when a case ends any way
        NXImage *p; explicit Holder(NXImage *q) : p(q) {} ~Holder() { nx_image_free(p); }
        Holder(const Holder &) = delete; Holder &operator=(const Holder &) = delete;
        operator NXImage *() const { return p; } NXImage *operator->() const { return p; }
};
inline double get(const NXImage *p, int x, int y, int c = 0)
{
        size_t i = (size_t)y * p->row_stride + (size_t)x * p->n_channels + c;
        return p->dtype == NX_IMAGE_UCHAR ? (double)p->data.uc[i] : (double)p->data.f32[i];
}
inline void set(NXImage *p, int x, int y, int c, double v)
{
        size_t i = (size_t)y * p->row_stride + (size_t)x * p->n_channels + c;
        if (p->dtype == NX_IMAGE_UCHAR) p->data.uc[i] = (uchar)v; else p->data.f32[i] = (float)v;
}
inline Mod model(const NXImage *p)
{
        Mod m; m.w = p->width; m.h = p->height; m.nc = p->n_channels; m.f32 = p->dtype == NX_IMAGE_FLOAT32;
        m.v.resize((size_t)m.w * m.h * m.nc);
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int c = 0; c < m.nc; ++c) m.at(x, y, c) = get(p, x, y, c);
        return m;
}
struct Rng { uint64_t s; uint32_t operator()() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(s >> 33); } double unit() { return ((*this)() & 0x7fffffff) / 2147483648.0; } };

// pixel contents: constant, ramp, sparse dots, noise, blocks; float in [lo,hi]
inline void fill_pixels(pbt::Gen &g, Mod &m, double lo = 0.0, double hi = 1.0)
{
        int kind = (int)g.u(0, 5); Rng r{g.bits64()};
        int a = (int)g.u(0, 255), b = (int)g.u(0, 255), bs = (int)g.u(1, 6);
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int c = 0; c < m.nc; ++c) {
                double t;
                switch (kind) {
                case 0: t = a; break;
                case 1: t = (x * 7 + y * 3 + c * 11 + a) % 256; break;
                case 2: t = r() % 8 == 0 ? a : b; break;
                case 3: t = ((x / bs + y / bs) & 1) ? a : b; break;
                case 4: t = r() % 256; break;
                default: t = r() % 4 == 0 ? 255 : r() % 4 == 0 ? 0 : (double)(r() % 256); break;
                }
                if (m.f32) t = (double)(float)(lo + (hi - lo) * (kind == 4 ? r.unit() : t / 255.0));
                m.at(x, y, c) = t;
        }
}
// image holding m with the given row stride (-1: default); the bytes between rows are set to garbage
inline NXImage *make(const Mod &m, int stride = -1, uint64_t garbage = 0xA5)
{
        NXImage *p = nx_image_alloc();
        nx_image_resize(p, m.w, m.h, stride, m.nc == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, m.f32 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
        Rng r{garbage};
        size_t n = (size_t)p->row_stride * p->height;
        for (size_t i = 0; i < n; ++i) if (m.f32) p->data.f32[i] = (float)(r.unit() * 1e6 - 5e5); else p->data.uc[i] = (uchar)r();
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int c = 0; c < m.nc; ++c) set(p, x, y, c, m.at(x, y, c));
        return p;
}
inline int gen_stride(pbt::Gen &g, const Mod &m) { return g.b() ? -1 : m.w * m.nc + (int)g.u(0, 17); }
inline int gen_dim(pbt::Gen &g, int lo, int hi) { return (int)(g.b(0.5) ? g.u(lo, std::min(hi, lo + 7)) : g.u(lo, hi)); }
static bool allow_long = true;      // off where single-precision positions drift over thousands of pixels
inline Mod gen_mod(pbt::Gen &g, int minw, int maxw, int minh, int maxh, int nc, bool f32, double lo = 0.0, double hi = 1.0)
{
        Mod m; m.w = gen_dim(g, minw, maxw); m.h = gen_dim(g, minh, maxh); m.nc = nc; m.f32 = f32;
        if (allow_long && minw > 0 && minh > 0 && maxw >= 30 && maxh >= 30 && g.b(0.015)) {      // now and then a long thin image
                int a = (int)(g.b() ? g.u(0, 600) : g.u(0, 5000)), b = (int)g.u(0, 5); bool tall = g.b(); m.w = minw + (tall ? b : a); m.h = minh + (tall ? a : b);
        }
        m.v.resize((size_t)m.w * m.h * nc); fill_pixels(g, m, lo, hi); return m;
}
// destination of an operation: fresh, or one with another size, type and contents
inline NXImage *gen_dest(pbt::Gen &g)
{
        if (g.b(0.4)) return nx_image_alloc();
        Mod m = gen_mod(g, 0, 40, 0, 40, g.b(0.2) ? 4 : 1, g.b());
        return make(m, gen_stride(g, m), 77);
}
inline std::string brief(const Mod &m) { return pbt::strf("%dx%dx%d %s", m.w, m.h, m.nc, m.f32 ? "float" : "uchar"); }
// size, type, addressability
inline void check_shape(const NXImage *p, int w, int h, int nc, bool f32, const char *what)
{
        CHECK(p->width == w && p->height == h, "%s: size is %dx%d, expected %dx%d", what, p->width, p->height, w, h);
        CHECK(p->n_channels == nc && p->type == (nc == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE), "%s: %d channels (type %d), expected %d", what, p->n_channels, p->type, nc);
        CHECK(p->dtype == (f32 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR), "%s: data type %d", what, p->dtype);
        CHECK(p->row_stride >= w * nc, "%s: row stride %d below %d", what, p->row_stride, w * nc);
}
// pixelwise comparison; tol: absolute
inline void check_same(const NXImage *p, const Mod &m, const char *what, double tol = 0.0)
{
        check_shape(p, m.w, m.h, m.nc, m.f32, what);
        for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int c = 0; c < m.nc; ++c) {
                double a = get(p, x, y, c), b = m.at(x, y, c);
                CHECK(a == b || std::fabs(a - b) <= tol, "%s: pixel (%d,%d) channel %d of %s is %.9g, expected %.9g", what, x, y, c, brief(m).c_str(), a, b);
        }
}
// 8-bit result of a real value that the library truncates: either side is accepted next to an integer
inline bool trunc_ok(double got, double real, double eps = 1e-3)
{
        double lo = std::floor(std::min(255.0, std::max(0.0, real - eps))), hi = std::floor(std::min(255.0, std::max(0.0, real + eps)));
        return got >= lo && got <= hi;
}

} // namespace im
