// Direct convolution on model images, with intervals for 8-bit results that are truncated.
#pragma once
#include "img.hpp"
namespace im {
inline std::vector<double> gauss_kernel(int nk, double sigma)          // n_k entries: centre and one side
{
        std::vector<double> k(nk); double s = 0;
        for (int i = 0; i < nk; ++i) { k[i] = std::exp(-0.5 * i * i / (sigma * sigma)); s += i ? 2 * k[i] : k[i]; }
        for (auto &v : k) v /= s;
        return k;
}
inline std::vector<double> box_kernel(int r) { return std::vector<double>(r + 1, 1.0 / (2 * r + 1)); }
// interval of possible results: 8-bit images are truncated after each pass, so carry [lo,hi]
struct Iv { Mod lo, hi; };
inline Iv pass(const Iv &in, const std::vector<double> &k, bool xd, double eps)
{
        Iv o = in; int w = in.lo.w, h = in.lo.h;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                double a = 0, b = 0;
                for (int i = -(int)k.size() + 1; i < (int)k.size(); ++i) { double c = k[std::abs(i)]; int xx = xd ? x + i : x, yy = xd ? y : y + i; a += c * in.lo.rep(xx, yy); b += c * in.hi.rep(xx, yy); }
                if (in.lo.f32) { o.lo.at(x, y) = a - eps; o.hi.at(x, y) = b + eps; }
                else { o.lo.at(x, y) = std::floor(std::max(0.0, a - 1e-3)); o.hi.at(x, y) = std::floor(std::min(255.0, b + 1e-3)); }
        }
        return o;
}
inline void check_iv(const NXImage *p, const Iv &w, const char *what)
{
        check_shape(p, w.lo.w, w.lo.h, 1, w.lo.f32, what);
        for (int y = 0; y < w.lo.h; ++y) for (int x = 0; x < w.lo.w; ++x) { double v = get(p, x, y);
                CHECK(v >= w.lo.at(x, y) && v <= w.hi.at(x, y), "%s: pixel (%d,%d) of %s is %.9g, direct convolution gives %.9g..%.9g", what, x, y, brief(w.lo).c_str(), v, w.lo.at(x, y), w.hi.at(x, y)); }
}
} // namespace im
