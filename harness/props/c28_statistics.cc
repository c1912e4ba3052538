// C28: summary statistics against their definitions.
#include "../core.hpp"
#include <algorithm>
#include <cfloat>
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_math.h"
using namespace pbt;
// lower and upper quartile: medians of the lower and upper half, the middle element of an odd sample in neither
static long double med(const std::vector<long double> &s, size_t a, size_t b) { size_t n = b - a; return n & 1 ? s[a + n / 2] : (s[a + n / 2 - 1] + s[a + n / 2]) / 2; }
static void against(const NXStatistics1D &t, std::vector<long double> s)
{
        size_t n = s.size(); CHECK(t.n == (int)n, "n is %d for %zu values", t.n, n);
        if (n == 0) { CHECK(t.mean == 0 && t.median == 0 && t.stdev == 0 && t.min == 0 && t.max == 0 && t.lower_quartile == 0 && t.upper_quartile == 0 && t.interquartile_range == 0, "statistics of an empty sample are not zero"); return; }
        std::sort(s.begin(), s.end()); long double m = 0, v = 0, ab = 0; for (auto x : s) { m += x; ab = std::max(ab, std::fabs(x)); } m /= n; for (auto x : s) v += (x - m) * (x - m); long double sd = n > 1 ? std::sqrt(v / (n - 1)) : 0, lq = n == 1 ? s[0] : med(s, 0, n / 2), uq = n == 1 ? s[0] : med(s, (n + 1) / 2, n); double e = (double)(1e-13L * ab * std::sqrt((long double)n) + 1e-300L);
        CHECK(t.min == (double)s[0] && t.max == (double)s[n - 1], "range [%.17g, %.17g], expected [%.17g, %.17g]", t.min, t.max, (double)s[0], (double)s[n - 1]);
        CHECK(near_(t.median, (double)med(s, 0, n), 1e-14, 0), "median %.17g, expected %.17g (n %zu)", t.median, (double)med(s, 0, n), n); CHECK(near_(t.lower_quartile, (double)lq, 1e-14, 0) && near_(t.upper_quartile, (double)uq, 1e-14, 0), "quartiles %.17g %.17g, expected %.17g %.17g (n %zu)", t.lower_quartile, t.upper_quartile, (double)lq, (double)uq, n);
        CHECK(near_(t.interquartile_range, (double)(uq - lq), 1e-12, e), "interquartile range %.17g, expected %.17g", t.interquartile_range, (double)(uq - lq)); CHECK(near_(t.mean, (double)m, 1e-12, e), "mean %.17g, expected %.17g", t.mean, (double)m); CHECK(near_(t.stdev, (double)sd, 1e-10, 10 * e), "standard deviation %.17g, expected %.17g", t.stdev, (double)sd);
}
template <class T, class F> static void one(Gen &g, std::vector<T> x, F f)
{
        std::vector<T> a = x, b = x; NXStatistics1D s, t; memset(&s, 0x5a, sizeof s); memset(&t, 0xa5, sizeof t); f(&s, (int)a.size(), a.data()); against(s, std::vector<long double>(x.begin(), x.end())); { auto p = a, q = x; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(p == q, "the sample holds other values afterwards"); }
        for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[g.u(0, i - 1)]); f(&t, (int)b.size(), b.data()); CHECK(s.mean == t.mean && s.median == t.median && s.stdev == t.stdev && s.min == t.min && s.max == t.max && s.lower_quartile == t.lower_quartile && s.upper_quartile == t.upper_quartile && s.interquartile_range == t.interquartile_range, "statistics depend on the order of the data");
}
static size_t gen_n(Gen &g) { return g.b(0.5) ? (size_t)g.u(0, 12) : g.b(0.9) ? (size_t)g.u(0, 120) : (size_t)g.u(0, 3000); }
FACET(reals, 1.0, "samples of doubles of any size from 0, with ties, signs, sorted runs and magnitudes from 1e-140 to 1e140: every statistic equals its definition in extended precision and any order of the data gives the same result; nontrivial: at least four values")
{
        size_t n = gen_n(g); int k = (int)g.u(0, 5); double off = g.real(-1e6, 1e6), sc = std::pow(10.0, g.real(-140, 140)); std::vector<double> x(n); for (auto &v : x) switch (k) { case 0: v = (double)g.i(-3, 3); break; case 1: v = g.gauss(); break; case 2: v = off + g.unit(); break; case 3: v = sc * g.real(-1, 1); break; case 4: v = g.b() ? 0.0 : g.b() ? -0.0 : g.real(-1, 1); break; default: v = g.real(-1, 1) * std::pow(10.0, g.real(-30, 30)); }
        if (g.b(0.2)) std::sort(x.begin(), x.end()); if (g.b(0.2)) std::sort(x.rbegin(), x.rend()); g.note("%zu values, kind %d", n, k); one(g, x, nx_dstatistics_1d); g.nontrivial(n >= 4);
}
FACET(integers, 1.0, "samples of ints of any size from 0, up to the extremes of the type: every statistic equals its definition and any order of the data gives the same result; nontrivial: at least four values")
{
        size_t n = gen_n(g); int k = (int)g.u(0, 4); std::vector<int> x(n); for (auto &v : x) switch (k) { case 0: v = (int)g.i(-3, 3); break; case 1: v = (int)g.i(-1000000, 1000000); break; case 2: v = (int)(uint32_t)g.bits64(); break; case 3: v = (int)g.pick<double>({-2147483648.0, 2147483647.0, -2147483647.0, 0, -1, 1}); break; default: v = g.any_int(); }
        if (g.b(0.2)) std::sort(x.begin(), x.end()); g.note("%zu values, kind %d", n, k); one(g, x, nx_istatistics_1d); g.nontrivial(n >= 4);
}
FACET(compare, 0.4, "the comparison functions order any two ints or doubles, extremes and infinities included, like the numbers, and qsort with them sorts; nontrivial: values of different sign")
{
        int a = g.any_int(), b = g.b(0.2) ? a : g.any_int(), r = nx_compare_int_incr(&a, &b); CHECK((r > 0) - (r < 0) == (a > b) - (a < b), "comparison of %d and %d gives %d", a, b, r); double c = g.any_double(), d = g.b(0.2) ? c : g.any_double(); if (std::isnan(c) || std::isnan(d)) g.discard(); r = nx_compare_double_incr(&c, &d); CHECK((r > 0) - (r < 0) == (c > d) - (c < d), "comparison of %g and %g gives %d", c, d, r);
        std::vector<int> x(g.u(0, 60)); for (auto &v : x) v = g.any_int(); auto y = x; std::sort(y.begin(), y.end()); qsort(x.data(), x.size(), sizeof(int), nx_compare_int_incr); CHECK(x == y, "sorting %zu ints with the comparison function", x.size()); g.note("%d %d", a, b); g.nontrivial((a < 0) != (b < 0));
}
