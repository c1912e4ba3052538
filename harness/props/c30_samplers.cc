// C30: samplers against an independent SFMT19937, in range, independent of each other, and distributed as promised.
#include "../core.hpp"
#include <cfloat>
#include <cstdlib>
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_gaussian_sampler.h"
using namespace pbt;
struct Ref {                       // SFMT19937 written from its definition, one 128-bit word at a time
        uint32_t x[624]; int at;
        explicit Ref(uint32_t seed) { x[0] = seed; for (int i = 1; i < 624; ++i) x[i] = 1812433253u * (x[i - 1] ^ (x[i - 1] >> 30)) + i; uint32_t par[4] = {1, 0, 0, 0x13c9e684u}, in = 0; for (int i = 0; i < 4; ++i) in ^= x[i] & par[i]; int c = __builtin_popcount(in) & 1; if (!c) x[0] ^= 1; at = 624; }
        typedef unsigned __int128 U; static U load(const uint32_t *p) { return (U)p[0] | (U)p[1] << 32 | (U)p[2] << 64 | (U)p[3] << 96; }
        void block() { static const uint32_t msk[4] = {0xdfffffefu, 0xddfecb7fu, 0xbffaffffu, 0xbffffff6u}; for (int i = 0; i < 156; ++i) { uint32_t *a = x + 4 * i, *b = x + 4 * ((i + 122) % 156), *c = x + 4 * ((i + 154) % 156), *d = x + 4 * ((i + 155) % 156); U sl = load(a) << 8, sr = load(c) >> 8; uint32_t r[4]; for (int k = 0; k < 4; ++k) r[k] = a[k] ^ (uint32_t)(sl >> (32 * k)) ^ ((b[k] >> 11) & msk[k]) ^ (uint32_t)(sr >> (32 * k)) ^ (d[k] << 18); memcpy(a, r, 16); } at = 0; }
        uint32_t u32() { if (at >= 624) block(); return x[at++]; }
        uint64_t u64() { uint32_t l = u32(); return (uint64_t)u32() << 32 | l; }
};
struct US { NXUniformSampler *p; uint32_t seed; Ref r; US(uint32_t s) : p(nx_uniform_sampler_new_with_seed(s)), seed(s), r(s) {} ~US() { nx_uniform_sampler_free(p); } US(const US &) = delete; };
static uint32_t gen_seed(Gen &g) { return g.b(0.2) ? (uint32_t)g.u(0, 5) : g.b(0.1) ? 0xffffffffu : (uint32_t)g.bits64(); }
FACET(sequence, 1.5, "interleaved histories over several samplers (32- and 64-bit words, single and double precision, array fills, re-seeding, the shared instance) against an independent SFMT19937 per seed; single and double precision samples are the words scaled to [0,1); nontrivial: a generation boundary is crossed with two samplers in use")
{
        int n = (int)g.u(1, 3); std::vector<std::unique_ptr<US>> s; for (int i = 0; i < n; ++i) s.emplace_back(new US(gen_seed(g))); if (g.b(0.4)) { uint32_t sd = gen_seed(g); std::unique_ptr<US> u(new US(sd)); nx_uniform_sampler_free(u->p); if (g.b(0.3)) nx_uniform_sampler_instance_free(); u->p = nx_uniform_sampler_instance(); nx_uniform_sampler_init_seed(u->p, sd); s.push_back(std::move(u)); } struct Fix { std::vector<std::unique_ptr<US>> &s; ~Fix() { for (auto &u : s) if (u->p == nx_uniform_sampler_instance()) u->p = nullptr; } } fix{s}; int ops = (int)g.u(1, 60); std::vector<int> cnt(s.size());
        for (int o = 0; o < ops; ++o) { size_t w = (size_t)g.u(0, s.size() - 1); US &u = *s[w]; int k = (int)(g.b(0.3) ? g.u(1, 700) : g.u(1, 20)); switch (g.u(0, 9)) {
                case 0: if (g.b(0.3)) { u.seed = g.b() ? u.seed : gen_seed(g); nx_uniform_sampler_init_seed(u.p, u.seed); u.r = Ref(u.seed); } break;
                case 1: case 2: for (int i = 0; i < k; ++i) { uint32_t a = nx_uniform_sampler_sample32(u.p), b = u.r.u32(); CHECK(a == b, "seed %u: 32-bit sample is %08x, SFMT19937 gives %08x", u.seed, a, b); } cnt[w] += k; break;
                case 3: case 4: if (u.r.at & 1) break; for (int i = 0; i < k; ++i) { uint64_t a = nx_uniform_sampler_sample64(u.p), b = u.r.u64(); CHECK(a == b, "seed %u: 64-bit sample is %llx, SFMT19937 gives %llx", u.seed, (unsigned long long)a, (unsigned long long)b); } cnt[w] += 2 * k; break;
                case 5: case 6: for (int i = 0; i < k; ++i) { float a = nx_uniform_sampler_sample_s(u.p); double b = u.r.u32() / 4294967296.0; CHECK(a >= 0 && a < 1 && std::fabs(a - b) < 1e-7, "seed %u: single sample %.9g for the word %.9g", u.seed, a, b); } cnt[w] += k; break;
                case 7: case 8: for (int i = 0; i < k; ++i) { double a = nx_uniform_sampler_sample_d(u.p); uint64_t v = u.r.u64(); double b = (double)(v >> 11) / 9007199254740992.0; CHECK(a >= 0 && a < 1 && std::fabs(a - b) < 1e-15, "seed %u: double sample %.17g for the word %.17g", u.seed, a, b); } cnt[w] += 2 * k; break;
                default: if (u.r.at != 624) break; { bool q = g.b(); int m = q ? 312 + 2 * g.len(0, 200, 4000, 0.1) : 624 + 4 * g.len(0, 200, 4000, 0.1); void *buf = nullptr; if (posix_memalign(&buf, 64, (size_t)m * 8 + 16)) break; std::unique_ptr<void, void (*)(void *)> hold(buf, free); if (q) { nx_uniform_sampler_fill64(u.p, m, (uint64_t *)buf); for (int i = 0; i < m; ++i) CHECK(((uint64_t *)buf)[i] == u.r.u64(), "seed %u: element %d of a 64-bit fill", u.seed, i); } else { nx_uniform_sampler_fill32(u.p, m, (uint32_t *)buf); for (int i = 0; i < m; ++i) CHECK(((uint32_t *)buf)[i] == u.r.u32(), "seed %u: element %d of a 32-bit fill", u.seed, i); } cnt[w] += m; uint32_t used = (uint32_t)((q ? 2 * m : m) % 624); if (used) { nx_uniform_sampler_init_seed(u.p, u.seed); u.r = Ref(u.seed); } } break; } }
        int full = 0; for (int c : cnt) full += c > 624; g.note("%zu samplers, %d operations", s.size(), ops); g.nontrivial(full > 0 && s.size() > 1);
}
FACET(again, 0.4, "every seed repeats its sequence: two samplers of one seed and a re-seeded one agree sample by sample, different seeds differ; nontrivial: always")
{
        uint32_t sd = gen_seed(g); NXGaussianSampler *a = nx_gaussian_sampler_new_with_seed(sd), *b = g.b() ? nx_gaussian_sampler_new_with_seed(gen_seed(g)) : nx_gaussian_sampler_new(nx_uniform_sampler_new_with_seed(gen_seed(g))); struct F { NXGaussianSampler *a, *b; ~F() { nx_gaussian_sampler_free(a); nx_gaussian_sampler_free(b); } } f{a, b}; double t[7]; nx_gaussian_sampler_sample_d(b, (int)g.u(0, 7), t, 0, 1); nx_gaussian_sampler_init_seed(b, sd); NXUniformSampler *noise = nx_uniform_sampler_new_with_seed(1);
        struct N { NXUniformSampler *n; ~N() { nx_uniform_sampler_free(n); } } nn{noise}; int k = (int)g.u(1, 20); g.note("seed %u", sd); for (int i = 0; i < k; ++i) { int n = (int)g.u(0, 60); bool d = g.b(); double m = g.real(-100, 100), s = g.real(0, 50); if (d) { std::vector<double> x(n + 1, 7), y(n + 1, 7); nx_gaussian_sampler_sample_d(a, n, x.data(), m, s); nx_uniform_sampler_sample32(noise); nx_gaussian_sampler_sample_d(b, n, y.data(), m, s); CHECK(x == y, "double samples differ between two samplers of seed %u", sd); CHECK(x[n] == 7, "wrote behind %d samples", n); for (int j = 0; j < n; ++j) CHECK(std::isfinite(x[j]), "sample %g", x[j]); } else { std::vector<float> x(n + 1, 7), y(n + 1, 7); nx_gaussian_sampler_sample_s(a, n, x.data(), (float)m, (float)s); nx_uniform_sampler_sample32(noise); nx_gaussian_sampler_sample_s(b, n, y.data(), (float)m, (float)s); CHECK(x == y, "single samples differ between two samplers of seed %u", sd); CHECK(x[n] == 7, "wrote behind %d samples", n); } }
        NXUniformSampler *p = nx_uniform_sampler_new_with_seed(sd), *q = nx_uniform_sampler_new_with_seed(sd + 1); int eq = 0; for (int i = 0; i < 8; ++i) eq += nx_uniform_sampler_sample32(p) == nx_uniform_sampler_sample32(q); nx_uniform_sampler_free(p); nx_uniform_sampler_free(q); CHECK(eq < 8, "seeds %u and %u give the same sequence", sd, sd + 1); g.nontrivial();
}
FACET(affine, 0.6, "Gaussian samples with a mean and standard deviation are the standard ones of the same seed scaled and shifted, equal the mean for standard deviation 0, and requesting them in one call or pair by pair gives the same sequence; nontrivial: scaled and shifted")
{
        uint32_t sd = gen_seed(g); int n = (int)g.u(1, 200); double m = g.pick<double>({0, g.real(-10, 10), g.real(-1e4, 1e4)}), s = g.pick<double>({0, 1, g.real(0, 5), g.real(0, 1e3)}); bool d = g.b(); g.note("seed %u n %d mean %g sigma %g", sd, n, m, s); std::vector<double> z(n), x(n), w(n); std::vector<float> a(n), b(n), c(n); struct G1 { NXGaussianSampler *p; G1(uint32_t s) : p(nx_gaussian_sampler_new_with_seed(s)) {} ~G1() { nx_gaussian_sampler_free(p); } } p(sd), q(sd), r(sd);
        if (d) { nx_gaussian_sampler_sample_d(p.p, n, z.data(), 0, 1); nx_gaussian_sampler_sample_d(q.p, n, x.data(), m, s); for (int i = 0; i < n; i += 2) nx_gaussian_sampler_sample_d(r.p, std::min(2, n - i), &w[i], m, s); CHECK(w == x, "pair by pair differs"); for (int i = 0; i < n; ++i) CHECK(near_(x[i], m + s * z[i], 1e-12, 1e-12 * (1 + std::fabs(m) + s * 8)), "sample %d is %.15g, standard sample %.15g with mean %g and sigma %g", i, x[i], z[i], m, s); }
        else { m = (float)m; s = (float)s; nx_gaussian_sampler_sample_s(p.p, n, a.data(), 0, 1); nx_gaussian_sampler_sample_s(q.p, n, b.data(), (float)m, (float)s); for (int i = 0; i < n; i += 2) nx_gaussian_sampler_sample_s(r.p, std::min(2, n - i), &c[i], (float)m, (float)s); CHECK(c == b, "pair by pair differs"); for (int i = 0; i < n; ++i) CHECK(near_(b[i], m + s * a[i], 1e-5, 1e-5 * (1 + std::fabs(m) + s * 8)), "sample %d is %.9g, standard sample %.9g with mean %g and sigma %g", i, b[i], a[i], m, s); }
        g.nontrivial(m != 0 && s != 0 && s != 1);
}
// all moments, tails and the distribution function of a standard normal (or uniform) sample, at more than seven standard errors
static void normal(const std::vector<double> &x, const char *what, uint32_t sd)
{
        size_t n = x.size(); double m = 0, v = 0, sk = 0, ku = 0, lag = 0, lag2 = 0, par = 0; for (size_t i = 0; i < n; ++i) { m += x[i]; v += x[i] * x[i]; sk += x[i] * x[i] * x[i]; ku += std::pow(x[i], 4); if (i) lag += x[i] * x[i - 1]; if (i > 1) lag2 += x[i] * x[i - 2]; if (i & 1) par += (x[i] * x[i] - 1) * (x[i - 1] * x[i - 1] - 1); } double r = 1 / std::sqrt((double)n); const double T = 7.5; auto z = [&](double val, double want, double sdv, const char *q) { CHECK(std::fabs(val - want) < T * sdv * r, "%s seed %u: %s of %zu standard samples is %.5f, expected %g +- %.5f", what, sd, q, n, val, want, T * sdv * r); };
        z(m / n, 0, 1, "mean"); z(v / n, 1, std::sqrt(2.0), "variance"); z(sk / n, 0, std::sqrt(15.0), "third moment"); z(ku / n, 3, std::sqrt(96.0) * 1.3, "fourth moment"); z(lag / n, 0, 1, "correlation of neighbours"); z(lag2 / n, 0, 1, "correlation at distance two"); z(2 * par / n, 0, 2 * std::sqrt(2.0), "dependence of squares within a pair"); std::vector<double> y = x; std::sort(y.begin(), y.end()); double ks = 0; for (size_t i = 0; i < n; ++i) { double F = 0.5 * std::erfc(-y[i] / std::sqrt(2.0)); ks = std::max(ks, std::max(F - (double)i / n, (double)(i + 1) / n - F)); } CHECK(ks < 3.9 * r, "%s seed %u: distribution function off by %.4f with %zu samples", what, sd, ks, n);
        for (double t : {1.0, 2.0, 2.5, 3.0}) { double p = std::erfc(t / std::sqrt(2.0)), c = 0, up = 0; for (double q : x) { c += std::fabs(q) > t; up += q > t; } if (p * n > 60) { CHECK(std::fabs(c - p * n) < T * std::sqrt(p * n), "%s seed %u: %g of %zu samples beyond %g sigma, expected %.1f", what, sd, c, n, t, p * n); CHECK(std::fabs(up - p * n / 2) < T * std::sqrt(p * n / 2), "%s seed %u: %g of %zu samples above %g sigma, expected %.1f", what, sd, up, n, t, p * n / 2); } }
}
FACET(gaussian, 0.25, "standard normal samples of any seed, single and double precision: moments up to the fourth, neighbour correlation, distribution function and tail counts within 7.5 standard errors; nontrivial: always")
{
        uint32_t sd = gen_seed(g); int n = (int)g.u(4000, 40000); NXGaussianSampler *p = nx_gaussian_sampler_new_with_seed(sd); std::vector<double> x(n); bool d = g.b(); if (d) nx_gaussian_sampler_sample_d(p, n, x.data(), 0, 1); else { std::vector<float> a(n); nx_gaussian_sampler_sample_s(p, n, a.data(), 0, 1); x.assign(a.begin(), a.end()); } nx_gaussian_sampler_free(p); g.note("seed %u, %d samples", sd, n); normal(x, d ? "double" : "single", sd); g.nontrivial();
}
FACET(tails, 0.08, "a million or more standard normal samples of a seed: counts beyond 2.5, 3, 3.5, 4 and 4.5 standard deviations within 7.5 standard errors, on both sides; nontrivial: always")
{
        uint32_t sd = gen_seed(g); int n = (int)g.u(1000000, 1500000); NXGaussianSampler *p = nx_gaussian_sampler_new_with_seed(sd); bool d = g.b(); long c[2][5] = {}; const double T[5] = {2.5, 3, 3.5, 4, 4.5};
        for (int at = 0; at < n; at += 10000) { double x[10000]; if (d) nx_gaussian_sampler_sample_d(p, 10000, x, 0, 1); else { float a[10000]; nx_gaussian_sampler_sample_s(p, 10000, a, 0, 1); for (int i = 0; i < 10000; ++i) x[i] = a[i]; } for (double q : x) if (std::fabs(q) > 2.5) for (int i = 0; i < 5; ++i) if (std::fabs(q) > T[i]) c[q > 0][i]++; }
        nx_gaussian_sampler_free(p); n = (n + 9999) / 10000 * 10000; g.note("seed %u, %d samples", sd, n);
        for (int i = 0; i < 5; ++i) for (int k = 0; k < 2; ++k) { double e = n * 0.5 * std::erfc(T[i] / std::sqrt(2.0)); CHECK(std::fabs(c[k][i] - e) < 7.5 * std::sqrt(e) + 12, "seed %u: %ld of %d samples beyond %s%g sigma, expected %.1f", sd, c[k][i], n, k ? "" : "-", T[i], e); }
        g.nontrivial();
}
FACET(uniform, 0.25, "uniform samples of any seed, single and double precision: range [0,1), mean, variance, neighbour correlation and distribution function within 7.5 standard errors; nontrivial: always")
{
        uint32_t sd = gen_seed(g); int n = (int)g.u(4000, 40000); NXUniformSampler *p = nx_uniform_sampler_new_with_seed(sd); std::vector<double> x(n); bool d = g.b(); for (auto &v : x) v = d ? nx_uniform_sampler_sample_d(p) : nx_uniform_sampler_sample_s(p); nx_uniform_sampler_free(p); g.note("seed %u, %d samples", sd, n); double m = 0, v = 0, l = 0, r = 1 / std::sqrt((double)n); for (int i = 0; i < n; ++i) { CHECK(x[i] >= 0 && x[i] < 1, "sample %.17g", x[i]); double t = x[i] - 0.5; m += t; v += t * t; if (i) l += t * (x[i - 1] - 0.5); } CHECK(std::fabs(m / n) < 7.5 * 0.2887 * r && std::fabs(v / n - 1 / 12.0) < 7.5 * 0.0746 * r && std::fabs(l / n) < 7.5 * r / 12, "seed %u: mean %.5f variance %.5f neighbour covariance %.5f of %d samples", sd, m / n + 0.5, v / n, l / n, n); std::sort(x.begin(), x.end()); double ks = 0; for (int i = 0; i < n; ++i) ks = std::max(ks, std::max(x[i] - (double)i / n, (double)(i + 1) / n - x[i])); CHECK(ks < 3.9 * r, "seed %u: distribution function off by %.4f", sd, ks); g.nontrivial();
}
FACET(shared, 0.2, "the shared Gaussian and uniform samplers are created on demand, keep their sequence until re-seeded, can be freed and created again, and do not affect other samplers; nontrivial: always")
{
        uint32_t sd = gen_seed(g); NXUniformSampler *o = nx_uniform_sampler_new_with_seed(sd); Ref r(sd); int k = (int)g.u(1, 12); for (int i = 0; i < k; ++i) { switch (g.u(0, 5)) { case 0: nx_uniform_sampler_instance_free(); break; case 1: nx_gaussian_sampler_instance_free(); break; case 2: { NXGaussianSampler *q = nx_gaussian_sampler_instance(); CHECK(q == nx_gaussian_sampler_instance(), "shared sampler changes"); uint32_t s2 = gen_seed(g); nx_gaussian_sampler_init_seed(q, s2); double a[5], b[5]; nx_gaussian_sampler_sample_d(q, 5, a, 1, 2); NXGaussianSampler *z = nx_gaussian_sampler_new_with_seed(s2); nx_gaussian_sampler_sample_d(z, 5, b, 1, 2); nx_gaussian_sampler_free(z); CHECK(memcmp(a, b, sizeof a) == 0, "shared Gaussian sampler of seed %u differs from a private one", s2); break; } case 3: nx_gaussian_sampler_init_time(nx_gaussian_sampler_instance()); nx_uniform_sampler_init_time(nx_uniform_sampler_instance()); break; default: { NXUniformSampler *q = nx_uniform_sampler_instance(); CHECK(q == nx_uniform_sampler_instance(), "shared sampler changes"); uint32_t s2 = gen_seed(g); nx_uniform_sampler_init_seed(q, s2); Ref z(s2); for (int j = 0; j < 5; ++j) CHECK(NX_UNIFORM_SAMPLE32 == z.u32(), "shared sampler of seed %u", s2); CHECK(std::fabs(NX_UNIFORM_SAMPLE_S - z.u32() / 4294967296.0) < 1e-7, "shared single"); CHECK(NX_UNIFORM_SAMPLE64 == z.u64(), "shared 64"); CHECK(std::fabs(NX_UNIFORM_SAMPLE_D - (z.u64() >> 11) / 9007199254740992.0) < 1e-15, "shared double"); } } uint32_t a = nx_uniform_sampler_sample32(o), b = r.u32(); CHECK(a == b, "a private sampler of seed %u is disturbed by the shared ones", sd); } nx_uniform_sampler_free(o); nx_uniform_sampler_instance_free(); nx_gaussian_sampler_instance_free(); g.note("seed %u", sd); g.nontrivial();
}
