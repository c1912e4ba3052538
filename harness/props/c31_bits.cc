// C31: bit and arithmetic helpers against their definitions.
#include "../core.hpp"
#include <cfloat>
#include "virg/nexus/nx_bit_ops.h"
#include "virg/nexus/nx_math.h"
using namespace pbt;
static uint64_t word(Gen &g) { uint64_t x = g.bits64(); switch (g.u(0, 5)) { case 0: return x; case 1: return x & g.bits64() & g.bits64(); case 2: return x | g.bits64() | g.bits64(); case 3: return 1ULL << g.u(0, 63); case 4: return ~(1ULL << g.u(0, 63)); default: { int a = (int)g.u(0, 63), b = (int)g.u(0, 63); return (~0ULL << std::min(a, b)) & (~0ULL >> std::max(a, b)); } } }
FACET(counts, 1.0, "population counts of 32- and 64-bit words (sparse, dense, single bits, runs): the number of set bits; nontrivial: more than one bit set")
{
        uint64_t x = word(g); int c = 0, d = 0; for (int i = 0; i < 64; ++i) { c += x >> i & 1; if (i < 32) d += x >> i & 1; } CHECK(nx_bit_count64(x) == c, "count of %llx is %d, expected %d", (unsigned long long)x, nx_bit_count64(x), c); CHECK(nx_bit_count32((uint32_t)x) == d, "count of %x is %d, expected %d", (uint32_t)x, nx_bit_count32((uint32_t)x), d); g.note("%llx", (unsigned long long)x); g.nontrivial(c > 1);
}
FACET(rotate, 1.0, "right rotations of any word by any amount below the width, 0 included: bit i moves to i-n modulo the width, and rotating back restores the word; nontrivial: amount not 0")
{
        uint64_t x = word(g); int n = (int)g.u(0, 63), m = n % 32; uint64_t r = nx_rotr64(x, (uint8_t)n); uint32_t q = nx_rotr32((uint32_t)x, (uint8_t)m); for (int i = 0; i < 64; ++i) { CHECK((r >> ((i + 64 - n) % 64) & 1) == (x >> i & 1), "rotation of %llx by %d gives %llx", (unsigned long long)x, n, (unsigned long long)r); if (i < 32) CHECK((q >> ((i + 32 - m) % 32) & 1) == (x >> i & 1), "rotation of %x by %d gives %x", (uint32_t)x, m, q); } CHECK(nx_rotr64(r, (uint8_t)((64 - n) % 64)) == x && nx_rotr32(q, (uint8_t)((32 - m) % 32)) == (uint32_t)x, "rotating back"); g.note("%llx by %d", (unsigned long long)x, n); g.nontrivial(n != 0);
}
FACET(bytes, 0.8, "big-endian splitting and composing at any alignment: most significant byte first, nothing else written, composing restores the word; nontrivial: always")
{
        uint64_t x = word(g); uint8_t b[24]; memset(b, 0x5a, sizeof b); int o = (int)g.u(1, 8); nx_split_big_endian64(b + o, x); for (int i = 0; i < 24; ++i) CHECK(b[i] == (i >= o && i < o + 8 ? (uint8_t)(x >> (56 - 8 * (i - o))) : 0x5a), "byte %d of %llx is %02x", i - o, (unsigned long long)x, b[i]); memset(b, 0x5a, sizeof b); nx_split_big_endian32(b + o, (uint32_t)x); for (int i = 0; i < 24; ++i) CHECK(b[i] == (i >= o && i < o + 4 ? (uint8_t)((uint32_t)x >> (24 - 8 * (i - o))) : 0x5a), "byte %d of %x is %02x", i - o, (uint32_t)x, b[i]); CHECK(nx_compose_big_endian32(b + o) == (uint32_t)x, "composing gives %x", nx_compose_big_endian32(b + o)); g.note("%llx", (unsigned long long)x); g.nontrivial();
}
FACET(arrays, 1.0, "bit arrays of any length through histories of set, clear, zero and read against a vector of booleans, no write outside the array; nontrivial: length not a multiple of 8")
{
        size_t n = (size_t)(g.b(0.6) ? g.u(1, 40) : g.u(1, 2000)); uint8_t *b = nx_bit_array_new(n); struct F { uint8_t *p; ~F() { nx_free(p); } } f{b}; nx_bit_array_set_zero(n, b); std::vector<char> v(n, 0); int ops = (int)g.u(1, 150); for (int i = 0; i < ops; ++i) { size_t k = (size_t)g.u(0, n - 1); if (g.b(0.3)) k = g.b() ? 0 : n - 1; switch (g.u(0, 20)) { case 0: nx_bit_array_set_zero(n, b); std::fill(v.begin(), v.end(), 0); break; case 1: case 2: case 3: CHECK(!!nx_bit_array_get(b, k) == !!v[k], "bit %zu is %d", k, !!nx_bit_array_get(b, k)); break; default: { int x = g.b(0.6) ? (int)g.pick<double>({1, 2, -1, 256}) : 0; nx_bit_array_set(b, k, x); v[k] = x != 0; } } } for (size_t k = 0; k < n; ++k) CHECK(!!nx_bit_array_get(b, k) == !!v[k], "bit %zu of %zu is %d", k, n, !!nx_bit_array_get(b, k)); g.note("%zu bits, %d operations", n, ops); g.nontrivial(n % 8 != 0);
}
FACET(order, 0.8, "sign, minimum, maximum and sorting comparisons of any ints, floats and doubles, infinities, subnormals and extremes included; nontrivial: distinct arguments")
{
        int a = g.any_int(), b = g.b(0.2) ? a : g.any_int(); CHECK(nx_min_i(a, b) == std::min(a, b) && nx_max_i(a, b) == std::max(a, b), "%d %d: min %d max %d", a, b, nx_min_i(a, b), nx_max_i(a, b)); double c = g.any_double(), d = g.b(0.2) ? c : g.any_double(); if (std::isnan(c) || std::isnan(d)) g.discard(); CHECK(nx_min_d(c, d) == std::min(c, d) && nx_max_d(c, d) == std::max(c, d), "%g %g: min %g max %g", c, d, nx_min_d(c, d), nx_max_d(c, d)); float e = (float)c, f = (float)d; CHECK(nx_min_s(e, f) == std::min(e, f) && nx_max_s(e, f) == std::max(e, f), "%g %g: min %g max %g", e, f, nx_min_s(e, f), nx_max_s(e, f)); CHECK(nx_signum(c) == (c > 0) - (c < 0), "sign of %g is %d", c, nx_signum(c)); int ci = nx_compare_int_incr(&a, &b), cd = nx_compare_double_incr(&c, &d); CHECK((ci > 0) - (ci < 0) == (a > b) - (a < b), "%d compares to %d as %d", a, b, ci); CHECK((cd > 0) - (cd < 0) == (c > d) - (c < d), "%g compares to %g as %d", c, d, cd); g.note("%d %d %g %g", a, b, c, d); g.nontrivial(a != b && c != d);
}
FACET(erf, 0.8, "the error function over the whole real line: within 2e-7 of the true value, odd, and within [-1,1]; nontrivial: away from the tails")
{
        double x = g.b(0.8) ? g.real(-6, 6) : g.any_double(); if (std::isnan(x)) g.discard(); double y = nx_erf(x); CHECK(std::fabs(y - std::erf(x)) < 2e-7, "erf(%g) is %.12g, true value %.12g", x, y, std::erf(x)); CHECK(std::fabs(y) <= 1.0, "erf(%g) is %.17g", x, y); CHECK(x == 0 || nx_erf(-x) == -y, "erf(%g) is %.17g, of the negative %.17g", x, y, nx_erf(-x)); g.note("%g", x); g.nontrivial(std::fabs(x) < 4);
}
#include "virg/nexus/nx_timing.h"
FACET(timer, 0.3, "timers with any start and stop readings, and readings of the real clock around a short wait: the measure is stop minus start in milliseconds; nontrivial: nanoseconds of the stop below those of the start")
{
        NXTimer t; t.start.tv_sec = (time_t)g.u(0, 4000000000); t.stop.tv_sec = t.start.tv_sec + (time_t)(g.b() ? g.u(0, 3) : g.u(0, 100000000)); t.start.tv_nsec = (long)g.u(0, 999999999); t.stop.tv_nsec = (long)g.u(0, 999999999); long double want = (long double)(t.stop.tv_sec - t.start.tv_sec) * 1000 + (long double)(t.stop.tv_nsec - t.start.tv_nsec) / 1000000; double d = nx_timer_measure_in_msec(&t); CHECK(fabsl(d - want) <= 1e-9L + 1e-15L * fabsl(want), "measure is %.17g, expected %.17Lg", d, want); g.note("%.9Lg ms", want); g.nontrivial(t.stop.tv_nsec < t.start.tv_nsec);
        timespec a, b; clock_gettime(CLOCK_MONOTONIC_RAW, &a); nx_timer_start(&t); timespec c, e; clock_gettime(CLOCK_MONOTONIC_RAW, &c); nx_timer_stop(&t); clock_gettime(CLOCK_MONOTONIC_RAW, &b); (void)e; auto ms = [](timespec x, timespec y) { return (double)(y.tv_sec - x.tv_sec) * 1e3 + (double)(y.tv_nsec - x.tv_nsec) * 1e-6; }; double r = nx_timer_measure_in_msec(&t); CHECK(r >= 0 && r <= ms(a, b) + 1e-6, "timer measures %g ms within %g ms", r, ms(a, b));
}
