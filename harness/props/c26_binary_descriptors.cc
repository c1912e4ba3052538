// C26: BRIEF extraction, patterns, storage, Hamming distance and descriptor maps against direct computation.
#include "../img.hpp"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/vg_brief_extractor.hpp"
#include "virg/nexus/vg_descriptor_map.hpp"
#include "../limited.hpp"
using namespace im; using namespace virg::nexus;
struct BE { NXBriefExtractor *p; ~BE() { nx_brief_extractor_free(p); } };
struct Py { NXImagePyr *p = nullptr; ~Py() { nx_image_pyr_free(p); } };
// a pyramid with generated sizes, scales and pixels
static void gen_pyr(Gen &g, Py &y, bool exact)
{
        int n = (int)g.u(1, 5), w = (int)g.u(10, 90), h = (int)g.u(10, 90); y.p = nx_image_pyr_alloc(); nx_image_pyr_alloc_levels(y.p, n); double f = exact ? 2 : g.real(1.05, 2.2), s = 1; Rng r{g.bits64()}; int lv = g.b(0.3) ? 3 : 256;
        for (int i = 0; i < n; ++i) { nx_image_pyr_create_level(y.p, i, std::max(1, (int)(w / s)), std::max(1, (int)(h / s)), (float)s, (float)(0.5 * s)); NXImage *p = y.p->levels[i].img; for (int yy = 0; yy < p->height; ++yy) for (int x = 0; x < p->width; ++x) p->data.uc[(size_t)yy * p->row_stride + x] = (uint8_t)(r() % lv); s *= f; }
}
static std::vector<int> pattern(const NXBriefExtractor *b) { return std::vector<int>(b->offsets, b->offsets + b->n_octets * 32); }
static void gen_ext(Gen &g, NXBriefExtractor *b, bool small = false) { (void)small; b->pyr_level_offset = (int)g.pick<double>({0, 0, 1, 2, 2, 3}); }

FACET(pattern, 0.8, "sampling patterns for any number of octets, radius from 1 and seed: every offset within the radius, pairs at least three pixels apart when the radius allows, recorded limits exact, the same seed gives the same pattern after any earlier use or resizing, different seeds different ones; nontrivial: resized")
{
        int n = (int)g.u(1, 40), r = (int)(g.b(0.4) ? g.u(1, 8) : g.u(4, 60)); uint32_t s = (uint32_t)g.bits64(); BE a{nx_brief_extractor_new_with_seed(n, r, s)}, b{nx_brief_extractor_new((int)g.u(1, 50), (int)g.u(4, 30))}; int k = (int)g.u(0, 3); for (int i = 0; i < k; ++i) { nx_brief_extractor_resize(b.p, (int)g.u(1, 50), (int)g.u(4, 40)); if (g.b()) nx_brief_extractor_randomize_with_seed(b.p, (uint32_t)g.bits64()); } nx_brief_extractor_resize(b.p, n, r); nx_brief_extractor_randomize_with_seed(b.p, s); g.note("octets %d radius %d seed %u resized %d times", n, r, s, k);
        CHECK(a.p->n_octets == n && a.p->radius == r && b.p->n_octets == n && b.p->radius == r, "size"); CHECK(pattern(a.p) == pattern(b.p), "same seed, different pattern"); auto p = pattern(a.p); int l[4] = {INT_MAX, INT_MIN, INT_MAX, INT_MIN}; for (size_t i = 0; i < p.size(); i += 4) { for (int j = 0; j < 4; ++j) { CHECK(p[i + j] >= -r && p[i + j] < r, "offset %d with radius %d", p[i + j], r); l[(j & 1) * 2] = std::min(l[(j & 1) * 2], p[i + j]); l[(j & 1) * 2 + 1] = std::max(l[(j & 1) * 2 + 1], p[i + j]); } int dx = p[i] - p[i + 2], dy = p[i + 1] - p[i + 3]; if (r >= 4) CHECK(dx * dx + dy * dy >= 9, "pair (%d,%d)-(%d,%d) is closer than three pixels", p[i], p[i + 1], p[i + 2], p[i + 3]); } for (int j = 0; j < 4; ++j) CHECK(a.p->offset_limits[j] == l[j] && b.p->offset_limits[j] == l[j], "limit %d is %d, extreme offset %d", j, a.p->offset_limits[j], l[j]);
        if (r >= 6 && n >= 4) { BE c{nx_brief_extractor_new_with_seed(n, r, s + 1 + (uint32_t)g.u(0, 1000))}; CHECK(pattern(c.p) != p, "different seeds give the same pattern"); }
        g.nontrivial(k > 0);
}
static uint64_t fnv(const std::vector<int> &v) { uint64_t h = 1469598103934665603ULL; for (int x : v) { h ^= (uint32_t)x; h *= 1099511628211ULL; } return h; }
FACET(stable, 0.01, "patterns of the two published seeds and of fixed seeds are the ones of earlier releases (stored hashes); nontrivial: always")
{
        struct T { int n, r; uint32_t s; uint64_t h; } t[] = {{32, 16, NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R16, 0x5aca1a88dbb0ace8ULL}, {32, 24, NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R24, 0xa4436ad3c19e7857ULL}, {8, 10, 1u, 0x7fbdcb821b2f71c4ULL}, {64, 40, 4000000000u, 0xa742cb8729f74e5eULL}}; auto &q = t[g.u(0, 3)]; BE a{nx_brief_extractor_new_with_seed(q.n, q.r, q.s)}; uint64_t h = fnv(pattern(a.p)); CHECK(h == q.h, "pattern of seed %u (octets %d radius %d) hashes to 0x%llx", q.s, q.n, q.r, (unsigned long long)h); if (q.n == 32) { VGBriefExtractor v(32, q.r); Py y; gen_pyr(g, y, true); (void)v; } g.note("seed %u", q.s); g.nontrivial();
}
// sample position along one axis; amb: the product is too close to an integer to tell its truncation
static int samp(double v, double f, bool &amb) { double p = v * f; if (std::fabs(p - std::round(p)) < 1e-3 && !(f == 1 || f == 0.5 || f == 0.25 || f == 0.125)) amb = true; return (int)p; }
FACET(extract, 1.5, "descriptors at any point and level of generated pyramids (exact and fractional level scales, level offsets 0-3), acceptance test and C++ variants, single and for lists of keypoints into a map: acceptance exactly when every sample is inside, bits are the comparisons I0 > I1 in order; nontrivial: accepted points near the border")
{
        bool exact = g.b(0.6); Py y; gen_pyr(g, y, exact); int n = (int)g.u(1, 34), r = (int)g.u(4, 20); uint32_t seed = (uint32_t)g.bits64(); BE b{nx_brief_extractor_new_with_seed(n, r, seed)}; gen_ext(g, b.p); auto p = pattern(b.p); bool nt = false; int pts = (int)g.u(1, 12);
        for (int t = 0; t < pts; ++t) {
                int lv = (int)g.u(0, y.p->n_levels - 1), sl = lv + b.p->pyr_level_offset; NXImage *ki = y.p->levels[lv].img; auto coord = [&](int w) { return g.b(0.5) ? (int)g.u(0, w - 1) : g.b() ? (int)g.i(-2, r + 2) : w - 1 - (int)g.i(-2, r + 2); }; int x = coord(ki->width), yy = coord(ki->height); bool got = nx_brief_extractor_check_point_pyr(b.p, y.p, x, yy, lv); g.note("(%d,%d) level %d+%d of %d, image %dx%d octets %d radius %d", x, yy, lv, b.p->pyr_level_offset, y.p->n_levels, ki->width, ki->height, n, r);
                if (sl >= y.p->n_levels) { CHECK(!got, "accepted although sampling level %d does not exist", sl); continue; }
                NXImage *im = y.p->levels[sl].img; double f = (double)(y.p->levels[lv].scale / y.p->levels[sl].scale); bool in = true, amb = false, near = false; for (size_t i = 0; i < p.size(); i += 2) { int sx = samp(x + p[i], f, amb), sy = samp(yy + p[i + 1], f, amb); if (sx < 0 || sy < 0 || sx >= im->width || sy >= im->height) in = false; if ((x + p[i]) * f < 1 || (yy + p[i + 1]) * f < 1 || sx >= im->width - 1 || sy >= im->height - 1) near = true; }
                if (!amb) CHECK(got == in, "point %s although its samples are %s the image", got ? "accepted" : "refused", in ? "inside" : "not all inside"); if (!got) continue;
                std::vector<uchar> d(n, 0xA5); nx_brief_extractor_compute_pyr(b.p, y.p, x, yy, lv, d.data()); for (int i = 0; i < n * 8; ++i) { bool a = false; int x0 = samp(x + p[4 * i], f, a), y0 = samp(yy + p[4 * i + 1], f, a), x1 = samp(x + p[4 * i + 2], f, a), y1 = samp(yy + p[4 * i + 3], f, a); if (a) continue; int want = im->data.uc[(size_t)y0 * im->row_stride + x0] > im->data.uc[(size_t)y1 * im->row_stride + x1], bit = d[i / 8] >> (7 - i % 8) & 1; CHECK(bit == want, "bit %d is %d, comparison of (%d,%d) and (%d,%d) gives %d", i, bit, x0, y0, x1, y1, want); }
                nt |= near;
        }
        g.nontrivial(nt);
}
FACET(rotated, 1.2, "descriptors at any orientation: equal to the upright one at angle 0, bits are comparisons at the rotated offsets (ambiguous roundings skipped), refused exactly when a sample falls outside or the level does not exist; quarter turns checked exactly; nontrivial: accepted with rotation")
{
        Py y; gen_pyr(g, y, true); int n = (int)g.u(1, 20), r = (int)g.u(4, 16); BE b{nx_brief_extractor_new_with_seed(n, r, (uint32_t)g.bits64())}; gen_ext(g, b.p); auto p = pattern(b.p); int lv = (int)g.u(0, y.p->n_levels - 1), sl = lv + b.p->pyr_level_offset; NXImage *ki = y.p->levels[lv].img; int x = (int)g.i(-1, ki->width), yy = (int)g.i(-1, ki->height); double th = g.b(0.2) ? 0 : g.b(0.2) ? M_PI / 2 * (double)g.i(-2, 2) : g.real(-7, 7); std::vector<uchar> d(n, 0xA5); bool got = nx_brief_extractor_compute_pyr_at_theta(b.p, y.p, x, yy, lv, (float)th, d.data()); g.note("(%d,%d) level %d+%d of %d theta %g", x, yy, lv, b.p->pyr_level_offset, y.p->n_levels, th);
        if (sl >= y.p->n_levels) { CHECK(!got, "accepted although sampling level %d does not exist", sl); return; }
        NXImage *im = y.p->levels[sl].img; double f = (double)(y.p->levels[lv].scale / y.p->levels[sl].scale), c = std::cos((double)(float)th), s = std::sin((double)(float)th); bool in = true, amb = false; auto tr = [&](double v, bool &a) { v *= f; if (std::fabs(v - std::round(v)) < 2e-4) a = true; return (int)v; };
        for (int i = 0; i < n * 8; ++i) { bool a = false; const int *o = &p[4 * i]; int x0 = tr(x + c * o[0] + s * o[1], a), y0 = tr(yy - s * o[0] + c * o[1], a), x1 = tr(x + c * o[2] + s * o[3], a), y1 = tr(yy - s * o[2] + c * o[3], a); if (th == 0) a = false; bool ok = x0 >= 0 && y0 >= 0 && x1 >= 0 && y1 >= 0 && x0 < im->width && x1 < im->width && y0 < im->height && y1 < im->height; if (a) { amb = true; continue; } if (!ok) { in = false; break; } if (got) { int want = im->data.uc[(size_t)y0 * im->row_stride + x0] > im->data.uc[(size_t)y1 * im->row_stride + x1], bit = d[i / 8] >> (7 - i % 8) & 1; CHECK(bit == want, "bit %d is %d, comparison of (%d,%d) and (%d,%d) gives %d", i, bit, x0, y0, x1, y1, want); } }
        if (!in) CHECK(!got, "accepted although samples fall outside"); else if (!amb) CHECK(got, "refused although all samples are inside"); if (th == 0 && got) { CHECK(nx_brief_extractor_check_point_pyr(b.p, y.p, x, yy, lv), "accepted at angle 0 but refused upright"); std::vector<uchar> u(n); nx_brief_extractor_compute_pyr(b.p, y.p, x, yy, lv, u.data()); CHECK(u == d, "descriptor at angle 0 differs from the upright one"); }
        g.nontrivial(got && th != 0);
}
FACET(stored, 0.8, "extractor written to a stream (after other data) and read into a fresh or used one: same radius, octets, pattern, limits and level offset, stream left right behind it; every truncation fails (checked variant: fatal) without invalid access; nontrivial: octets and radius differ")
{
        int n = (int)g.u(1, 40), r = (int)g.u(4, 40); BE a{nx_brief_extractor_new_with_seed(n, r, (uint32_t)g.bits64())}, b{g.b() ? nx_brief_extractor_alloc() : nx_brief_extractor_new((int)g.u(1, 50), (int)g.u(4, 30))}; a.p->pyr_level_offset = (int)g.u(0, 5); std::string f = scratch_file("be"), pre = g.text(6), post = g.text(6); FILE *o = fopen(f.c_str(), "wb"); fwrite(pre.data(), 1, pre.size(), o); bool x = g.b(); if (x) nx_brief_extractor_xwrite(a.p, o); else CHECK(nx_brief_extractor_write(a.p, o) == NX_OK, "write failed"); fwrite(post.data(), 1, post.size(), o); fclose(o); std::string all = slurp(f); size_t len = all.size() - pre.size() - post.size(); g.note("octets %d radius %d bytes %zu", n, r, len);
        { FILE *i = fopen(f.c_str(), "rb"); fseek(i, (long)pre.size(), SEEK_SET); bool fat = false; NXResult res = NX_OK; fat = fatal([&] { if (x) nx_brief_extractor_xread(b.p, i); else res = nx_brief_extractor_read(b.p, i); }); long at = ftell(i); fclose(i); CHECK(!fat && res == NX_OK, "reading back failed"); CHECK(at == (long)(pre.size() + len), "stream at %ld after reading %zu bytes", at, len); }
        CHECK(b.p->n_octets == n && b.p->radius == r && b.p->pyr_level_offset == a.p->pyr_level_offset, "read back octets %d radius %d level offset %d, written %d %d %d", b.p->n_octets, b.p->radius, b.p->pyr_level_offset, n, r, a.p->pyr_level_offset); CHECK(pattern(a.p) == pattern(b.p), "pattern changed"); for (int j = 0; j < 4; ++j) CHECK(a.p->offset_limits[j] == b.p->offset_limits[j], "limits changed");
        size_t cut = (size_t)g.u(0, len - 1); spit(f, all.substr(pre.size(), cut)); { FILE *i = fopen(f.c_str(), "rb"); NXResult res = NX_OK; bool fat = fatal([&] { if (x) nx_brief_extractor_xread(b.p, i); else res = nx_brief_extractor_read(b.p, i); }); fclose(i); CHECK(x ? fat : !fat && res != NX_OK, "stream cut after %zu of %zu bytes: no failure reported", cut, len); } if (g.b(0.3)) { std::string bad = all.substr(pre.size(), len); int v = (int)g.pick<double>({0, -1, -7, -2147483648.0}); memcpy(&bad[g.b() ? 0 : 4], &v, 4); spit(f, bad); FILE *i = fopen(f.c_str(), "rb"); bool fat = fatal([&] { nx_brief_extractor_xread(b.p, i); }); fclose(i); CHECK(fat, "extractor with a size of %d was read without failure", v); }
        remove(f.c_str());
        g.nontrivial(n != r);
}
FACET(map, 1.2, "descriptor maps through random histories (add, clear, change of size, reserve, keypoint lists) with repeated ids and near-duplicate descriptors: distance is the number of differing bits, nearest neighbour (first among equals) and search by id equal an exhaustive model; nontrivial: several entries with ties")
{
        int n = (int)g.u(1, 40); VGDescriptorMap M(n); CHECK(M.n_octets() == n && M.size() == 0, "new map"); std::vector<std::pair<uint64_t, std::vector<uchar>>> v; int ops = (int)g.u(1, 40); bool tie = false; if (g.b(0.02)) { int pre = (int)g.u(100, 1500); Rng r{g.bits64()}; for (int i = 0; i < pre; ++i) { std::vector<uchar> d(n); for (auto &x : d) x = (uchar)r(); M.add((uint64_t)i, d.data()); v.push_back({(uint64_t)i, d}); } }
        auto gd = [&]() { std::vector<uchar> d(n); if (!v.empty() && g.b(0.6)) { d = v[g.u(0, v.size() - 1)].second; int k = (int)g.u(0, 3); while (k--) d[g.u(0, n - 1)] ^= (uchar)(1 << g.u(0, 7)); } else for (auto &x : d) x = (uchar)g.u(0, 255); return d; };
        auto dist = [&](const std::vector<uchar> &a, const std::vector<uchar> &b) { int s = 0; for (int i = 0; i < n; ++i) s += __builtin_popcount(a[i] ^ b[i]); return s; };
        for (int o = 0; o < ops; ++o) switch (g.u(0, 9)) {
        case 0: if (g.b(0.2)) { M.clear(); v.clear(); } break;
        case 1: if (g.b(0.2)) { n = (int)g.u(1, 40); M.set_n_octets(n); v.clear(); CHECK(M.n_octets() == n && M.size() == 0, "size change"); } break;
        case 2: M.reserve((int)g.u(0, 60)); break;
        case 3: case 4: { auto q = gd(), e = gd(); int a = nx_brief_extractor_descriptor_distance(n, q.data(), e.data()); CHECK(a == dist(q, e) && VGBriefExtractor::distance_of(n, e.data(), q.data()) == a, "distance %d, differing bits %d", a, dist(q, e)); uint64_t id = v.size() > 90 && g.b() ? g.u(0, v.size() + 5) : g.u(0, 30); auto *p = M.search_by_id(id); const std::vector<uchar> *w = nullptr; for (auto &x : v) if (x.first == id) { w = &x.second; break; } CHECK((p != nullptr) == (w != nullptr), "id %llu %s", (unsigned long long)id, p ? "found" : "not found"); if (p) CHECK(memcmp(p, w->data(), n) == 0, "descriptor of id %llu", (unsigned long long)id);
                if (!v.empty()) { auto r = M.search_nn(q.data()); int best = INT_MAX, bi = 0, c = 0; for (size_t i = 0; i < v.size(); ++i) { int d = dist(v[i].second, q); if (d < best) { best = d; bi = (int)i; c = 1; } else if (d == best) ++c; } (void)bi; tie |= c > 1; CHECK(r.match_cost == (float)best, "nearest neighbour at %g, exhaustive search %d", r.match_cost, best); bool ok = false; for (auto &x : v) ok |= x.first == r.id && dist(x.second, q) == best; CHECK(ok, "id %llu has no descriptor at distance %d", (unsigned long long)r.id, best); } } break;
        default: { auto d = gd(); uint64_t id = g.b(0.1) ? g.bits64() : g.u(0, 30); M.add(id, d.data()); v.push_back({id, d}); } }
        CHECK(M.size() == (int)v.size(), "%d entries, %zu added", M.size(), v.size()); for (int i = 0; i < M.size(); ++i) CHECK(M.get_id(i) == v[i].first && memcmp(M.get_descriptor(i), v[i].second.data(), n) == 0, "entry %d", i); g.note("%zu entries of %d octets", v.size(), n); g.nontrivial(tie);
}
FACET(lists, 0.6, "C++ extraction of keypoint lists into a map over a real pyramid: exactly the accepted keypoints in order with their ids and descriptors, agreeing with the C functions; nontrivial: some keypoints refused")
{
        Mod m = gen_mod(g, 30, 120, 30, 120, 1, false); VGImage im(make(m, gen_stride(g, m), g.bits64()), true); int r = (int)g.pick<double>({16, 24, 8}), n = (int)g.u(1, 33); VGImagePyr P = VGImagePyr::build_fast_from(im, (int)g.u(3, 4), 0.5f); VGBriefExtractor B(g.b() ? 32 : n, r); if (g.b()) B.resize(n, r); else { VGBriefExtractor C(n, r); B = C; } uint32_t seed = r == 16 ? NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R16 : NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R24; if (g.b()) { seed = (uint32_t)g.bits64(); B.randomize_with_seed(seed); } BE b{nx_brief_extractor_new_with_seed(n, r, seed)};
        std::vector<NXKeypoint> k((size_t)g.u(0, 20)); for (auto &q : k) { memset(&q, 0, sizeof q); q.level = (int)g.u(0, P.n_levels() - 1); q.x = (int)g.u(0, std::max(1, P[q.level].width()) - 1); q.y = (int)g.u(0, std::max(1, P[q.level].height()) - 1); q.id = g.bits64(); q.scale = P.level_scale(q.level); } VGDescriptorMap M(n); B.compute_pyr(P, (int)k.size(), k.data(), M); int at = 0; for (auto &q : k) { bool ok = nx_brief_extractor_check_point_pyr(b.p, P.nx_pyr(), q.x, q.y, q.level); CHECK(B.check_keypoint_pyr(P, q) == ok && B.check_point_pyr(P, q.x, q.y, q.level) == ok, "C++ acceptance differs"); if (!ok) continue; std::vector<uchar> d(n), e(n), h(n); nx_brief_extractor_compute_pyr(b.p, P.nx_pyr(), q.x, q.y, q.level, d.data()); B.compute_pyr(P, q, e.data()); B.compute_pyr(P, q.x, q.y, q.level, h.data()); CHECK(d == e && d == h, "C++ descriptor differs"); CHECK(at < M.size() && M.get_id(at) == q.id && memcmp(M.get_descriptor(at), d.data(), n) == 0, "map entry %d is not the descriptor of the keypoint", at); ++at; } CHECK(at == M.size(), "%d entries for %d accepted keypoints", M.size(), at); g.note("%zu keypoints, %d accepted, octets %d radius %d", k.size(), at, n, r);
        g.nontrivial(at < (int)k.size() && at > 0);
}
FACET(refused, 0.3, "extractors written to a stream that takes any number of bytes below the whole and then fails, for good or once: the failure is reported (checked variant: fatal), and none when everything fits; nontrivial: some bytes fit")
{
        BE e{nx_brief_extractor_new_with_seed((int)g.u(1, 8), (int)g.u(1, 20), (int)g.u(0, 999))}; bool x = g.b(), bad = false; auto w = [&](FILE *f) { if (x) bad = pbt::fatal([&] { nx_brief_extractor_xwrite(e.p, f); }); else bad = nx_brief_extractor_write(e.p, f) != NX_OK; }; size_t all = pbt::full_size(w); CHECK(!bad, "failure reported on a stream that takes everything"); size_t room = g.b(0.3) ? all - 1 : (size_t)g.u(0, (int64_t)all - 1); g.note("%zu of %zu bytes fit", room, all); { pbt::Limited l(room, g.b()); w(l.f); CHECK(bad, "success reported though only %zu of %zu bytes fit", room, all); } { pbt::Limited l(all); w(l.f); CHECK(!bad && l.taken == all, "fails with exactly enough room"); } g.nontrivial(room > 0);
}
