// C08: SHA-256, whole and in pieces, against an independent implementation (OpenSSL-free, written from FIPS 180-4).
#include "core.hpp"
#include "virg/nexus/nx_hash_sha256.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_alloc.h"
#include <array>

typedef std::vector<uint8_t> Bytes;
typedef std::array<uint8_t, 32> Dig;

// --- reference: round constants derived from the first 64 primes ------------------------------
static uint32_t frac_bits(long double x) { long double f = x - floorl(x); return (uint32_t)(uint64_t)floorl(f * 4294967296.0L); }
static Dig ref_sha256(const Bytes &m)
{
        static uint32_t K[64], H0[8]; static bool init = false;
        if (!init) {
                int n = 0;
                for (int p = 2; n < 64; ++p) {
                        bool pr = true;
                        for (int q = 2; q * q <= p; ++q) if (p % q == 0) { pr = false; break; }
                        if (!pr) continue;
                        K[n] = frac_bits(cbrtl((long double)p));
                        if (n < 8) H0[n] = frac_bits(sqrtl((long double)p));
                        ++n;
                }
                init = true;
        }
        Bytes d(m);
        uint64_t bits = (uint64_t)m.size() * 8;
        d.push_back(0x80);
        while (d.size() % 64 != 56) d.push_back(0);
        for (int k = 7; k >= 0; --k) d.push_back((uint8_t)(bits >> (8 * k)));
        uint32_t h[8]; memcpy(h, H0, sizeof h);
        auto rr = [](uint32_t x, int k) { return (x >> k) | (x << (32 - k)); };
        for (size_t o = 0; o < d.size(); o += 64) {
                uint32_t w[64];
                for (int t = 0; t < 16; ++t) w[t] = (uint32_t)d[o+4*t] << 24 | (uint32_t)d[o+4*t+1] << 16 | (uint32_t)d[o+4*t+2] << 8 | d[o+4*t+3];
                for (int t = 16; t < 64; ++t) {
                        uint32_t s0 = rr(w[t-15], 7) ^ rr(w[t-15], 18) ^ (w[t-15] >> 3);
                        uint32_t s1 = rr(w[t-2], 17) ^ rr(w[t-2], 19) ^ (w[t-2] >> 10);
                        w[t] = w[t-16] + s0 + w[t-7] + s1;
                }
                uint32_t a[8]; memcpy(a, h, sizeof a);
                for (int t = 0; t < 64; ++t) {
                        uint32_t S1 = rr(a[4], 6) ^ rr(a[4], 11) ^ rr(a[4], 25), ch = (a[4] & a[5]) ^ (~a[4] & a[6]);
                        uint32_t t1 = a[7] + S1 + ch + K[t] + w[t];
                        uint32_t S0 = rr(a[0], 2) ^ rr(a[0], 13) ^ rr(a[0], 22), mj = (a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]);
                        uint32_t t2 = S0 + mj;
                        a[7] = a[6]; a[6] = a[5]; a[5] = a[4]; a[4] = a[3] + t1; a[3] = a[2]; a[2] = a[1]; a[1] = a[0]; a[0] = t1 + t2;
                }
                for (int k = 0; k < 8; ++k) h[k] += a[k];
        }
        Dig r;
        for (int k = 0; k < 8; ++k) for (int j = 0; j < 4; ++j) r[4*k+j] = (uint8_t)(h[k] >> (24 - 8*j));
        return r;
}
static std::string hex(const uint8_t *p, size_t n) { std::string s; for (size_t k = 0; k < n; ++k) s += strf("%02x", p[k]); return s; }

static Bytes gen_msg(Gen &g, size_t maxn)
{
        size_t n;
        switch (g.draw(4)) {
        case 0: n = (size_t)g.u(0, 70); break;
        case 1: n = 64 * (size_t)g.u(0, 8) + (size_t)g.u(0, 12) + (g.b() ? 52 : 0); break;      // around block and padding limits
        case 2: n = 64 * (size_t)g.u(0, 8); break;
        case 3: n = (size_t)g.u(0, (int64_t)maxn); break;
        default: n = (size_t)g.u(0, 300);
        }
        Bytes m(n);
        int style = (int)g.draw(2);
        uint64_t s = style == 0 ? g.draw(255) : g.bits64();
        for (size_t k = 0; k < n; ++k) {
                if (style == 0) m[k] = (uint8_t)s;
                else { s = s * 6364136223846793005ULL + 1442695040888963407ULL; m[k] = (uint8_t)(s >> 56); }
        }
        return m;
}

// exactly-sized heap copy so that ASan sees any read beyond the piece
struct Piece { uint8_t *p; size_t n; };

FACET(whole, 1, "a message of 0..5000 bytes with lengths concentrated on block and padding boundaries; non-trivial: length > 0")
{
        Bytes m = gen_msg(g, 5000);
        uint8_t *p = (uint8_t *)malloc(m.size() ? m.size() : 1);
        memcpy(p, m.data(), m.size());
        uint8_t h[34]; memset(h, 0xA5, sizeof h);
        nx_sha256(h + 1, p, m.size());
        Dig r = ref_sha256(m);
        bool same_in = memcmp(p, m.data(), m.size()) == 0;
        free(p);
        g.note("len=%zu first=%02x", m.size(), m.empty() ? 0 : m[0]);
        g.nontrivial(!m.empty());
        CHECK(memcmp(h + 1, r.data(), 32) == 0, "digest of %zu bytes is %s, expected %s", m.size(), hex(h + 1, 32).c_str(), hex(r.data(), 32).c_str());
        CHECK(h[0] == 0xA5 && h[33] == 0xA5, "bytes outside the digest were written");
        CHECK(same_in, "the message was modified");
}

FACET(split, 2, "a message cut into 1..12 pieces, empty pieces allowed anywhere, cut points biased to block boundaries; non-trivial: at least two pieces and a non-empty message")
{
        Bytes m = gen_msg(g, 2000);
        int n = (int)g.u(1, 12);
        std::vector<size_t> cut;
        for (int k = 1; k < n; ++k) {
                size_t c = (size_t)g.u(0, (int64_t)m.size());
                if (g.b(0.3)) c = std::min(m.size(), c / 64 * 64);
                if (g.b(0.2) && !cut.empty()) c = cut.back();
                cut.push_back(c);
        }
        std::sort(cut.begin(), cut.end());
        cut.insert(cut.begin(), 0); cut.push_back(m.size());
        size_t *len = (size_t *)malloc(n * sizeof(size_t));
        const uint8_t **ptr = (const uint8_t **)malloc(n * sizeof(uint8_t *));
        std::string desc;
        for (int k = 0; k < n; ++k) {
                len[k] = cut[k+1] - cut[k];
                uint8_t *q = (uint8_t *)malloc(len[k] ? len[k] : 1);
                memcpy(q, m.data() + cut[k], len[k]);
                ptr[k] = q;
                desc += strf("%zu ", len[k]);
        }
        g.note("pieces: %s", desc.c_str());
        uint8_t h[32];
        nx_sha256_multi(h, n, ptr, len);
        for (int k = 0; k < n; ++k) free((void *)ptr[k]);
        free(ptr); free(len);
        Dig r = ref_sha256(m);
        g.nontrivial(n > 1 && !m.empty());
        CHECK(memcmp(h, r.data(), 32) == 0, "digest of pieces %sis %s, expected %s", desc.c_str(), hex(h, 32).c_str(), hex(r.data(), 32).c_str());
}

FACET(gather, 1, "bytes gathered from a list of pieces by successive requests of random size (also of size zero and beyond the end); non-trivial: at least two requests")
{
        int n = (int)g.u(1, 6);
        std::vector<size_t> len(n);
        Bytes all; std::vector<Piece> pc;
        for (int k = 0; k < n; ++k) {
                len[k] = (size_t)g.u(0, 20);
                uint8_t *q = (uint8_t *)malloc(len[k] ? len[k] : 1);
                for (size_t j = 0; j < len[k]; ++j) { q[j] = (uint8_t)(17 * k + j + 1); all.push_back(q[j]); }
                pc.push_back({q, len[k]});
        }
        const void **src = (const void **)malloc(n * sizeof(void *));
        size_t *ls = (size_t *)malloc(n * sizeof(size_t));
        for (int k = 0; k < n; ++k) { src[k] = pc[k].p; ls[k] = len[k]; }
        int so = 0; size_t off = 0, pos = 0;
        int reqs = (int)g.u(1, 8);
        for (int k = 0; k < reqs; ++k) {
                size_t want = (size_t)g.u(0, 40);
                uint8_t *dst = (uint8_t *)malloc(want ? want : 1);
                size_t got = nx_memncpy_multi(dst, n, src, ls, want, &so, &off);
                size_t exp = std::min(want, all.size() - pos);
                g.note("req %zu got %zu;", want, got);
                bool ok = got == exp && memcmp(dst, all.data() + pos, exp) == 0;
                free(dst);
                CHECK(ok, "request of %zu bytes at position %zu of %zu returned %zu or wrong bytes", want, pos, all.size(), got);
                pos += exp;
        }
        g.nontrivial(reqs > 1);
        for (auto &p : pc) free(p.p);
        free(src); free(ls);
}

FACET(hexform, 0.3, "hexadecimal form of 0..64 bytes; non-trivial: at least one byte")
{
        Bytes b = g.bytes(64);
        uint8_t *p = (uint8_t *)malloc(b.size() ? b.size() : 1);
        memcpy(p, b.data(), b.size());
        char *s = nx_hash_to_str((int)b.size(), p);
        std::string got = s; nx_free(s); free(p);
        g.nontrivial(!b.empty()); g.note("%s", got.c_str());
        CHECK(got == hex(b.data(), b.size()), "hex form %s of %s", got.c_str(), hex(b.data(), b.size()).c_str());
}

static void huge(Gen &g, int pieces, int tail, const char *want)
{
        Bytes buf(1 << 20); for (size_t i = 0; i < buf.size(); ++i) buf[i] = (uint8_t)(i * 31 + (i >> 8) * 7);
        std::vector<const uint8_t *> p((size_t)pieces, buf.data()); std::vector<size_t> l((size_t)pieces, buf.size());
        p.push_back(buf.data()); l.push_back((size_t)tail);
        uint8_t h[32]; nx_sha256_multi(h, (int)p.size(), p.data(), l.data());
        g.nontrivial(); g.note("%d MiB and %d bytes", pieces, tail);
        CHECK(hex(h, 32) == want, "digest of %d MiB + %d bytes is %s, expected %s", pieces, tail, hex(h, 32).c_str(), want);
}
FACET(huge, 0.004, "a message of 512 MiB or a little more (its bit length does not fit 32 bits) given as pieces that share one 1 MiB buffer; digest compared with one computed beforehand by another implementation; non-trivial: always")
{
        if (g.b()) huge(g, 513, 3, "ac853c00f72393863f9c44578a66b2368682824460f8fb4dee932862fae38df2");
        else huge(g, 512, 0, "5572f4510d97549fd540ee906401a48dabcaf4ecd30810504556fd80407ae4de");
}
FACET(hugepad, 0.004, "the same for messages whose padding takes a block of its own; non-trivial: always")
{
        if (g.b()) huge(g, 515, 60, "9f9ca2364bbcb3cc6c57249481357f868b137cbe7a153c18ee29065ebb22c2ca");
        else huge(g, 512, 56, "609fc47c142c0ed30dd3fc0570e4e9f73242445c6a65195996525b93ad2d5e32");
}
