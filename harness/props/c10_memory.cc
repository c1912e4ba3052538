// C10: memory blocks, vectors and allocation helpers against a growable-array model.
#include "core.hpp"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_keypoint_vector.h"

// Model of one block: bytes with a known/unknown mask, and which external buffer (if any) it still refers to.
struct MB {
        NXMemBlock *m = NULL;
        std::vector<int> v;          // -1: unspecified
        size_t cap = 0;              // capacity promised so far
        void *ext = NULL;            // wrapped, non-owned memory still in use
};
struct Ext { uint8_t *p; size_t n; std::vector<uint8_t> snap; bool live; };   // memory owned by the harness

static void fill(Gen &g, uint8_t *p, size_t n, std::vector<int> &v)
{
        uint64_t s = g.bits64();
        for (size_t k = 0; k < n; ++k) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; p[k] = (uint8_t)(s >> 56); v[k] = p[k]; }
}
static void check_mb(const MB &b, const char *when)
{
        CHECK(b.m->size == b.v.size(), "%s: size is %zu, expected %zu", when, b.m->size, b.v.size());
        CHECK(b.m->capacity >= b.m->size, "%s: capacity %zu below size %zu", when, b.m->capacity, b.m->size);
        CHECK(b.m->capacity >= b.cap, "%s: capacity %zu, %zu was reserved", when, b.m->capacity, b.cap);
        if (b.ext) CHECK(b.m->ptr == b.ext, "%s: wrapped memory was replaced although large enough", when);
        const uint8_t *p = (const uint8_t *)b.m->ptr;
        for (size_t k = 0; k < b.v.size(); ++k) if (b.v[k] >= 0) CHECK(p[k] == b.v[k], "%s: byte %zu of %zu is %d, expected %d", when, k, b.v.size(), p[k], b.v[k]);
        if (b.m->capacity) { volatile uint8_t t = p[b.m->capacity - 1]; (void)t; }   // ASan: capacity is real
}
static size_t gsize(Gen &g) { return (size_t)(g.b(0.7) ? g.u(0, 20) : g.b(0.8) ? g.u(0, 300) : g.u(0, 20000)); }

FACET(blocks, 4, "2-3 blocks and 1-25 operations (reserve, resize, release, wrap with and without ownership, swap, copy into another or a new block, zero, write bytes); contents, size, capacity and the wrapped buffers are compared with a byte-array model after each. Non-trivial: at least 6 operations and one wrap")
{
        size_t h0 = c_heap_bytes();
        {
        std::vector<MB> B((size_t)g.u(2, 3)); std::vector<Ext> X; X.reserve(64);
        for (auto &b : B) {
                if (g.b()) { size_t n = gsize(g); b.m = nx_mem_block_new(n); b.v.assign(n, -1); } else b.m = nx_mem_block_alloc();
                check_mb(b, "new block");
        }
        int n = (int)g.u(1, 25), wraps = 0;
        for (int k = 0; k < n; ++k) {
                MB &b = B[(size_t)g.u(0, (int64_t)B.size() - 1)];
                char op[64]; op[0] = 0;
                auto grow = [&](size_t cap) { if (cap > b.m->capacity) b.ext = NULL; };
                switch (g.pick_idx({3, 5, 1, 3, 2, 3, 1, 4, 1})) {
                case 0: { size_t c = gsize(g); snprintf(op, 64, "reserve %zu", c); grow(c); void *r = nx_mem_block_reserve(b.m, c); CHECK(r == b.m->ptr, "reserve returned another pointer"); b.cap = std::max(b.cap, c); break; }
                case 1: { size_t c = gsize(g); snprintf(op, 64, "resize %zu", c); grow(c); void *r = nx_mem_block_resize(b.m, c); CHECK(r == b.m->ptr, "resize returned another pointer"); b.v.resize(c, -1); b.cap = std::max(b.cap, c); break; }
                case 2: snprintf(op, 64, "release"); nx_mem_block_release(b.m); b.v.clear(); b.cap = 0; b.ext = NULL;
                        CHECK(b.m->ptr == NULL && b.m->capacity == 0, "released block still holds memory"); break;
                case 3: {
                        size_t cap = gsize(g) + 1, sz = (size_t)g.u(0, (int64_t)cap); bool own = g.b();
                        snprintf(op, 64, "wrap %zu/%zu own %d", sz, cap, own); ++wraps;
                        uint8_t *p = (uint8_t *)nx_xmalloc(cap); std::vector<int> v(cap); fill(g, p, cap, v);
                        if (!own) X.push_back({p, cap, std::vector<uint8_t>(p, p + cap), true});
                        void *r = nx_mem_block_wrap(b.m, p, sz, cap, own ? NX_TRUE : NX_FALSE);
                        CHECK(r == p && b.m->ptr == p, "wrapped block does not refer to the memory given");
                        v.resize(sz); b.v = v; b.cap = cap; b.ext = own ? NULL : p;
                        break; }
                case 4: { MB &c = B[(size_t)g.u(0, (int64_t)B.size() - 1)]; if (&c == &b) continue; snprintf(op, 64, "swap");
                        nx_mem_block_swap(b.m, c.m); std::swap(b.v, c.v); std::swap(b.cap, c.cap); std::swap(b.ext, c.ext); check_mb(c, "swap, other block"); break; }
                case 5: { MB &c = B[(size_t)g.u(0, (int64_t)B.size() - 1)]; if (&c == &b) continue; snprintf(op, 64, "copy %zu bytes", c.v.size());
                        grow(c.v.size()); void *r = nx_mem_block_copy(b.m, c.m); CHECK(r == b.m->ptr, "copy returned another pointer");
                        b.v = c.v; b.cap = std::max(b.cap, c.v.size());
                        CHECK(b.m->ptr != c.m->ptr || !b.m->ptr, "copy shares memory"); check_mb(c, "copy, source"); break; }
                case 6: { snprintf(op, 64, "copy0"); NXMemBlock *c = nx_mem_block_copy0(b.m); MB t; t.m = c; t.v = b.v; check_mb(t, "copy0");
                        CHECK(c->ptr != b.m->ptr || !c->ptr, "copy0 shares memory");
                        if (g.b()) { nx_mem_block_free(b.m); t.cap = 0; t.ext = NULL; b = t; } else nx_mem_block_free(c);
                        break; }
                case 7: { snprintf(op, 64, "write"); if (!b.v.empty()) fill(g, (uint8_t *)b.m->ptr, b.v.size(), b.v); break; }
                default: snprintf(op, 64, "zero"); nx_mem_block_set_zero(b.m); for (auto &c : b.v) c = 0;
                }
                // external buffers: those still referred to follow the block, the others keep what they had when left
                for (auto &x : X) {
                        bool used = false;
                        for (auto &c : B) if (c.ext == x.p) { used = true; x.snap.assign(x.p, x.p + x.n); }
                        if (!used) CHECK(memcmp(x.p, x.snap.data(), x.n) == 0, "%s: memory given up by a block was written to", op);
                }
                for (auto &c : B) check_mb(c, op);
                g.note("%s", op);
        }
        g.nontrivial(n >= 6 && wraps > 0);
        for (auto &b : B) nx_mem_block_free(b.m);
        for (auto &x : X) { for (size_t k = 0; k < x.n; ++k) CHECK(x.p[k] == x.snap[k], "memory of the caller changed by freeing the blocks"); nx_free(x.p); }
        nx_mem_block_free(NULL);
        }
        CHECK(c_heap_bytes() == h0, "%zd bytes of memory not returned", (ssize_t)c_heap_bytes() - (ssize_t)h0);
}

// --- vectors ---------------------------------------------------------------------------------------
struct VItem { char a[7]; };
#define NX_VECTOR_NAME HVec
#define NX_VECTOR_FUNC(fn) hvec_##fn
#define NX_VECTOR_ITEM struct VItem
#undef VIRG_NEXUS_NX_VECTOR_GEN_H
#include "virg/nexus/nx_vector_gen.h"
#include "nx_vector_gen.c"
#undef NX_VECTOR_NAME
#undef NX_VECTOR_FUNC
#undef NX_VECTOR_ITEM

template <class V, class T> struct Ops {
        V *(*alloc)(); V *(*anew)(int); void (*afree)(V *); void (*release)(V *); void (*reserve)(V *, size_t); void (*resize)(V *, size_t);
        void (*clear)(V *); void (*wrap)(V *, T *, size_t, size_t, NXBool); V *(*copy0)(const V *); void (*copy)(V *, const V *); T *(*push)(V *);
        typedef V Vec; typedef T Item;
};
template <class O> static void run_vec(Gen &g, const O &o)
{
        typedef typename O::Vec V; typedef typename O::Item T;
        struct M { V *v; std::vector<int> id; size_t cap; T *ext; };    // id: value tag per element, -1 unspecified
        auto put = [](T *t, int id) { memset((void *)t, 0, sizeof(T)); uint8_t *p = (uint8_t *)t; for (size_t k = 0; k < sizeof(T); ++k) p[k] = (uint8_t)((id >> (8 * (k % 4))) + (int)k * 37); };
        auto is = [](const T *t, int id) { const uint8_t *p = (const uint8_t *)t; for (size_t k = 0; k < sizeof(T); ++k) if (p[k] != (uint8_t)((id >> (8 * (k % 4))) + (int)k * 37)) return false; return true; };
        struct E { T *p; size_t n; std::vector<uint8_t> snap; };
        size_t h0 = c_heap_bytes();
        {
        std::vector<M> B(2); std::vector<E> X; int next = 1;
        auto chk = [&](M &m, const char *w) {
                CHECK(m.v->size == m.id.size(), "%s: vector size %zu, expected %zu", w, m.v->size, m.id.size());
                CHECK(m.v->capacity >= m.v->size && m.v->capacity >= m.cap, "%s: capacity %zu, size %zu, %zu reserved", w, m.v->capacity, m.v->size, m.cap);
                if (m.ext) CHECK(m.v->data == m.ext, "%s: wrapped memory was replaced although large enough", w);
                for (size_t k = 0; k < m.id.size(); ++k) if (m.id[k] >= 0) CHECK(is(m.v->data + k, m.id[k]), "%s: element %zu of %zu differs", w, k, m.id.size());
                if (m.v->capacity) { volatile uint8_t t = ((const uint8_t *)(m.v->data + m.v->capacity))[-1]; (void)t; }
        };
        for (auto &m : B) { m.cap = 0; m.ext = NULL; if (g.b()) { int c = (int)g.u(0, 30); m.v = o.anew(c); m.cap = (size_t)c; } else m.v = o.alloc(); chk(m, "new"); }
        int n = (int)g.u(1, 40), pushes = 0;
        for (int k = 0; k < n; ++k) {
                M &m = B[(size_t)g.draw(1)], &c = B[&m == &B[0]];
                const char *w = "?";
                switch (g.pick_idx({12, 2, 4, 1, 1, 2, 2, 1, 2})) {
                case 0: { w = "push_back"; ++pushes; if (m.id.size() + 1 > m.v->capacity) m.ext = NULL; T *t = o.push(m.v); CHECK(t == m.v->data + m.id.size(), "push_back does not return the new last element"); put(t, next); m.id.push_back(next++); break; }
                case 1: { w = "reserve"; size_t s = (size_t)g.len(0, 60, 90000, 0.01); if (s > m.v->capacity) m.ext = NULL; o.reserve(m.v, s); m.cap = std::max(m.cap, s); break; }
                case 2: { w = "resize"; size_t s = (size_t)g.len(0, 40, 90000, 0.01); if (s > m.v->capacity) m.ext = NULL; o.resize(m.v, s); m.id.resize(s, -1); for (size_t q = 0; q < s; ++q) if (m.id[q] < 0) { put(m.v->data + q, next); m.id[q] = next++; } break; }
                case 3: w = "clear"; o.clear(m.v); m.id.clear(); break;
                case 4: w = "release"; o.release(m.v); m.id.clear(); m.cap = 0; m.ext = NULL; CHECK(m.v->capacity == 0, "released vector has capacity"); break;
                case 5: { w = "wrap"; size_t cap = (size_t)g.u(1, 20), sz = (size_t)g.u(0, (int64_t)cap); bool own = g.b();
                        T *p = (T *)nx_xmalloc(cap * sizeof(T)); memset((void *)p, 0, cap * sizeof(T)); m.id.clear(); 
                        for (size_t q = 0; q < sz; ++q) { put(p + q, next); m.id.push_back(next++); }
                        o.wrap(m.v, p, sz, cap, own ? NX_TRUE : NX_FALSE); m.cap = cap; m.ext = own ? NULL : p; if (!own) X.push_back({p, cap, {}});
                        break; }
                case 6: w = "copy"; if (c.id.size() > m.v->capacity) m.ext = NULL; o.copy(m.v, c.v); m.id = c.id; m.cap = std::max(m.cap, m.id.size()); CHECK(m.v->data != c.v->data || !m.v->data, "copy shares memory"); break;
                case 7: { w = "copy0"; V *t = o.copy0(m.v); M q = {t, m.id, 0, NULL}; chk(q, "copy0"); CHECK(t->data != m.v->data || !t->data, "copy0 shares memory"); if (g.b()) { o.afree(m.v); m = q; } else o.afree(t); break; }
                default: w = "write"; for (size_t q = 0; q < m.id.size(); ++q) if (g.b(0.3)) { put(m.v->data + q, next); m.id[q] = next++; }
                }
                for (auto &x : X) {
                        bool used = false; for (auto &q : B) if (q.ext == x.p) used = true;
                        if (used || x.snap.empty()) x.snap.assign((uint8_t *)x.p, (uint8_t *)(x.p + x.n));
                        else CHECK(memcmp((void *)x.p, x.snap.data(), x.snap.size()) == 0, "%s: memory given up by a vector was written to", w);
                }
                for (auto &q : B) chk(q, w);
        }
        g.note("%d operations, %d appends, sizes %zu and %zu", n, pushes, B[0].id.size(), B[1].id.size());
        g.nontrivial(pushes >= 5 && n >= 10);
        for (auto &m : B) o.afree(m.v);
        for (auto &x : X) { volatile uint8_t t = *(uint8_t *)x.p; (void)t; nx_free(x.p); }
        o.afree(NULL);
        }
        CHECK(c_heap_bytes() == h0, "%zd bytes of memory not returned", (ssize_t)c_heap_bytes() - (ssize_t)h0);
}
FACET(keypoint_vector, 3, "two keypoint vectors and 1-40 operations (append, reserve, resize, clear, release, wrap, copy, write) against a list model. Non-trivial: at least 5 appends and 10 operations")
{
        Ops<NXKeypointVector, NXKeypoint> o = {nx_keypoint_vector_alloc, nx_keypoint_vector_new, nx_keypoint_vector_free, nx_keypoint_vector_release, nx_keypoint_vector_reserve, nx_keypoint_vector_resize,
                nx_keypoint_vector_clear, nx_keypoint_vector_wrap, nx_keypoint_vector_copy0, nx_keypoint_vector_copy, nx_keypoint_vector_push_back};
        run_vec(g, o);
}
FACET(generic_vector, 2, "the generic vector instantiated for a 7-byte element, same operations and model as keypoint_vector")
{
        Ops<HVec, VItem> o = {hvec_alloc, hvec_new, hvec_free, hvec_release, hvec_reserve, hvec_resize, hvec_clear, hvec_wrap, hvec_copy0, hvec_copy, hvec_push_back};
        run_vec(g, o);
}
FACET(allocators, 1, "sizes from 0 to a few thousand and sizes that cannot be allocated, for every allocation function: zeroed memory is zero, aligned memory aligned, reallocation keeps contents, impossible requests are reported. Non-trivial: size above 0")
{
        size_t n = gsize(g), m = (size_t)g.u(1, 16);
        g.nontrivial(n > 0); g.note("%zu x %zu", n, m);
        size_t h0 = c_heap_bytes();
        uint8_t *p = (uint8_t *)(g.b() ? nx_calloc(n, m) : nx_xcalloc(n, m));
        for (size_t k = 0; k < n * m; ++k) CHECK(p[k] == 0, "calloc: byte %zu is not zero", k);
        for (size_t k = 0; k < n * m; ++k) p[k] = (uint8_t)(k * 7 + 1);
        size_t n2 = gsize(g) + 1;
        p = (uint8_t *)nx_xrealloc(p, n2);
        for (size_t k = 0; k < std::min(n * m, n2); ++k) CHECK(p[k] == (uint8_t)(k * 7 + 1), "realloc lost byte %zu", k);
        memset(p, 1, n2); nx_free(p);
        p = (uint8_t *)(g.b() ? nx_malloc(n) : nx_xmalloc(n)); if (n) memset(p, 3, n); nx_free(p); nx_free(NULL);
        size_t al = (size_t)1 << g.u(4, 8), na = al * (size_t)g.u(1, 20);
        p = (uint8_t *)(g.b() ? nx_aligned_alloc(al, na) : nx_xaligned_alloc(al, na));
        CHECK(((uintptr_t)p) % al == 0, "memory aligned to %zu expected", al); memset(p, 5, na); nx_free(p);
        CHECK(c_heap_bytes() == h0, "memory not returned");
        size_t big = ((size_t)1 << 62) + (size_t)g.u(0, 1000);
        void *q = NULL;
        CHECK(fatal([&] { q = nx_xmalloc(big); }), "nx_xmalloc of %zu bytes did not fail", big);
        CHECK(nx_malloc(big) == NULL, "nx_malloc of %zu bytes did not fail", big);
        size_t half = ((size_t)1 << 32) + (size_t)g.u(0, 9);
        CHECK(nx_calloc(half, half) == NULL, "nx_calloc of %zu x %zu bytes did not fail", half, half);
        CHECK(fatal([&] { q = nx_xcalloc(half, half); }), "nx_xcalloc of %zu x %zu bytes did not fail", half, half);
        (void)q;
}
