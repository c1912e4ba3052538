// Property-based testing core: choice-sequence generator (integrated shrinking),
// facets, isolated workers, replay.  See DESIGN.md section "Machinery".
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <sstream>
#include <map>
#include <set>
#include <memory>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};
struct NxFatal { std::string msg; };

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

class Gen {
public:
        Gen(uint64_t seed);                                   // random mode
        Gen(const uint64_t *choices, size_t n);               // replay mode
        // primitive: uniform in [0,bound]
        uint64_t draw(uint64_t bound);
        // integer in [lo,hi], shrinks towards lo (uniform)
        int64_t  u(int64_t lo, int64_t hi);
        // integer in [lo,hi], biased to the ends and to small magnitudes
        int64_t  i(int64_t lo, int64_t hi);
        bool     b(double p = 0.5);                            // shrinks to false
        int      len(int lo, int hi, int big, double p = 0.02) { return b(p) ? (int)u(lo, big) : (int)u(lo, hi); }   // a size, sometimes a large one
        double   real(double lo, double hi);                   // uniform real, shrinks to lo-ish
        double   unit() { return real(0.0, 1.0); }
        double   gauss();
        int      pick_idx(const std::vector<int> &weights);    // weighted index
        template <class T> const T &pick(const std::vector<T> &v) { return v[(size_t)u(0, (int64_t)v.size()-1)]; }
        uint64_t bits64() { return draw(UINT64_MAX); }
        // any finite double over many magnitudes and special shapes
        double   any_double();
        int      any_int();
        // string over an alphabet
        std::string str(size_t max_len, const std::string &alphabet);
        // arbitrary bytes excluding 0
        std::string text(size_t max_len);
        std::vector<uint8_t> bytes(size_t max_len);

        // bookkeeping
        void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
        void nontrivial(bool c = true) { if (c) m_nontrivial = true; }
        void unreached() { m_nontrivial = false; }
        bool is_nontrivial() const { return m_nontrivial; }
        const std::string &notes() const { return m_notes; }
        const std::vector<uint64_t> &choices() const { return m_out; }
        [[noreturn]] void discard() { throw Discard(); }
        void set_sink(uint64_t *buf, size_t cap, volatile uint64_t *n) { m_sink = buf; m_sink_cap = cap; m_sink_n = n; }
        bool verbose = false;
private:
        uint64_t next64();
        uint64_t m_s[4];
        bool m_replay;
        std::vector<uint64_t> m_in;
        size_t m_pos = 0;
        std::vector<uint64_t> m_out;
        bool m_nontrivial = false;
        std::string m_notes;
        uint64_t *m_sink = nullptr; size_t m_sink_cap = 0; volatile uint64_t *m_sink_n = nullptr;
};

typedef std::function<void(Gen &)> CaseFn;
struct Facet {
        const char *name;
        const char *rule;     // how a case is made and what is non-trivial
        CaseFn fn;
        double weight;
        bool fork_each;       // run each case in its own child (leaky / global state)
};
std::vector<Facet> &facets();
struct FacetReg { FacetReg(const char *name, const char *rule, CaseFn fn, double weight = 1.0, bool fork_each = false); };
#define FACET(id, weight, rule) \
        static void facet_##id(::pbt::Gen &g); \
        static ::pbt::FacetReg facet_reg_##id(#id, rule, facet_##id, weight); \
        static void facet_##id(::pbt::Gen &g)
// run once per worker process before any case
void set_worker_init(std::function<void()> fn);

// --- helpers around the code under test -----------------------------------
// runs f; returns true when the library reported a fatal error (message in *msg)
bool fatal(const std::function<void()> &f, std::string *msg = nullptr);
// per-process scratch directory (removed by the parent)
const std::string &scratch();
std::string scratch_file(const std::string &name);
// bytes currently allocated on the heap (ASan)
size_t heap_bytes();
// same, without what C++ code (the harness included) allocated with new
size_t c_heap_bytes();

std::string slurp(const std::string &path);
void spit(const std::string &path, const std::string &data);
std::string show(const std::string &s);      // printable, escaped
std::string showd(double d);
// capture what f writes to a FILE*
std::string capture(const std::function<void(FILE *)> &f);
FILE *open_mem(const std::string &data);     // readable stream over a copy of data (tmpfile based)

// relative/absolute closeness
inline bool near_(double a, double b, double rel, double abs_)
{
        if (a == b) return true;
        double d = std::fabs(a - b);
        return d <= abs_ || d <= rel * std::max(std::fabs(a), std::fabs(b));
}

// streams a case opens are closed after it even when the library ended in a fatal error
FILE *case_tmpfile();
int case_fclose(FILE *f);
} // namespace pbt
#define tmpfile() ::pbt::case_tmpfile()
#define fclose(f) ::pbt::case_fclose(f)
using namespace pbt;
