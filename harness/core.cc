#include "core.hpp"
#include <sys/mman.h>
#undef fclose
#undef tmpfile
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unordered_set>

extern "C" {
#include "virg/nexus/nx_log.h"
}
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_ASAN)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" const char *__asan_default_options() {
        return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:"
               "abort_on_error=0:exitcode=77:handle_abort=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
               "alloc_dealloc_mismatch=1:detect_stack_use_after_return=0:print_summary=1:quarantine_size_mb=16:hard_rss_limit_mb=6000";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=77:print_stacktrace=0"; }
#endif

#include <new>
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p);
// C++ allocations are counted so that c_heap_bytes() sees only memory obtained through malloc
static size_t g_new_bytes = 0;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); g_new_bytes += __sanitizer_get_allocated_size(p); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { g_new_bytes -= __sanitizer_get_allocated_size(p); free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

namespace pbt {

std::string strf(const char *fmt, ...)
{
        va_list ap; va_start(ap, fmt);
        char *p = nullptr;
        int n = vasprintf(&p, fmt, ap);
        va_end(ap);
        std::string s(p ? p : "", n > 0 ? n : 0);
        free(p);
        return s;
}
void fail(const char *fmt, ...)
{
        va_list ap; va_start(ap, fmt);
        char *p = nullptr;
        int n = vasprintf(&p, fmt, ap);
        va_end(ap);
        std::string s(p ? p : "", n > 0 ? n : 0);
        free(p);
        throw Fail{s};
}

static inline uint64_t splitmix(uint64_t &x)
{
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

Gen::Gen(uint64_t seed) : m_replay(false)
{
        uint64_t s = seed;
        for (int i = 0; i < 4; ++i) m_s[i] = splitmix(s);
}
Gen::Gen(const uint64_t *c, size_t n) : m_replay(true), m_in(c, c + n) { memset(m_s, 0, sizeof m_s); }

uint64_t Gen::next64()
{
        const uint64_t r = rotl(m_s[1] * 5, 7) * 9, t = m_s[1] << 17;
        m_s[2] ^= m_s[0]; m_s[3] ^= m_s[1]; m_s[1] ^= m_s[2]; m_s[0] ^= m_s[3];
        m_s[2] ^= t; m_s[3] = rotl(m_s[3], 45);
        return r;
}

uint64_t Gen::draw(uint64_t bound)
{
        uint64_t v;
        if (m_replay) {
                v = m_pos < m_in.size() ? m_in[m_pos] : 0;
                ++m_pos;
                if (v > bound) v = bound;
        } else {
                v = next64();
                if (bound != UINT64_MAX) v %= (bound + 1);
        }
        if (m_out.size() > (1u << 21)) throw Discard();
        m_out.push_back(v);
        if (m_sink && m_out.size() <= m_sink_cap) { m_sink[m_out.size()-1] = v; *m_sink_n = m_out.size(); }
        return v;
}
int64_t Gen::u(int64_t lo, int64_t hi)
{
        if (hi <= lo) return lo;
        return lo + (int64_t)draw((uint64_t)(hi - lo));
}
int64_t Gen::i(int64_t lo, int64_t hi)
{
        if (hi <= lo) return lo;
        uint64_t span = (uint64_t)hi - (uint64_t)lo;
        switch (draw(9)) {
        case 0: return lo;
        case 1: return hi;
        case 2: case 3: case 4: { // small offset from lo, or from zero
                uint64_t k = draw(std::min<uint64_t>(span, 8));
                if (lo < 0 && hi > 0) { int64_t v = (int64_t)k - 4; return v < lo ? lo : v > hi ? hi : v; }
                return lo + (int64_t)k;
        }
        case 5: return hi - (int64_t)draw(std::min<uint64_t>(span, 8));
        case 6: { // log-uniform magnitude
                int nb = (int)draw(63);
                uint64_t v = draw(UINT64_MAX) & ((nb >= 63) ? INT64_MAX : ((1ULL << (nb + 1)) - 1));
                if (v > span) v %= (span + 1);
                return (int64_t)((uint64_t)lo + v);
        }
        default: return (int64_t)((uint64_t)lo + draw(span));
        }
}
bool Gen::b(double p)
{
        if (p <= 0) return false;
        uint64_t v = draw(999999);
        return v >= (uint64_t)((1.0 - p) * 1000000.0);
}
double Gen::real(double lo, double hi)
{
        uint64_t v = draw((1ULL << 53) - 1);
        return lo + (hi - lo) * ((double)v / (double)(1ULL << 53));
}
double Gen::gauss()
{
        double s = 0;
        for (int k = 0; k < 12; ++k) s += (double)draw((1u << 20) - 1) / (double)(1u << 20);
        return s - 6.0;
}
int Gen::pick_idx(const std::vector<int> &w)
{
        int64_t tot = 0;
        for (int x : w) tot += x;
        int64_t v = u(0, tot - 1);
        for (size_t k = 0; k < w.size(); ++k) { if (v < w[k]) return (int)k; v -= w[k]; }
        return (int)w.size() - 1;
}
double Gen::any_double()
{
        switch (draw(9)) {
        case 0: return 0.0;
        case 1: return (double)u(-10, 10);
        case 2: return (double)u(-1000000, 1000000) / 8.0;
        case 3: return real(-1.0, 1.0);
        case 4: return real(-1e6, 1e6);
        case 5: { // any finite bit pattern
                uint64_t v = draw(UINT64_MAX); double d; memcpy(&d, &v, 8);
                return std::isfinite(d) ? d : 1.5;
        }
        case 6: { double e = real(-300, 300); double m = real(1, 10); return (b() ? -1 : 1) * m * std::pow(10.0, std::floor(e)); }
        case 7: { static const double sp[] = {DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, DBL_EPSILON, 4.9406564584124654e-324, 1e-310, -0.0, 1.0/3, 2.0/3, 1e15, 1e16, 1e17, 123456789.125, 0.1, 1e22, 1e23};
                return sp[draw(sizeof sp/sizeof sp[0] - 1)]; }
        case 8: { double d = (double)u(-100000, 100000); return d / 1000.0; }
        default: return real(-100, 100);
        }
}
int Gen::any_int()
{
        switch (draw(5)) {
        case 0: return (int)u(-5, 5);
        case 1: return (int)u(-1000, 1000);
        case 2: { static const int sp[] = {INT_MAX, INT_MIN, INT_MAX-1, INT_MIN+1, 0, 65535, 65536, -65536, 1<<30, 255, 256, -128};
                return sp[draw(sizeof sp/sizeof sp[0] - 1)]; }
        default: return (int)(uint32_t)draw(UINT32_MAX);
        }
}
std::string Gen::str(size_t max_len, const std::string &a)
{
        size_t n = (size_t)u(0, (int64_t)max_len);
        if (b(0.5)) n = std::min<size_t>(n, (size_t)u(0, 6));
        std::string s;
        for (size_t k = 0; k < n; ++k) s += a[(size_t)draw(a.size() - 1)];
        return s;
}
std::string Gen::text(size_t max_len)
{
        size_t n = (size_t)u(0, (int64_t)max_len);
        if (b(0.5)) n = std::min<size_t>(n, (size_t)u(0, 6));
        int style = (int)draw(3);
        std::string s;
        for (size_t k = 0; k < n; ++k) {
                char c;
                switch (style) {
                case 0: c = (char)('a' + draw(25)); break;
                case 1: c = (char)(' ' + draw(94)); break;
                case 2: { static const char sp[] = "\"\\/,;:\n\r\t '{}[]|-_.#%$0123456789eE+\a\b\f\v\x7f\xff\x80\xc3\xa9"; c = sp[draw(sizeof sp - 2)]; break; }
                default: c = (char)(1 + draw(254));
                }
                s += c;
        }
        return s;
}
std::vector<uint8_t> Gen::bytes(size_t max_len)
{
        size_t n = (size_t)u(0, (int64_t)max_len);
        std::vector<uint8_t> v(n);
        size_t k = 0;
        while (k < n) { uint64_t x = draw(UINT64_MAX); for (int j = 0; j < 8 && k < n; ++j, x >>= 8) v[k++] = (uint8_t)x; }
        return v;
}
void Gen::note(const char *fmt, ...)
{
        if (m_notes.size() > 3000) return;
        va_list ap; va_start(ap, fmt);
        char *p = nullptr;
        int n = vasprintf(&p, fmt, ap);
        va_end(ap);
        if (n > 0) { if (!m_notes.empty()) m_notes += ' '; m_notes.append(p, (size_t)std::min(n, 1500)); }
        free(p);
}

std::vector<Facet> &facets() { static std::vector<Facet> f; return f; }
FacetReg::FacetReg(const char *n, const char *r, CaseFn fn, double w, bool fe) { facets().push_back(Facet{n, r, fn, w, fe}); }
static std::function<void()> g_worker_init;
void set_worker_init(std::function<void()> fn) { g_worker_init = fn; }

// ---------------------------------------------------------------- fatal hook
static thread_local int g_fatal_depth = 0;
static uint64_t g_fatals = 0;
// outcomes of the calls of fatal() in this case; when a case is repeated to look for leaks (g_skip), calls that ended in a
// fatal error the first time are left out
static std::vector<std::pair<bool, std::string>> g_died;
static size_t g_call = 0;
static bool g_leaks = false, g_skip = false;
bool fatal(const std::function<void()> &f, std::string *msg)
{
        size_t call = g_call++;
        if (g_skip && call < g_died.size() && g_died[call].first) { if (msg) *msg = g_died[call].second; return true; }
        auto rec = [&](bool d, const std::string &m) { if (g_leaks && !g_skip) { if (g_died.size() <= call) g_died.resize(call + 1); g_died[call] = {d, m}; } };
        try { ++g_fatal_depth; f(); --g_fatal_depth; rec(false, ""); return false; }
        catch (NxFatal &e) { --g_fatal_depth; if (msg) *msg = e.msg; rec(true, e.msg); return true; }
        catch (...) { --g_fatal_depth; throw; }
}

static std::string g_scratch_root, g_scratch;
const std::string &scratch()
{
        if (g_scratch.empty()) {
                g_scratch = g_scratch_root + strf("/w%d", (int)getpid());
                mkdir(g_scratch.c_str(), 0777);
        }
        return g_scratch;
}
std::string scratch_file(const std::string &n) { return scratch() + "/" + n; }
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rmtree(const std::string &d) { if (d.size() > 5) nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

size_t heap_bytes()
{
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_ASAN)
        return __sanitizer_get_current_allocated_bytes();
#else
        return 0;
#endif
}
size_t c_heap_bytes() { return heap_bytes() - g_new_bytes; }
std::string slurp(const std::string &path)
{
        std::string s; FILE *f = fopen(path.c_str(), "rb");
        if (!f) return s;
        char buf[65536]; size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
        fclose(f);
        return s;
}
void spit(const std::string &path, const std::string &d)
{
        FILE *f = fopen(path.c_str(), "wb");
        if (!f) { fprintf(stderr, "HARNESS: cannot write %s\n", path.c_str()); _exit(3); }
        fwrite(d.data(), 1, d.size(), f);
        fclose(f);
}
std::string show(const std::string &s)
{
        std::string r = "\"";
        size_t n = 0;
        for (unsigned char c : s) {
                if (++n > 400) { r += "..."; break; }
                if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
                else if (c == '\n') r += "\\n";
                else if (c >= 32 && c < 127) r += (char)c;
                else r += strf("\\x%02x", c);
        }
        return r + "\"";
}
std::string showd(double d) { return strf("%.17g", d); }
std::string capture(const std::function<void(FILE *)> &f)
{
        FILE *t = case_tmpfile();
        if (!t) { fprintf(stderr, "HARNESS: tmpfile failed\n"); _exit(3); }
        try { f(t); } catch (...) { case_fclose(t); throw; }
        fflush(t);
        std::string s; rewind(t);
        char buf[65536]; size_t n;
        while ((n = fread(buf, 1, sizeof buf, t)) > 0) s.append(buf, n);
        case_fclose(t);
        return s;
}
FILE *open_mem(const std::string &data)
{
        FILE *t = case_tmpfile();
        if (!t) { fprintf(stderr, "HARNESS: tmpfile failed\n"); _exit(3); }
        fwrite(data.data(), 1, data.size(), t);
        fflush(t);
        rewind(t);
        return t;
}

// ---------------------------------------------------------------- runner
static const size_t SINK = 1 << 20;
static const int MAXF = 64;
struct Slot {
        volatile uint64_t n_choices;
        volatile int facet;
        volatile int failed;          // 1: exception failure
        volatile uint64_t cur_seed;
        volatile uint64_t evals[MAXF], nontriv[MAXF], discards[MAXF];
        volatile double spent[MAXF];
        volatile double worst[MAXF];
        char msg[8192];
        char note[8192];
        char samples[MAXF][2][1600];
        volatile int n_samples[MAXF];
        uint64_t choices[SINK];
};

static double now()
{
        struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t hash_seq(const std::vector<uint64_t> &v, uint64_t h)
{
        for (uint64_t x : v) { h ^= x; h *= 0x100000001b3ULL; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; }
        return h;
}
static void arm(int seconds)
{
        struct itimerval it; memset(&it, 0, sizeof it);
        it.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &it, nullptr);
}
static int CASE_CPU_S = 30;

static void quiet_stdio()
{
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 1);
        dup2(fd, 0);
        if (!getenv("PBT_VERBOSE")) dup2(fd, 2);
        close(fd);
}

enum Res { PASS, FAILED, DISCARDED };
// streams opened by a case and not closed because the library ended in a fatal error
static std::set<FILE *> g_open;
FILE *case_tmpfile() { int fd = memfd_create("t", 0); FILE *f = fd < 0 ? tmpfile() : fdopen(fd, "w+b"); if (f) g_open.insert(f); return f; }
int case_fclose(FILE *f) { g_open.erase(f); return fclose(f); }
static int first_free_fd() { int d = dup(0); if (d >= 0) close(d); return d; }
struct FdGuard {
        int base;
        FdGuard() : base(first_free_fd()) {}
        ~FdGuard()
        {
                for (FILE *f : g_open) fclose(f);
                g_open.clear();
                int d = first_free_fd();
                if (base >= 0 && d > base) close_range((unsigned)base, ~0U, 0);
        }
};

// --leaks: a case that passed is repeated with the same choices, without the calls that ended in a fatal error; memory or descriptors that
// grow in every one of five repetitions after two to warm up are leaked by the library
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
static bool leaks_once(const Facet &f, const std::vector<uint64_t> &c)
{
        uint64_t f0 = g_fatals; g_call = 0; g_skip = true; struct Off { ~Off() { g_skip = false; } } off;
        try { Gen h(c.data(), c.size()); f.fn(h); } catch (Discard &) { return false; } catch (Fail &) { return false; } catch (NxFatal &) { return false; }
        for (FILE *o : g_open) fclose(o);
        g_open.clear();
        return g_fatals == f0;
}
static void check_leaks(const Facet &f, Gen &g)
{
        if (!g_open.empty()) { for (FILE *o : g_open) fclose(o); g_open.clear(); }
        const std::vector<uint64_t> c = g.choices();
        for (int k = 0; k < 2; ++k) if (!leaks_once(f, c)) { g.unreached(); return; }
        size_t h0 = heap_bytes(), hs = h0; int d0 = open_fds(), ds = d0; bool mem = true, fd = true;
        for (int k = 0; k < 5 && (mem || fd); ++k) {
                if (!leaks_once(f, c)) { g.unreached(); return; }
                size_t h = heap_bytes(); int d = open_fds(); mem = mem && h > h0; fd = fd && d > d0; h0 = h; d0 = d;
        }
        if (mem || fd) throw Fail{strf("every repetition of the same operations leaves more behind: %zu bytes and %d open files after 5 repetitions", h0 - hs, d0 - ds)};
}
static Res run_one(const Facet &f, Gen &g, std::string &msg)
{
        FdGuard fds;
        try {
                double t = now(); g_call = 0; g_died.clear();
                f.fn(g);
                if (g_leaks) { if (now() - t < 1.0) check_leaks(f, g); else g.unreached(); }
                return PASS;
        } catch (Discard &) {
                return DISCARDED;
        } catch (Fail &e) {
                msg = e.msg;
                return g_leaks && e.msg.compare(0, 16, "every repetition") ? DISCARDED : FAILED; // other failures belong to the other properties
        } catch (NxFatal &e) {
                if (g_leaks) return DISCARDED;
                msg = "library reported a fatal error where none is due: " + e.msg;
                return FAILED;
        } catch (std::exception &e) {
                msg = std::string("C++ exception: ") + e.what();
                return FAILED;
        }
}

static void install_fatal();

static void worker(Slot *s, int wid, int nw, uint64_t seed, double deadline, uint64_t max_cases, const std::vector<int> &active, int dfd)
{
        quiet_stdio();
        install_fatal();
        if (g_worker_init) g_worker_init();
        std::vector<uint64_t> idx(facets().size(), 0);
        std::vector<std::unordered_set<uint64_t>> seen(facets().size());
        auto flush = [&]() {
                for (size_t f = 0; f < seen.size(); ++f) s->nontriv[f] = seen[f].size();
        };
        while (now() < deadline) {
                // facet with the least weighted time spent, among those with cases left
                int best = -1; double bs = 1e300;
                for (int f : active) {
                        if (max_cases && idx[f] * nw + wid >= max_cases) continue;
                        // facets of very small weight (seconds per case) run on one worker only
                        if (facets()[f].weight < 0.005 && f % nw != wid && active.size() > 1) continue;
                        double w = s->spent[f] / facets()[f].weight;
                        if (idx[f] == 0) w = -1.0 + f * 1e-6;
                        if (w < bs) { bs = w; best = f; }
                }
                if (best < 0) break;
                const Facet &F = facets()[best];
                // run a small batch to amortise scheduling
                for (int k = 0; k < 4 && now() < deadline; ++k) {
                        if (max_cases && idx[best] * nw + wid >= max_cases) break;
                        uint64_t x = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
                        for (const char *p = F.name; *p; ++p) x = (x ^ (uint64_t)*p) * 0x100000001b3ULL;
                        x += (idx[best] * nw + wid) * 0x2545F4914F6CDD1DULL;
                        ++idx[best];
                        uint64_t cs = splitmix(x);
                        s->facet = best; s->cur_seed = cs; s->n_choices = 0; s->failed = 0;
                        Gen g(cs);
                        g.set_sink(s->choices, SINK, &s->n_choices);
                        std::string msg;
                        double t0 = now();
                        arm(CASE_CPU_S);
                        Res r = run_one(F, g, msg);
                        arm(0);
                        double dt = now() - t0;
                        s->spent[best] = s->spent[best] + dt + 1e-7;
                        if (dt > s->worst[best]) s->worst[best] = dt;
                        if (dt > 0.2) k = 4;
                        if (r == DISCARDED) { s->discards[best]++; continue; }
                        s->evals[best]++;
                        if (r == FAILED) {
                                s->failed = 1;
                                snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
                                snprintf(s->note, sizeof s->note, "%s", g.notes().c_str());
                                flush();
                                _exit(10);
                        }
                        if (g.is_nontrivial()) {
                                seen[best].insert(hash_seq(g.choices(), 0xcbf29ce484222325ULL + best));
                                if (s->n_samples[best] < 2 && !g.notes().empty()) {
                                        snprintf(s->samples[best][s->n_samples[best]], 1600, "%s", g.notes().c_str());
                                        s->n_samples[best]++;
                                }
                        }
                }
                flush();
        }
        flush();
        // distinct hashes for exact cross-worker deduplication
        for (size_t f = 0; f < seen.size(); ++f)
                for (uint64_t h : seen[f]) { uint64_t r[2] = {(uint64_t)f, h}; if (write(dfd, r, sizeof r) != (ssize_t)sizeof r) break; }
        _exit(12);
}

struct Attempt { bool failed; std::string msg, note, err; std::vector<uint64_t> choices; };
static Slot *g_rslot;
static Attempt attempt(int facet, const std::vector<uint64_t> &c, double wall_limit = 120)
{
        Slot *s = g_rslot;
        s->failed = 0; s->n_choices = 0; s->msg[0] = 0; s->note[0] = 0;
        char errname[] = "/tmp/pbt_err_XXXXXX";
        int efd = mkstemp(errname);
        unlink(errname);
        pid_t p = fork();
        if (p == 0) {
                quiet_stdio();
                dup2(efd, 2);
                install_fatal();
                if (g_worker_init) g_worker_init();
                Gen g(c.data(), c.size());
                g.set_sink(s->choices, SINK, &s->n_choices);
                std::string msg;
                arm(CASE_CPU_S);
                Res r = run_one(facets()[facet], g, msg);
                arm(0);
                snprintf(s->note, sizeof s->note, "%s", g.notes().c_str());
                if (r == FAILED) { s->failed = 1; snprintf(s->msg, sizeof s->msg, "%s", msg.c_str()); _exit(10); }
                _exit(r == DISCARDED ? 11 : 12);
        }
        int st = 0;
        double t0 = now();
        bool killed = false;
        int spin = 0;
        while (true) {
                pid_t q = waitpid(p, &st, WNOHANG);
                if (q == p) break;
                if (now() - t0 > wall_limit) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
                usleep(spin++ < 200 ? 200 : 2000);
        }
        Attempt a;
        a.failed = false;
        std::string err; lseek(efd, 0, SEEK_SET);
        char buf[4096]; ssize_t n;
        while ((n = read(efd, buf, sizeof buf)) > 0 && err.size() < 20000) err.append(buf, n);
        close(efd);
        size_t nc = std::min<size_t>((size_t)s->n_choices, SINK);
        a.choices.assign(s->choices, s->choices + nc);
        a.note = s->note;
        if (killed) { a.failed = true; a.msg = "hang: the case did not finish"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { a.failed = true; a.msg = s->msg; }
        else if (WIFEXITED(st) && (WEXITSTATUS(st) == 12 || WEXITSTATUS(st) == 11)) {}
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {}
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { a.failed = true; a.msg = strf("hang: more than %d s of CPU in one case", CASE_CPU_S); }
        else {
                a.failed = true;
                a.msg = WIFSIGNALED(st) ? strf("crash: signal %d", WTERMSIG(st)) : strf("crash: process ended with status %d", WEXITSTATUS(st));
                size_t k = err.find("SUMMARY:");
                if (k == std::string::npos) k = err.find("ERROR: ");
                if (k == std::string::npos) k = err.find("runtime error");
                if (k != std::string::npos) a.msg += ": " + err.substr(k, err.find('\n', k) - k);
                a.err = err;
        }
        return a;
}

static Attempt shrink(int facet, Attempt cur, double budget)
{
        double end = now() + budget;
        auto tryit = [&](const std::vector<uint64_t> &c) -> bool {
                if (now() > end) return false;
                Attempt a = attempt(facet, c, 60);
                if (!a.failed) return false;
                // only accept if simpler (shortlex)
                if (a.choices.size() > cur.choices.size()) return false;
                if (a.choices.size() == cur.choices.size() && !(a.choices < cur.choices)) return false;
                cur = a;
                return true;
        };
        bool hang = cur.msg.compare(0, 4, "hang") == 0;
        if (hang) return cur;
        bool progress = true;
        while (progress && now() < end) {
                progress = false;
                // delete chunks
                for (size_t len = std::max<size_t>(cur.choices.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
                        for (size_t p = 0; p + len <= cur.choices.size() && now() < end;) {
                                std::vector<uint64_t> c(cur.choices);
                                c.erase(c.begin() + p, c.begin() + p + len);
                                if (tryit(c)) progress = true; else p += len;
                        }
                        if (len == 1) break;
                }
                // zero chunks
                for (size_t len = std::max<size_t>(cur.choices.size() / 4, 1); len >= 1 && now() < end; len /= 2) {
                        for (size_t p = 0; p + len <= cur.choices.size() && now() < end; p += len) {
                                std::vector<uint64_t> c(cur.choices);
                                bool nz = false;
                                for (size_t k = p; k < p + len; ++k) { nz |= c[k] != 0; c[k] = 0; }
                                if (nz && tryit(c)) progress = true;
                        }
                        if (len == 1) break;
                }
                // minimise values
                for (size_t p = 0; p < cur.choices.size() && now() < end; ++p) {
                        uint64_t v = cur.choices[p];
                        if (v == 0) continue;
                        uint64_t lo = 0, hi = v;   // hi fails
                        while (lo < hi && now() < end && p < cur.choices.size()) {
                                uint64_t mid = lo + (hi - lo) / 2;
                                std::vector<uint64_t> c(cur.choices);
                                c[p] = mid;
                                if (tryit(c)) { hi = mid; progress = true; } else lo = mid + 1;
                        }
                }
        }
        return cur;
}

static std::string json_str(const std::string &s)
{
        std::string r = "\"";
        for (unsigned char c : s) {
                if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
                else if (c == '\n') r += "\\n";
                else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
                else r += (char)c;
        }
        return r + "\"";
}

static void write_replay(const std::string &path, const char *prop, const Facet &F, const Attempt &a)
{
        FILE *f = fopen(path.c_str(), "w");
        if (!f) return;
        fprintf(f, "property %s\nfacet %s\nmessage %s\ncase %s\nchoices %zu\n", prop, F.name, show(a.msg).c_str(), show(a.note).c_str(), a.choices.size());
        for (uint64_t c : a.choices) fprintf(f, "%llu\n", (unsigned long long)c);
        if (!a.err.empty()) fprintf(f, "# stderr of the failing run\n%s\n", a.err.c_str());
        fclose(f);
}

} // namespace pbt

static __NX_NO_RETURN void pbt_fatal_cb(const char *, int, const char *, const char *msg, va_list prm)
{
        char buf[1024];
        va_list again;
        va_copy(again, prm);
        int n = vsnprintf(buf, sizeof buf, msg, prm);
        std::string s = buf;
        if (n >= (int)sizeof buf) { s.assign((size_t)n + 1, 0); vsnprintf(&s[0], s.size(), msg, again); s.resize((size_t)n); }
        va_end(again);
        ++pbt::g_fatals;
        throw pbt::NxFatal{s};
}
namespace pbt { static void install_fatal() { nx_log_fatal_func(pbt_fatal_cb); nx_log_verbosity(NX_LOG_SILENT); } }

namespace pbt {

static int usage() { fprintf(stderr, "usage: pbt --property ID --seed N --seconds T --workers W --out result.json --replay-dir D | --replay FILE\n"); return 2; }

int pbt_main(int argc, char **argv)
{
        std::string prop = "X", out, rdir = ".", replay, only; std::set<std::string> without;
        uint64_t seed = 1, max_cases = 0; double seconds = 10; int nw = 8; double shrink_s = 40;
        for (int k = 1; k < argc; ++k) {
                std::string a = argv[k];
                auto nxt = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
                if (a == "--property") prop = nxt();
                else if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10);
                else if (a == "--seconds") seconds = atof(nxt().c_str());
                else if (a == "--workers") nw = atoi(nxt().c_str());
                else if (a == "--out") out = nxt();
                else if (a == "--replay-dir") rdir = nxt();
                else if (a == "--replay") replay = nxt();
                else if (a == "--facet") only = nxt();
                else if (a == "--leaks") g_leaks = true;
                else if (a == "--without") without.insert(nxt());
                else if (a == "--max-cases") max_cases = strtoull(nxt().c_str(), 0, 10);
                else if (a == "--shrink-seconds") shrink_s = atof(nxt().c_str());
                else return usage();
        }
        if (nw < 1) nw = 1;
        setenv("LC_ALL", "C", 1);
        signal(SIGPIPE, SIG_IGN);
        char root[] = "/tmp/pbt_scratch_XXXXXX";
        if (!mkdtemp(root)) { perror("mkdtemp"); return 3; }
        g_scratch_root = root;
        struct Cleanup { std::string d; ~Cleanup() { rmtree(d); } } cleanup{g_scratch_root};
        g_rslot = (Slot *)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

        if (!replay.empty()) {
                std::string txt = slurp(replay);
                std::istringstream is(txt);
                std::string line, fname; std::vector<uint64_t> c; size_t n = 0;
                while (std::getline(is, line)) {
                        if (line.compare(0, 6, "facet ") == 0) fname = line.substr(6);
                        if (line.compare(0, 8, "choices ") == 0) { n = strtoull(line.c_str() + 8, 0, 10); break; }
                }
                for (size_t k = 0; k < n && std::getline(is, line); ++k) c.push_back(strtoull(line.c_str(), 0, 10));
                for (size_t f = 0; f < facets().size(); ++f) if (fname == facets()[f].name) {
                        Attempt a = attempt((int)f, c);
                        printf("%s facet=%s\n%s\ncase: %s\n%s\n", a.failed ? "FAILED" : "PASSED", fname.c_str(), a.msg.c_str(), a.note.c_str(), a.err.c_str());
                        return a.failed ? 1 : 0;
                }
                fprintf(stderr, "no facet %s\n", fname.c_str());
                return 2;
        }

        std::vector<int> active;
        for (size_t f = 0; f < facets().size(); ++f)
                if ((only.empty() || only == facets()[f].name) && !without.count(facets()[f].name)) active.push_back((int)f);
        std::vector<Slot *> slots;
        std::vector<pid_t> pids;
        std::vector<std::string> dfiles;
        double t0 = now(), deadline = t0 + seconds;
        for (int w = 0; w < nw; ++w) {
                Slot *s = (Slot *)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                slots.push_back(s);
                std::string df = g_scratch_root + strf("/d%d", w);
                dfiles.push_back(df);
                int dfd = open(df.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
                pid_t p = fork();
                if (p == 0) { worker(s, w, nw, seed, deadline, max_cases, active, dfd); _exit(12); }
                close(dfd);
                pids.push_back(p);
        }
        struct Bad { int facet; std::vector<uint64_t> c; };
        std::vector<Bad> bad;
        int left = nw; std::vector<bool> done(nw, false);
        int harness_err = 0;
        double hard_end = deadline + 10.0 * CASE_CPU_S;
        while (left > 0) {
                int st; pid_t p = waitpid(-1, &st, WNOHANG);
                if (p <= 0) {
                        if (now() > hard_end) {
                                for (int w = 0; w < nw; ++w) if (!done[w]) kill(pids[w], SIGKILL);
                        }
                        usleep(2000);
                        continue;
                }
                int w = -1;
                for (int k = 0; k < nw; ++k) if (pids[k] == p) w = k;
                if (w < 0) continue;
                done[w] = true; --left;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 12) continue;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { harness_err++; continue; }
                Slot *s = slots[w];
                if (bad.size() < 8) bad.push_back(Bad{s->facet, std::vector<uint64_t>(s->choices, s->choices + std::min<size_t>((size_t)s->n_choices, SINK))});
                // first failure: stop the others
                for (int k = 0; k < nw; ++k) if (!done[k]) kill(pids[k], SIGTERM);
                for (int k = 0; k < nw; ++k) if (!done[k]) {
                        int st2; waitpid(pids[k], &st2, 0); done[k] = true; --left;
                        if (WIFSIGNALED(st2) && WTERMSIG(st2) == SIGTERM) continue;
                        if (WIFEXITED(st2) && WEXITSTATUS(st2) == 12) continue;
                        if (WIFEXITED(st2) && WEXITSTATUS(st2) == 3) continue;
                        if (bad.size() < 8) bad.push_back(Bad{slots[k]->facet, std::vector<uint64_t>(slots[k]->choices, slots[k]->choices + std::min<size_t>((size_t)slots[k]->n_choices, SINK))});
                }
        }
        double t1 = now();
        int violations = 0, flaky = 0;
        std::string vmsg, vpath;
        for (auto &b : bad) {
                bool all = true;
                Attempt a;
                for (int k = 0; k < 3 && all; ++k) { a = attempt(b.facet, b.c); all = a.failed; }
                if (!all) { ++flaky; continue; }
                Attempt m = shrink(b.facet, a, shrink_s);
                for (int k = 0; k < 3 && all; ++k) all = attempt(b.facet, m.choices).failed;
                if (!all) m = a;
                std::string path = rdir + strf("/%s-%s.replay", prop.c_str(), facets()[b.facet].name);
                write_replay(path, prop.c_str(), facets()[b.facet], m);
                printf("FAILURE facet=%s: %s\n  case: %s\n", facets()[b.facet].name, m.msg.c_str(), m.note.c_str());
                ++violations; vpath = path; vmsg = m.msg;
                break;
        }
        // evidence
        uint64_t ev = 0, nt = 0;
        std::set<std::pair<uint64_t, uint64_t>> uniq;
        std::map<uint64_t, uint64_t> per;
        for (auto &df : dfiles) {
                std::string d = slurp(df);
                for (size_t k = 0; k + 16 <= d.size(); k += 16) {
                        uint64_t r[2]; memcpy(r, d.data() + k, 16);
                        if (uniq.insert({r[0], r[1]}).second) per[r[0]]++;
                }
        }
        nt = uniq.size();
        if (violations || flaky) { nt = 0; for (auto *s : slots) for (size_t f = 0; f < facets().size(); ++f) nt += s->nontriv[f]; }
        std::string fj, sj, rj;
        for (int f : active) {
                uint64_t e = 0, d = 0; double worst = 0, spent = 0;
                for (auto *s : slots) { e += s->evals[f]; d += s->discards[f]; worst = std::max<double>(worst, (double)s->worst[f]); spent += s->spent[f]; }
                ev += e;
                fj += strf("%s{\"facet\":%s,\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":%llu,\"slowest_case_s\":%.4f,\"cpu_s\":%.2f,\"rule\":%s}",
                           fj.empty() ? "" : ",", json_str(facets()[f].name).c_str(), (unsigned long long)e, (unsigned long long)per[f], (unsigned long long)d, worst, spent, json_str(facets()[f].rule).c_str());
                for (auto *s : slots) if (s->n_samples[f] > 0) {
                        sj += (sj.empty() ? "" : ",") + json_str(std::string(facets()[f].name) + ": " + s->samples[f][0]);
                        break;
                }
        }
        if (!out.empty()) {
                FILE *f = fopen(out.c_str(), "w");
                fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"wall\":%.2f,\"violations\":%d,\"flaky\":%d,\"harness_errors\":%d,\"message\":%s,\"replay\":%s,\"facets\":[%s],\"samples\":[%s]}\n",
                        (unsigned long long)ev, (unsigned long long)nt, t1 - t0, violations, flaky, harness_err, json_str(vmsg).c_str(), json_str(vpath).c_str(), fj.c_str(), sj.c_str());
                fclose(f);
        }
        printf("%s: %llu evaluations, %llu distinct non-trivial, %.1f s, flaky %d, harness errors %d\n", prop.c_str(), (unsigned long long)ev, (unsigned long long)nt, t1 - t0, flaky, harness_err);
        if (violations) return 1;
        return harness_err ? 3 : 0;
}
} // namespace pbt

int main(int argc, char **argv) { return pbt::pbt_main(argc, argv); }
