// C43: the SIFT cache under crashes, full devices and concurrent use: whatever happened before, a request gives the computed result.
#include "../img.hpp"
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "virg/nexus/nx_sift_detector.h"
using namespace im; using namespace pbt;

static void clear_dir(const std::string &d) { if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) remove((d + "/" + e->d_name).c_str()); closedir(p); } }
static size_t dir_bytes(const std::string &d, int *n = nullptr) { size_t s = 0; int c = 0; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { struct stat t; if (!stat((d + "/" + e->d_name).c_str(), &t)) { s += (size_t)t.st_size; ++c; } } closedir(p); } if (n) *n = c; return s; }
// one request: cached and direct evaluation, the result as bytes
struct Job { std::function<std::string(const char *)> ask; std::string want; };
static std::string bytes(const NXKeypoint *k, const uchar *d, int n)
{
        std::string s; auto put = [&](const void *p, size_t z) { s.append((const char *)p, z); }; put(&n, 4); for (int i = 0; i < n; ++i) { put(&k[i].x, sizeof k[i].x); put(&k[i].y, sizeof k[i].y); put(&k[i].xs, 4); put(&k[i].ys, 4); put(&k[i].level, sizeof k[i].level); put(&k[i].scale, 4); put(&k[i].sigma, 4); put(&k[i].score, sizeof k[i].score); put(&k[i].ori, 4); put(&k[i].id, sizeof k[i].id); put(d + 128 * i, 128); } return s;
}
static std::string bytes(const NXPointMatch2D *c, int n)
{
        std::string s; auto put = [&](const void *p, size_t z) { s.append((const char *)p, z); }; put(&n, 4); for (int i = 0; i < n; ++i) { put(c[i].x, sizeof c[i].x); put(&c[i].sigma_x, sizeof c[i].sigma_x); put(&c[i].id, sizeof c[i].id); put(c[i].xp, sizeof c[i].xp); put(&c[i].sigma_xp, sizeof c[i].sigma_xp); put(&c[i].idp, sizeof c[i].idp); put(&c[i].match_cost, sizeof c[i].match_cost); put(&c[i].is_inlier, sizeof c[i].is_inlier); } return s;
}
static Job gen_job(Gen &g)
{
        Job j; Rng r{g.bits64()};
        if (g.b()) {
                Mod m; m.w = (int)g.u(18, 40); m.h = (int)g.u(18, 40); m.f32 = false; m.v.resize((size_t)m.w * m.h); for (auto &x : m.v) x = (double)(r() % 256); auto p = nx_sift_default_parameters(); p.double_image = g.b(0.3); p.peak_threshold = 0.005f; p.border_distance = 3; std::shared_ptr<NXImage> im(make(m), nx_image_free); auto cap = (int)g.u(0, 3);
                auto run = [im, p, cap](const char *dir) { NXSIFTDetector *d = nx_sift_detector_new(p); int c = cap; NXKeypoint *k = c ? (NXKeypoint *)nx_xmalloc(sizeof(NXKeypoint) * (size_t)c) : nullptr; uchar *q = c ? (uchar *)nx_xmalloc(128 * (size_t)c) : nullptr; struct F { NXSIFTDetector *d; NXKeypoint *&k; uchar *&q; ~F() { nx_free(k); nx_free(q); nx_sift_detector_free(d); } } f{d, k, q}; int n = dir ? nx_sift_detector_compute_with_cache(d, im.get(), &c, &k, &q, dir) : nx_sift_detector_compute(d, im.get(), &c, &k, &q); return bytes(k, q, n); };
                j.ask = run; j.want = run(nullptr); g.note("detection in %dx%d pixels, result of %zu bytes", m.w, m.h, j.want.size());
        } else {
                int n = (int)g.u(0, 60), np = (int)g.u(0, 20); auto d = std::make_shared<std::vector<uchar>>(128 * (n + 1)), e = std::make_shared<std::vector<uchar>>(128 * (np + 1)); auto k = std::make_shared<std::vector<NXKeypoint>>(n + 1), q = std::make_shared<std::vector<NXKeypoint>>(np + 1); for (auto *v : {&*d, &*e}) for (auto &x : *v) x = (uchar)(r() % 256); for (auto *v : {&*k, &*q}) for (auto &z : *v) { memset((void *)&z, 0, sizeof z); z.xs = (float)(r.unit() * 500); z.ys = (float)(r.unit() * 500); z.scale = 1; z.sigma = 2; z.id = r(); } float rat = g.b() ? 0.f : 0.97f;
                auto run = [=](const char *dir) { std::vector<NXPointMatch2D> c((size_t)n + 1); int m = dir ? nx_sift_match_brute_force_with_cache(n, k->data(), d->data(), np, q->data(), e->data(), c.data(), rat, dir) : nx_sift_match_brute_force(n, k->data(), d->data(), np, q->data(), e->data(), c.data(), rat); return bytes(c.data(), m); };
                j.ask = run; j.want = run(nullptr); g.note("matching of %d and %d, result of %zu bytes", n, np, j.want.size());
        }
        return j;
}
enum { RIGHT = 0, REFUSED = 5, WRONG = 6, KILLED = 100 };
// the request in a process of its own in which no file may grow beyond limit bytes: the process ends right there (kill) or gets an error
static pid_t start(const Job &j, const char *dir, long limit, bool kill, const int *go = nullptr)
{
        fflush(nullptr); pid_t p = fork(); if (p < 0) { fprintf(stderr, "HARNESS: fork failed\n"); _exit(3); } if (p) return p;
        if (limit >= 0) { rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); l.rlim_cur = l.rlim_max = (rlim_t)limit; signal(SIGXFSZ, kill ? SIG_DFL : SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); }
        if (go) { close(go[1]); char c; while (read(go[0], &c, 1) > 0) { } }
        int rc = 7; try { std::string s; rc = fatal([&] { s = j.ask(dir); }) ? REFUSED : s == j.want ? RIGHT : WRONG; } catch (...) { rc = 8; } _exit(rc);
}
static int finish(pid_t p) { int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGXFSZ ? KILLED : 200 + WTERMSIG(st); return WEXITSTATUS(st); }
static void ask_now(const Job &j, const std::string &dir, const char *when) { std::string s, m; bool f = fatal([&] { s = j.ask(dir.c_str()); }, &m); CHECK(!f, "%s: the request ends in a fatal error: %s", when, m.c_str()); CHECK(s == j.want, "%s: the result differs from the computed one", when); }

FACET(crash, 3.0, "a cached detection or matching is ended, or gets a write error, after any number of bytes of its cache entry, once or several times in a row: the same request made later gives the computed result, is then served from the cache, and other requests are not affected; nontrivial: ended inside the entry")
{
        std::string dir = scratch_file("crashcache"); clear_dir(dir); Job j = gen_job(g), o = gen_job(g); bool other = g.b(0.4); ask_now(j, dir, "empty cache"); size_t size = dir_bytes(dir); CHECK(size > 0, "nothing was cached"); clear_dir(dir); if (other) ask_now(o, dir, "empty cache"); int n = (int)g.u(1, 3); bool inside = false;
        for (int i = 0; i < n; ++i) { long lim = (long)(g.b(0.2) ? g.u(0, 8) : g.b(0.2) ? g.u((int64_t)size - 5 < 0 ? 0 : (int64_t)size - 5, (int64_t)size) : g.u(0, (int64_t)size)); bool kill = g.b(0.6); int r = finish(start(j, dir.c_str(), lim, kill)); g.note("%s after %ld of %zu bytes: %d", kill ? "ended" : "write error", lim, size, r); CHECK(r != WRONG, "a request with a write error after %ld bytes gave a wrong result", lim); CHECK(r == RIGHT || r == REFUSED || r == KILLED, "request with a limit of %ld bytes ended with %d", lim, r); if (lim >= (long)size) CHECK(r == RIGHT, "request with enough room ended with %d", r); inside |= r != RIGHT && lim > 0; if (r == RIGHT && lim >= (long)size) break; }
        ask_now(j, dir, "after the interruption"); int files = 0, again = 0; dir_bytes(dir, &files); ask_now(j, dir, "repeated"); size_t b = dir_bytes(dir, &again); CHECK(again == files && b >= size, "the repeated request was not served from the cache"); if (other) { ask_now(o, dir, "other request"); } ask_now(o, dir, "new request"); clear_dir(dir); g.nontrivial(inside);
}
FACET(together, 1.0, "2-4 processes that make the same or different cached requests at the same time in one directory, empty or not there yet, in several rounds: each gets the computed result, and so does a later request; nontrivial: same request")
{
        std::string dir = scratch_file("sharecache"); int np = (int)g.u(2, 4), rounds = (int)g.u(1, 6); Job a = gen_job(g), b = gen_job(g); bool mixed = g.b(0.3);
        bool fresh = g.b(); for (int k = 0; k < rounds; ++k) { clear_dir(dir); if (fresh) rmdir(dir.c_str()); int go[2]; if (pipe(go)) g.discard(); std::vector<pid_t> p; for (int i = 0; i < np; ++i) p.push_back(start(mixed && i % 2 ? b : a, dir.c_str(), -1, false, go)); close(go[0]); close(go[1]); for (pid_t q : p) { int r = finish(q); CHECK(r == RIGHT, "one of %d processes using the cache together %s (%d)", np, r == REFUSED ? "ended in a fatal error" : "did not get the computed result", r); } ask_now(a, dir, "afterwards"); } clear_dir(dir); g.note("%d processes, %d rounds", np, rounds); g.nontrivial(!mixed);
}
