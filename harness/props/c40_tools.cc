// C40: the command-line tools (nx-harris-detector, nx-sift-detector, nx-fit-homography) against the library called directly.
#include "../img.hpp"
#include "../jmodel.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_mat.h"
#include <sys/stat.h>
#include "virg/nexus/nx_alloc.h"
using namespace im; using namespace pbt;

static std::string tool(const char *n) { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, k > 0 ? k : 0); return s.substr(0, s.rfind('/') + 1) + n; }
struct Ran { int rc; std::string out, err; };
static Ran run(const char *name, std::vector<std::string> a)
{
        std::string t = tool(name), o = scratch_file("stdout"), e = scratch_file("stderr"), dir = o.substr(0, o.rfind('/')); a.insert(a.begin(), t); std::vector<char *> v; for (auto &s : a) v.push_back((char *)s.c_str()); v.push_back(nullptr); CHECK(access(t.c_str(), X_OK) == 0, "tool %s was not built", name);
        pid_t p = fork(); if (!p) { signal(SIGALRM, SIG_DFL); alarm(90); int fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fi = open("/dev/null", O_RDONLY); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:abort_on_error=0", 1); if (chdir(dir.c_str())) _exit(98); execv(t.c_str(), v.data()); _exit(97); }
        int st = 0; waitpid(p, &st, 0); Ran r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.out = slurp(o); r.err = slurp(e); unlink(o.c_str()); unlink(e.c_str());
        CHECK(r.err.find("AddressSanitizer") == std::string::npos && r.err.find("runtime error:") == std::string::npos && r.rc < 1000 && r.rc != 97 && r.rc != 98, "%s ended with %d: %s", name, r.rc, show(r.err.substr(0, 500)).c_str()); return r;
}
static void refused(const Ran &r, const char *what) { CHECK(r.rc != 0, "%s accepted", what); CHECK(r.out.empty() || r.out.find("USAGE") != std::string::npos, "%s printed results", what); CHECK(!r.err.empty(), "%s refused without a message", what); }
static Mod texture(Gen &g, int w, int h) { Mod m; m.w = w; m.h = h; m.nc = 1; m.f32 = false; m.v.assign((size_t)w * h, 0.0); uint64_t s = g.bits64() | 1; auto rnd = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (double)(s >> 11) / 9007199254740992.0; }; for (int k = 0; k < 2; ++k) { int c = k ? (int)g.u(7, 12) : (int)g.u(3, 6), gw = w / c + 3, gh = h / c + 3; std::vector<double> n(gw * gh); for (auto &x : n) x = rnd(); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double u = (double)x / c, v = (double)y / c; int i = (int)u, j = (int)v; u -= i; v -= j; u = u * u * (3 - 2 * u); v = v * v * (3 - 2 * v); auto at = [&](int a, int b) { return n[b * gw + a]; }; m.at(x, y) += (k ? 0.35 : 0.65) * 255 * ((at(i, j) * (1 - u) + at(i + 1, j) * u) * (1 - v) + (at(i, j + 1) * (1 - u) + at(i + 1, j + 1) * u) * v); } } for (auto &x : m.v) x = std::floor(x); return m; }
static Mod crop(const Mod &m, int x0, int y0, int w, int h) { Mod r; r.w = w; r.h = h; r.nc = 1; r.f32 = false; r.v.resize((size_t)w * h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) r.at(x, y) = m.at(x0 + x, y0 + y); return r; }
static std::string save(const Mod &m, const char *n) { std::string f = scratch_file(n); Holder p(make(m)); nx_image_xsave(p, f.c_str()); return f; }
static const char *pic_name(Gen &g, int k) { return g.b() ? k ? "r.png" : "l.png" : k ? "r.pgm" : "l.pgm"; }
// saves the picture, sometimes in colour; m becomes the picture the library reads from it as grayscale
static std::string save_pic(Gen &g, Mod &m, int k)
{
        if (!g.b(0.3)) return save(m, pic_name(g, k)); Mod c; c.w = m.w; c.h = m.h; c.nc = 4; c.f32 = false; c.v.resize(m.v.size() * 4); double q[3]; for (auto &x : q) x = g.real(0.3, 1); for (size_t i = 0; i < m.v.size(); ++i) { for (int j = 0; j < 3; ++j) c.v[4 * i + j] = std::floor(q[j] * m.v[i]); c.v[4 * i + 3] = 255; } std::string f = save(c, g.b() ? k ? "r.png" : "l.png" : k ? "r.ppm" : "l.ppm"); g.note("(colour)"); Holder p(nx_image_alloc()); nx_image_xload(p, f.c_str(), NX_IMAGE_LOAD_GRAYSCALE); check_shape(p, m.w, m.h, 1, false, "picture"); m = model(p); return f;
}
static std::string num(double v) { char t[40]; snprintf(t, sizeof t, "%.9g", v); return t; }
struct Keys { int n = 0, cap = 50; NXKeypoint *k; uchar *d; Keys() { k = NX_NEW(50, struct NXKeypoint); d = NX_NEW_UC(50 * 128); } ~Keys() { nx_free(k); nx_free(d); } };
static NXSIFTDetectorParams gen_par(Gen &g, std::vector<std::string> &a)
{
        NXSIFTDetectorParams p = nx_sift_default_parameters(); p.double_image = 0; if (g.b(0.3)) { p.double_image = 1; a.push_back("--sift-double-image"); } auto f = [&](const char *o, float &v, double lo, double hi) { if (g.b(0.3)) { double x = g.real(lo, hi); a.push_back(o); a.push_back(num(x)); v = (float)strtod(a.back().c_str(), nullptr); } }; auto i = [&](const char *o, int &v, int lo, int hi) { if (g.b(0.3)) { v = (int)g.u(lo, hi); a.push_back(o); a.push_back(std::to_string(v)); } };
        i("--sift-n-scales-per-octave", p.n_scales_per_octave, 1, 5); f("--sift-sigma0", p.sigma0, 0.8, 2.2); f("--sift-kernel-truncation-factor", p.kernel_truncation_factor, 2, 4.5); i("--sift-border-distance", p.border_distance, 2, 9); f("--sift-peak-threshold", p.peak_threshold, 0.005, 0.06); f("--sift-edge-threshold", p.edge_threshold, 3, 20); i("--sift-magnification-factor", p.magnification_factor, 1, 4); return p;
}
static void detect(const NXSIFTDetectorParams &p, const Mod &m, Keys &k) { NXSIFTDetector *d = nx_sift_detector_new(p); Holder im(make(m)); k.n = nx_sift_detector_compute(d, im, &k.cap, &k.k, &k.d); nx_sift_detector_free(d); }
static bool same_key(const NXKeypoint &a, const NXKeypoint &b) { return a.x == b.x && a.y == b.y && a.level == b.level && a.scale == b.scale && a.sigma == b.sigma && a.xs == b.xs && a.ys == b.ys && a.ori == b.ori && a.score == b.score && a.id == b.id; }

FACET(sift, 1.0, "textured gray or colour PNG, PGM or PPM images of 24-110 pixels a side, any detector options: nx-sift-detector prints one line for every keypoint the library finds and saves exactly these keypoints and descriptors; nontrivial: some keypoints")
{
        Mod m = texture(g, (int)g.u(24, 110), (int)g.u(24, 110)); std::string f = save_pic(g, m, 0), o = scratch_file(g.b() ? "sift.bin" : "out.sift"); std::vector<std::string> a{"-i", f}; if (o.substr(o.size() - 8) != "sift.bin" || g.b()) { a.push_back("-o"); a.push_back(o); } NXSIFTDetectorParams p = gen_par(g, a); if (g.b(0.2)) a.push_back("-v"); unlink(o.c_str()); Ran r = run("nx-sift-detector", a); Keys k; detect(p, m, k); g.note("%dx%d, %d keys", m.w, m.h, k.n); unlink(f.c_str()); CHECK(r.rc == 0, "ended with %d: %s", r.rc, show(r.err.substr(0, 300)).c_str());
        Keys s; CHECK(access(o.c_str(), R_OK) == 0, "no output file"); s.n = nx_sift_xload(o.c_str(), &s.cap, &s.k, &s.d); unlink(o.c_str()); CHECK(s.n == k.n, "saved %d keypoints, the library finds %d", s.n, k.n); for (int i = 0; i < k.n; ++i) { CHECK(same_key(s.k[i], k.k[i]), "saved keypoint %d differs", i); CHECK(!memcmp(s.d + 128 * i, k.d + 128 * i, 128), "saved descriptor %d differs", i); }
        size_t at = r.out.find('\n'); CHECK(at != std::string::npos, "no heading"); const char *c = r.out.c_str() + at + 1; for (int i = 0; i < k.n; ++i) { double v[6]; int n = 0; CHECK(sscanf(c, "%lf,%lf,%lf,%lf,%lf,%lf\n%n", v, v + 1, v + 2, v + 3, v + 4, v + 5, &n) == 6 && n > 0, "line %d is %s", i, show(std::string(c).substr(0, 60)).c_str()); c += n; const NXKeypoint &q = k.k[i]; double w[6] = { q.score, q.xs, q.ys, q.scale, q.ori, q.sigma }; for (int j = 0; j < 6; ++j) CHECK(std::fabs(v[j] - w[j]) <= (j == 0 ? 1e-6 : j < 4 ? 0.0051 : 5.1e-5) + 1e-6 * std::fabs(w[j]), "line %d value %d is %g, expected %g", i, j, v[j], w[j]); } CHECK(!*c, "more lines than keypoints"); g.nontrivial(k.n > 0);
}
FACET(harris, 1.0, "textured images, any sigma, k, threshold and limit: nx-harris-detector prints a JSON document with the options used and exactly the keypoints the library finds, and draws them on request; nontrivial: some keypoints")
{
        Mod m = texture(g, (int)g.u(16, 110), (int)g.u(16, 110)); std::string f = save_pic(g, m, 0), ki = scratch_file("keys.png"); std::vector<std::string> a{"-i", f}; double sg = 1.2, kk = 0.06, t = 0.00005; int N = 2000; auto opt = [&](const char *o, double &v, double x) { if (g.b()) { a.push_back(o); a.push_back(num(x)); v = strtod(a.back().c_str(), nullptr); } }; opt("--sigma-int", sg, g.real(0.6, 3)); opt("-k", kk, g.real(0.03, 0.08)); opt("-t", t, std::pow(10, g.real(-7, -2))); if (g.b()) { N = g.b() ? (int)g.u(1, 8) : (int)g.u(1, 600); a.push_back("-N"); a.push_back(std::to_string(N)); } bool draw = g.b(0.4); if (draw) { a.push_back("--key-image"); a.push_back(ki); } if (g.b(0.2)) a.push_back("--verbose");
        Ran r = run("nx-harris-detector", a); CHECK(r.rc == 0, "ended with %d: %s", r.rc, show(r.err.substr(0, 300)).c_str());
        Holder im(make(m)), d0(nx_image_alloc()), d1(nx_image_alloc()), d2(nx_image_alloc()), sc(nx_image_alloc()); NXImage *d[3] = { d0, d1, d2 }; nx_harris_deriv_images(d, im, (float)sg); nx_harris_score_image(sc, d, (float)kk); std::vector<NXKeypoint> k(N); int n = nx_harris_detect_keypoints(N, k.data(), sc, (float)t); g.note("%dx%d %d of at most %d keys%s", m.w, m.h, n, N, draw ? ", drawn" : ""); unlink(f.c_str());
        jm::J j; CHECK(jm::ref_parse(r.out, j), "output is not JSON: %s", show(r.out.substr(0, 200)).c_str()); auto get_ = [&](const jm::J &o, const char *nm) -> const jm::J & { for (size_t i = 0; i < o.names.size(); ++i) if (o.names[i] == nm) return o.kids[i]; CHECK(false, "%s missing", nm); return o; };
        const jm::J &op = get_(j, "options"); auto val = [&](const jm::J &o, const char *nm) { return strtod(get_(o, nm).text.c_str(), nullptr); }; CHECK(get_(op, "image").text == f, "image name is %s", show(get_(op, "image").text).c_str()); CHECK(near_(val(op, "integration-scale"), sg, 1e-5, 1e-7) && near_(val(op, "k"), kk, 1e-5, 1e-7) && near_(val(op, "threshold"), t, 1e-5, 1e-12) && val(op, "max-n-keys") == N, "options used: %s", show(r.out.substr(0, 300)).c_str());
        const jm::J &ks = get_(j, "keypoints"); CHECK((int)ks.kids.size() == n, "%zu keypoints, the library finds %d", ks.kids.size(), n); NXJSONNode *ref = nx_json_bundle_keypoint_array(n, k.data()); std::string tf = scratch_file("ref.json"), want; { FILE *s = fopen(tf.c_str(), "w"); nx_json_tree_fprint(s, ref, 2); fclose(s); want = slurp(tf); unlink(tf.c_str()); } nx_json_tree_free(ref); jm::J e; CHECK(jm::ref_parse(want, e), "reference"); for (int i = 0; i < n; ++i) { CHECK(e.kids[i].names == ks.kids[i].names, "keypoint %d has other fields", i); for (size_t q = 0; q < e.kids[i].kids.size(); ++q) CHECK(near_(strtod(ks.kids[i].kids[q].text.c_str(), nullptr), strtod(e.kids[i].kids[q].text.c_str(), nullptr), 1e-5, 1e-9), "keypoint %d: %s is %s, expected %s", i, e.kids[i].names[q].c_str(), ks.kids[i].kids[q].text.c_str(), e.kids[i].kids[q].text.c_str()); }
        if (draw) { CHECK(access(ki.c_str(), R_OK) == 0, "no picture of the keypoints"); Holder q(nx_image_alloc()); nx_image_xload(q, ki.c_str(), NX_IMAGE_LOAD_RGBA); unlink(ki.c_str()); check_shape(q, m.w, m.h, 4, false, "picture"); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { double best = 1e9; for (int i = 0; i < n; ++i) best = std::min(best, std::hypot(x - k[i].x, y - k[i].y)); if (best > 7) for (int c = 0; c < 3; ++c) CHECK(get(q, x, y, c) == m.at(x, y), "picture changed at (%d,%d), away from any keypoint", x, y); } for (int i = 0; i < n; ++i) { bool green = false; for (int y = std::max(0, k[i].y - 6); y <= std::min(m.h - 1, k[i].y + 6); ++y) for (int x = std::max(0, k[i].x - 6); x <= std::min(m.w - 1, k[i].x + 6); ++x) green |= get(q, x, y, 1) > get(q, x, y, 0) + 60; CHECK(green, "keypoint %d at (%d,%d) not drawn", i, k[i].x, k[i].y); } } else CHECK(access(ki.c_str(), F_OK) != 0, "a picture was written without being asked for"); g.nontrivial(n > 0);
}
FACET(homography, 0.7, "pairs of overlapping crops of a texture: nx-fit-homography reports the number of matches, true inliers, and estimates with quartiles in order; with many true matches the estimate agrees with the truth; nontrivial: 20 matches or more")
{
        int w = (int)g.u(90, 150), h = (int)g.u(90, 150); Mod m = texture(g, w + 30, h + 30); int dx = (int)g.i(-25, 25), dy = (int)g.i(-25, 25), lx = std::max(0, -dx), ly = std::max(0, -dy), rx = lx + dx, ry = ly + dy; Mod L = crop(m, lx, ly, w, h), R = crop(m, rx, ry, w, h); std::string fl = save_pic(g, L, 0), fr = save_pic(g, R, 1); std::vector<std::string> a{g.b() ? "-l" : "--left", fl, "-r", fr}; NXSIFTDetectorParams p = nx_sift_default_parameters(); p.double_image = 0; if (g.b()) p = gen_par(g, a); else { a.push_back("--sift-peak-threshold"); a.push_back("0.01"); p.peak_threshold = (float)0.01; } double snn = -1; if (g.b()) { a.push_back("--snn-threshold"); a.push_back(num(g.real(0.4, 0.95))); snn = strtod(a.back().c_str(), nullptr); }
        double thr = 3; if (g.b()) { a.push_back("--ransac-inlier-threshold"); a.push_back(num(g.real(1, 5))); thr = strtod(a.back().c_str(), nullptr); } Keys kl, kr; detect(p, L, kl); detect(p, R, kr); if (kl.n < 2 || kr.n < 2) g.discard(); std::vector<NXPointMatch2D> pm(kl.n); int n = nx_sift_match_brute_force(kl.n, kl.k, kl.d, kr.n, kr.k, kr.d, pm.data(), (float)snn); if (n < 8) g.discard();
        std::string gt = scratch_file("gt"), vp = scratch_file("vp"); int mode = (int)g.u(0, 2), steps = (int)g.u(1, 6), nv = 0; double H[9] = { 1, 0, 0, 0, 1, 0, (double)-dx, (double)-dy, 1 }; if (mode) { double I[9] = { 1, 0, 0, 0, 1, 0, (double)dx, (double)dy, 1 }; FILE *s = fopen(gt.c_str(), "w"); nx_dmat_xwrite(s, 3, 3, mode == 1 ? H : I); fclose(s); a.push_back(mode == 1 ? "--ground-truth-l2r" : "--ground-truth-r2l"); a.push_back(gt); } if (g.b()) { nv = (int)g.u(1, 9); std::vector<double> v(6 * nv); for (int i = 0; i < nv; ++i) { double x = g.real(20, w - 20), y = g.real(20, h - 20), c[6] = { x, y, 1, x - dx, y - dy, 1 }; std::copy(c, c + 6, &v[6 * i]); } FILE *s = fopen(vp.c_str(), "w"); nx_dmat_xwrite(s, 6, nv, v.data()); fclose(s); a.push_back("--validation-points"); a.push_back(vp); } a.push_back("--benchmark-ransac"); a.push_back("--benchmark-steps"); a.push_back(std::to_string(steps)); a.push_back("--ransac-max-n-iterations"); a.push_back("2000");
        Ran r = run("nx-fit-homography", a); int gi = 0; for (int i = 0; i < n; ++i) { double ex = pm[i].x[0] - dx - pm[i].xp[0], ey = pm[i].x[1] - dy - pm[i].xp[1]; gi += ex * ex + ey * ey <= thr * thr; } g.note("%dx%d shift (%d,%d), %d matches, %d true, %d runs", w, h, dx, dy, n, gi, steps); for (auto &f : { fl, fr, gt, vp }) unlink(f.c_str()); CHECK(r.rc == 0, "ended with %d: %s", r.rc, show(r.err.substr(0, 300)).c_str());
        std::vector<double> v; { const char *c = r.out.c_str(); while (*c) { char *e; double x = strtod(c, &e); CHECK(e != c, "output is %s", show(r.out).c_str()); v.push_back(x); c = e; while (*c == ',' || *c == ' ' || *c == '\n') ++c; } } size_t want = 1 + (mode ? 2 : 0) + 1 + 14 + (nv ? 7 : 0); CHECK(v.size() == want, "%zu values, expected %zu: %s", v.size(), want, show(r.out).c_str()); CHECK(v[0] == n, "%g matches, the library finds %d", v[0], n); size_t i = 1; if (mode) { CHECK(std::fabs(v[1] - gi) <= 1 + 0.02 * n, "%g true inliers, expected %d", v[1], gi); CHECK(std::fabs(v[2] - 100 * v[1] / n) < 0.06, "%g %% true inliers of %d", v[2], n); i = 3; } CHECK(v[i] == steps, "statistics of %g runs, asked for %d", v[i], steps); ++i;
        auto order = [&](const double *s, const char *what) { CHECK(s[2] <= s[3] && s[3] <= s[4] && s[4] <= s[5] && s[5] <= s[6] && s[0] >= s[2] - 0.06 && s[0] <= s[6] + 0.06 && s[1] >= 0, "%s: mean %g, deviation %g, range %g %g %g %g %g", what, s[0], s[1], s[2], s[3], s[4], s[5], s[6]); }; order(&v[i], "inliers"); { auto whole = [](double x) { return std::fabs(x - std::round(x)) < 0.001; }; CHECK(whole(v[i + 2]) && whole(v[i + 6]) && whole(2 * v[i + 4]), "%g, %g, %g as minimum, median, maximum of counts", v[i + 2], v[i + 4], v[i + 6]); } CHECK(v[i + 2] >= 0 && v[i + 6] <= n, "%g to %g inliers of %d matches", v[i + 2], v[i + 6], n); if (gi >= 25 && gi > 0.7 * n) CHECK(v[i + 4] >= 0.6 * gi, "median of %g inliers, %d matches are true", v[i + 4], gi); order(&v[i + 7], "times"); CHECK(v[i + 9] >= 0, "negative time"); if (nv) { if (std::isfinite(v[i + 14])) order(&v[i + 14], "errors"); if (gi >= 25 && gi > 0.7 * n) CHECK(v[i + 18] < 6, "median transfer error of %g pixels", v[i + 18]); } g.nontrivial(n >= 20);
}
FACET(benchmark, 0.4, "dataset directories with eight sequences of six small gray or colour images and any homographies, whole or with one directory, matrix or image missing or damaged: nx-sift-benchmark prints one row per pair with the keypoints, matches and inliers the library finds, and ends with a failure status at the first defect; nontrivial: a whole directory with matches and inlier counts that differ")
{
        static const char *seq[8] = {"bark", "bikes", "boat", "graf", "leuven", "trees", "ubc", "wall"}; std::string base = scratch_file("vgg"); std::vector<std::string> dirs{base}, files; mkdir(base.c_str(), 0700); struct Clean { std::vector<std::string> &d, &f; ~Clean() { for (auto &x : f) unlink(x.c_str()); for (size_t i = d.size(); i--;) rmdir(d[i].c_str()); } } clean{dirs, files};
        std::vector<std::string> a{"--vgg-base", base}; NXSIFTDetectorParams p = gen_par(g, a); double thr = 0.6; if (g.b()) { a.push_back("--dist-ratio-thr"); a.push_back(num(g.real(0.4, 0.95))); thr = strtod(a.back().c_str(), nullptr); }
        int bad = g.b(0.35) ? (int)g.u(0, 7) : 8, how = (int)g.u(0, 5), at = (int)g.u(1, 5), pic = (int)g.u(0, 5); struct Row { int seq, pair, n0, n, m, in[3]; }; std::vector<Row> want; bool differ = false; int some = 0; size_t least = 0;
        for (int s = 0; s < 8; ++s) {
                std::string d = base + "/" + seq[s]; bool here = s == bad; if (here && how == 0) { least = want.size(); break; } mkdir(d.c_str(), 0700); dirs.push_back(d); int w = (int)g.u(36, 60), h = (int)g.u(36, 60); Mod m = texture(g, w + 16, h + 16); Keys k[6]; double H[6][9]; bool broken = false;
                for (int i = 0; i < 6; ++i) {
                        int x = (int)g.u(0, 16), y = (int)g.u(0, 16); static int x0, y0; if (!i) { x0 = x; y0 = y; } Mod c = crop(m, x, y, w, h); bool col = g.b(0.4); std::string f = d + "/img" + std::to_string(i + 1) + (col ? ".ppm" : ".pgm"); files.push_back(f);
                        if (col) { Mod q; q.w = w; q.h = h; q.nc = 4; q.f32 = false; q.v.resize(c.v.size() * 4); double mul = g.real(0.5, 1); for (size_t j = 0; j < c.v.size(); ++j) { for (int z = 0; z < 3; ++z) q.v[4 * j + z] = std::floor(c.v[j] * (z == 1 ? 1 : mul)); q.v[4 * j + 3] = 255; } Holder im(make(q)); nx_image_xsave(im, f.c_str()); } else { Holder im(make(c)); nx_image_xsave(im, f.c_str()); }
                        if (here && how >= 4 && i == pic) { if (how == 4) unlink(f.c_str()); else { std::string t = slurp(f); t.resize((size_t)g.u(0, (int)t.size() - 1)); spit(f, t); } broken = true; }
                        else if (!broken) { NXSIFTDetector *dt = nx_sift_detector_new(p); Holder im(nx_image_alloc()); nx_image_xload(im, f.c_str(), NX_IMAGE_LOAD_GRAYSCALE); k[i].n = nx_sift_detector_compute(dt, im, &k[i].cap, &k[i].k, &k[i].d); nx_sift_detector_free(dt); }
                        double R[9] = { 1, 0, (double)(x0 - x), 0, 1, (double)(y0 - y), 0, 0, 1 }; if (g.b(0.5)) { R[2] += g.gauss() * 1.5; R[5] += g.gauss() * 1.5; } if (g.b(0.3)) { double sc = g.real(0.2, 3) * (g.b() ? 1 : -1); for (int j = 0; j < 9; ++j) R[j] = (R[j] + (j < 8 ? g.gauss() * (j < 6 && j != 2 && j != 5 ? 0.01 : j >= 6 ? 1e-4 : 1) : 0)) * sc; }
                        if (i) { std::string hf = d + "/H1to" + std::to_string(i + 1) + "p", t; for (int r = 0; r < 3; ++r) { for (int c2 = 0; c2 < 3; ++c2) { char b[40]; snprintf(b, sizeof b, g.b() ? " %.17g" : "   %.17e", R[3 * r + c2]); t += b; H[i][3 * c2 + r] = R[3 * r + c2]; } t += "\n"; } files.push_back(hf); if (here && how >= 1 && how <= 3 && i == at) { if (how == 1) continue; t = how == 2 ? t.substr(0, t.find('\n') + 1) + " 1 2 x\n 0 0 1\n" : t.substr(0, t.rfind('\n', t.size() - 2) + 1); } spit(hf, t); }
                }
                if (here) least = want.size(); if (here && how <= 3) break;
                for (int i = 1; i < 6 && !(here && i >= pic); ++i) { Row r{s, i, k[0].n, k[i].n, 0, {0, 0, 0}}; std::vector<NXPointMatch2D> pm(k[0].n + 1); r.m = nx_sift_match_brute_force(k[0].n, k[0].k, k[0].d, k[i].n, k[i].k, k[i].d, pm.data(), (float)thr); for (int t = 0; t < 3; ++t) r.in[t] = nx_homography_mark_inliers(H[i], r.m, pm.data(), 3.0 - t); differ |= r.in[0] > r.in[1] && r.in[1] > r.in[2]; some += r.m > 0; want.push_back(r); }
                if (here) break;
        }
        Ran r = run("nx-sift-benchmark", a); g.note("%zu rows, %d with matches%s", want.size(), some, bad < 8 ? ", a defect" : ""); g.nontrivial(bad == 8 && differ && some > 10);
        if (bad < 8) { CHECK(r.rc != 0, "a directory with a defect (kind %d in %s) was accepted", how, seq[bad]); CHECK(!r.err.empty(), "failure without a message"); } else CHECK(r.rc == 0, "ended with %d: %s", r.rc, show(r.err.substr(0, 300)).c_str());
        std::vector<std::string> ln; { size_t b = 0, e; while ((e = r.out.find('\n', b)) != std::string::npos) { ln.push_back(r.out.substr(b, e - b)); b = e + 1; } if (bad == 8) CHECK(b == r.out.size(), "last line not ended"); }
        if (bad == 8) { CHECK(ln.size() == want.size() + 1, "%zu lines, expected %zu", ln.size(), want.size() + 1); } else CHECK(ln.size() <= want.size() + 1, "%zu lines for %zu pairs before the defect", ln.size(), want.size()); (void)least;
        for (size_t i = 1; i < ln.size(); ++i) { char nm[64] = ""; int v[7]; double t0, t1; const Row &q = want[i - 1]; int n = 0; CHECK(sscanf(ln[i].c_str(), " %60[^,], %d, %d, %d, %lf, %lf, %d, %d, %d, %d%n", nm, v, v + 1, v + 2, &t0, &t1, v + 3, v + 4, v + 5, v + 6, &n) == 10 && n == (int)ln[i].size(), "row %zu is %s", i, show(ln[i]).c_str());
                CHECK(!strcmp(nm, seq[q.seq]) && v[0] == q.pair && v[1] == q.n0 && v[2] == q.n && v[3] == q.m && v[4] == q.in[0] && v[5] == q.in[1] && v[6] == q.in[2] && t0 >= 0 && t1 >= 0, "row %zu is %s; expected %s pair %d with %d and %d keypoints, %d matches, %d, %d, %d inliers", i, show(ln[i]).c_str(), seq[q.seq], q.pair, q.n0, q.n, q.m, q.in[0], q.in[1], q.in[2]); }
}
FACET(refused, 0.5, "missing required options, unknown options, missing and damaged files, matrices of the wrong size, outputs that cannot be written: every tool ends with a failure status and a message, and prints no results; nontrivial: always")
{
        Mod m = texture(g, 40, 40); std::string f = save(m, "l.png"), bad = scratch_file("bad"); g.nontrivial(); int k = (int)g.u(0, 8); const char *t = g.pick<const char *>({"nx-harris-detector", "nx-sift-detector", "nx-fit-homography"}); bool pair = !strcmp(t, "nx-fit-homography"); std::vector<std::string> in = pair ? std::vector<std::string>{"-l", f, "-r", f} : std::vector<std::string>{"-i", f}; g.note("%s case %d", t, k); auto with = [&](std::vector<std::string> x) { auto a = in; a.insert(a.end(), x.begin(), x.end()); return a; }; unlink(bad.c_str());
        switch (k) {
        case 0: refused(run(t, {}), "call without arguments"); break;
        case 1: { if (pair) in[3] = bad; Ran r = run(t, with({"--no-such-option"})); CHECK(pair == (r.rc != 0), "unknown argument: status %d", r.rc); CHECK(r.err.find("--no-such-option") != std::string::npos, "unknown argument not reported"); break; }
        case 2: in[pair && g.b() ? 3 : 1] = bad; refused(run(t, in), "missing image"); break;
        case 3: { auto by = g.bytes(200); spit(bad, std::string(by.begin(), by.end())); } in[pair && g.b() ? 3 : 1] = bad; refused(run(t, in), "file that is no image"); break;
        case 4: { std::string s = slurp(f); s.resize((size_t)g.u(9, (int)s.size() / 2)); spit(bad, s); in[pair && g.b() ? 3 : 1] = bad; refused(run(t, in), "truncated image"); break; }
        case 5: if (pair) in.resize(2); else in.resize(1); refused(run(t, in), "incomplete arguments"); break;
        case 6: if (pair) { spit(bad, "not a matrix"); refused(run(t, with({g.pick<const char *>({"--ground-truth-l2r", "--ground-truth-r2l", "--validation-points"}), bad})), "damaged matrix"); } else { spit(bad, ""); in[1] = bad; refused(run(t, in), "empty image file"); } break;
        case 7: if (pair) { std::vector<double> v(40, 1.0); FILE *s = fopen(bad.c_str(), "w"); int r = (int)g.u(1, 5), c = (int)g.u(1, 5); bool gt = g.b(); if (g.b(0.4)) { r = g.pick<int>({1, 9, 2, 3, 6, 36}); c = r == 1 ? 9 : r == 9 ? 1 : r == 2 ? 18 : r == 3 ? 12 : r == 6 ? 6 : 1; if (!gt && r == 6) r = 5; } if (gt && r == 3 && c == 3) c = 4; nx_dmat_xwrite(s, r, c, v.data()); fclose(s); refused(run(t, with({gt ? "--ground-truth-l2r" : "--validation-points", bad})), "matrix of the wrong size"); } else { std::string o = bad + ".no/such/dir.png"; Ran r = run(t, with({!strcmp(t, "nx-harris-detector") ? "--key-image" : "-o", o})); CHECK(r.rc != 0, "output in a directory that does not exist accepted"); CHECK(!r.err.empty(), "no message"); } break;
        default: if (pair) { in[2] = "-q"; refused(run(t, in), "unknown option"); } else refused(run(t, {"-v"}), "missing required option"); }
        unlink(f.c_str()); unlink(bad.c_str());
}
