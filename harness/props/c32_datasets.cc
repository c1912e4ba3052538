// C32: dataset readers against generated dataset directories.
#include "../img.hpp"
#include "../imgio.hpp"
#include <ftw.h>
#include <sys/stat.h>
#include <unistd.h>
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/nx_image_io.h"
using namespace im; using namespace pbt;
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
struct Dir { std::string d; Dir() : d(scratch_file("ds")) { wipe(); mkdir(d.c_str(), 0777); } ~Dir() { wipe(); } void wipe() { if (d.size() > 12) nftw(d.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS); } };
static void md(const std::string &p) { mkdir(p.c_str(), 0777); }
static double num(Gen &g, std::string &txt)
{
        double v; switch (g.u(0, 4)) { case 0: v = (double)g.i(-5, 5); break; case 1: v = g.gauss(); break; case 2: v = g.real(-1e4, 1e4); break; case 3: v = g.gauss() * std::pow(10.0, g.real(-8, 8)); break; default: v = 0; } switch (g.u(0, 3)) { case 0: txt = strf("%.6e", v); break; case 1: txt = strf("%.17g", v); break; case 2: txt = strf("%.3f", v); break; default: txt = strf("%g", v); } return strtod(txt.c_str(), nullptr);
}
static std::string eol(Gen &g) { return g.b(0.9) ? "\n" : "\r\n"; }
static void gen_image(Gen &g, Mod &m) { m.w = (int)g.u(1, 9); m.h = (int)g.u(1, 9); m.nc = 1; m.f32 = false; m.v.resize((size_t)m.w * m.h); for (auto &x : m.v) x = (double)g.u(0, 255); }
static void save(const Mod &m, const std::string &f, bool as_pgm = false) { Holder p(make(m)); if (as_pgm) { std::string s = strf("P5\n%d %d\n255\n", m.w, m.h); for (double x : m.v) s += (char)(uchar)x; spit(f, s); } else nx_image_xsave_png(p, f.c_str()); }

FACET(kitti, 1.0, "KITTI odometry directories with any sequences, lengths (around the reallocation sizes too), with or without ground truth, cameras and laser data, in several number formats: every pose, time, calibration and frame has the stored value and availability is reported truthfully; nontrivial: several frames")
{
        Dir D; std::string B = D.d, d = B + "/sequences"; md(d); md(B + "/poses"); int s = (int)g.u(0, 21); std::vector<int> have; for (int i = 0; i < 22; ++i) if (i == s || g.b(0.2)) { md(d + strf("/%02d", i)); have.push_back(i); } std::string q = d + strf("/%02d", s); int n = (int)(g.b(0.85) ? g.u(0, 12) : g.b(0.7) ? g.u(298, 303) : g.b(0.8) ? g.u(1298, 1302) : g.u(2297, 4700)); bool gt = g.b(0.7), lidar = g.b(), fin = g.b(0.8); bool cam[4]; std::vector<std::vector<double>> P; std::vector<double> T; std::string pt, tt, ct, t; std::string e = eol(g);
        for (int i = 0; i < n; ++i) { std::vector<double> p(12); for (int k = 0; k < 12; ++k) { p[k] = num(g, t); pt += t + (k < 11 ? g.b(0.9) ? " " : "  " : i + 1 < n || fin ? e : ""); } P.push_back(p); T.push_back(num(g, t)); tt += t + (i + 1 < n || fin ? e : ""); } double C[4][12]; for (int c = 0; c < 4; ++c) { ct += strf("P%d:", c); for (int k = 0; k < 12; ++k) { C[c][k] = num(g, t); ct += " " + t; } ct += e; } if (g.b()) ct += "Tr: 1 2 3 4 5 6 7 8 9 10 11 12\n"; if (gt) spit(B + strf("/poses/%02d.txt", s), pt); spit(q + "/times.txt", tt); spit(q + "/calib.txt", ct); for (int c = 0; c < 4; ++c) { cam[c] = g.b(0.6); if (cam[c]) md(q + strf("/image_%d", c)); } if (lidar) md(q + "/velodyne"); g.note("sequence %d of %zu, %d frames, ground truth %d", s, have.size(), n, gt);
        NXKittiSLAM *K = nx_kitti_slam_new(B.c_str()); struct F { NXKittiSLAM *k; NXKittiSLAMSequence *s; ~F() { nx_kitti_slam_sequence_free(s); nx_kitti_slam_free(k); } } f{K, nullptr}; for (int i = 0; i < 22; ++i) { bool w = std::find(have.begin(), have.end(), i) != have.end(); CHECK(!!K->is_seq_available[i] == w, "sequence %d reported %s", i, w ? "missing" : "available"); } NXKittiSLAMSequence *S = f.s = nx_kitti_slam_sequence_new(K, s); CHECK(S->seq_id == s && S->length == n && S->dataset == K, "sequence %d length %d, stored %d %d", S->seq_id, S->length, s, n); CHECK(!!S->is_gt_available == gt, "ground truth reported %d", S->is_gt_available); CHECK(!!S->is_lidar_available == lidar, "laser data reported %d", S->is_lidar_available);
        for (int i = 0; i < n; ++i) { CHECK(S->times[i] == T[i], "time %d is %.17g, stored %.17g", i, S->times[i], T[i]); if (gt) for (int r = 0; r < 3; ++r) for (int c = 0; c < 4; ++c) CHECK(S->poses[i][c * 3 + r] == P[i][r * 4 + c], "pose %d row %d column %d is %.17g, stored %.17g", i, r, c, S->poses[i][c * 3 + r], P[i][r * 4 + c]); } for (int k = 0; k < 4; ++k) { CHECK(!!S->is_cam_available[k] == cam[k], "camera %d reported %d", k, S->is_cam_available[k]); for (int r = 0; r < 3; ++r) for (int c = 0; c < 4; ++c) CHECK(S->calib[k][c * 3 + r] == C[k][r * 4 + c], "calibration %d row %d column %d is %.17g, stored %.17g", k, r, c, S->calib[k][c * 3 + r], C[k][r * 4 + c]); }
        if (n) { int c = (int)g.u(0, 3), i = (int)g.u(0, n - 1), j = (int)g.u(0, n - 1); Holder o(imf::gen_load_target(g)); if (!cam[c]) CHECK(fatal([&] { nx_kitti_slam_sequence_xload_frame(S, c, i, o); }), "frame of a missing camera loaded"); else { Mod a, b; gen_image(g, a); gen_image(g, b); save(a, q + strf("/image_%d/%06d.png", c, i)); if (j != i) save(b, q + strf("/image_%d/%06d.png", c, j)); nx_kitti_slam_sequence_xload_frame(S, c, i, o); check_same(o, a, "frame"); if (j != i) { nx_kitti_slam_sequence_xload_frame(S, c, j, o); check_same(o, b, "other frame"); } unlink((q + strf("/image_%d/%06d.png", c, i)).c_str()); CHECK(fatal([&] { nx_kitti_slam_sequence_xload_frame(S, c, i, o); }), "missing frame loaded"); } }
        g.nontrivial(n > 1);
}
FACET(kitti_bad, 0.6, "KITTI directories with one defect (missing base, sequence, times or calibration; unequal numbers of poses and times; damaged number in any file): opening ends in a fatal error; nontrivial: always")
{
        Dir D; std::string B = D.d; md(B + "/sequences"); md(B + "/poses"); std::string q = B + "/sequences/07"; int kind = (int)g.u(0, 8), n = (int)g.u(1, 20), bad = (int)g.u(0, n - 1), m = n; if (kind != 1) md(q); if (kind == 4) m = g.b() ? n + 1 : n - 1; std::string junk = g.pick<std::string>({"x", "--", "nope", "1,2", "="}), pt, tt, ct; bool gt = kind == 7 || kind == 4 || g.b();
        for (int i = 0; i < n; ++i) { int at = (int)g.u(0, 11); for (int k = 0; k < 12; ++k) pt += (kind == 7 && i == bad && k == at ? junk : strf("%d", i + k)) + (k < 11 ? " " : "\n"); } for (int i = 0; i < m; ++i) tt += (kind == 5 && i == bad ? junk : strf("%d", i)) + "\n"; int cc = (int)g.u(0, 3), ck = (int)g.u(0, 11); for (int c = 0; c < 4; ++c) { if (kind == 8 && c == cc) continue; ct += strf("P%d:", c); for (int k = 0; k < 12; ++k) ct += " " + (kind == 6 && c == cc && k == ck ? junk : strf("%d.5", k)); ct += "\n"; } if (gt) spit(B + "/poses/07.txt", pt); if (kind != 1) { if (kind != 2) spit(q + "/times.txt", tt); if (kind != 3) spit(q + "/calib.txt", ct); } g.note("defect %d, %d lines, ground truth %d, junk %s", kind, n, gt, junk.c_str()); if (junk == "1,2" && kind == 6) g.discard(); // a number that is followed by something else
        if (kind == 0) { CHECK(fatal([&] { nx_kitti_slam_new((B + "/none").c_str()); }), "missing base directory accepted"); g.nontrivial(); return; } bool f = fatal([&] { NXKittiSLAM *K = nx_kitti_slam_new(B.c_str()); nx_kitti_slam_sequence_new(K, 7); }); CHECK(f, "directory with defect %d accepted", kind); g.nontrivial();
}
FACET(temple, 1.0, "Temple Color 128 sequences of every name with generated frame ranges, attribute sets and boxes: range, attributes, every box and every frame have the stored value; nontrivial: several frames and attributes")
{
        Dir D; std::string B = D.d, nm = NX_TEMPLE_COLOR_128_SEQ_NAMES[g.u(0, NX_TEMPLE_COLOR_128_N_SEQ - 1)], q = B + "/" + nm; md(q); md(q + "/img"); int st = (int)g.u(0, 500), n = (int)g.len(1, 40, 2600, 0.03); std::string e = eol(g), at, gt, t; spit(q + "/" + nm + "_frames.txt", strf("%d,%d", st, st + n - 1) + (g.b() ? e : "")); static const char *A[11] = {"VI", "SV", "OCC", "DEF", "MB", "FM", "IPR", "OPR", "OV", "BC", "LR"}; unsigned w = 0; int na = (int)g.u(0, 11); bool fin = g.b(0.8); for (int i = 0; i < na; ++i) { int k = (int)g.u(0, 10); w |= 1u << k; at += A[k]; if (i + 1 < na || fin) at += e; } spit(q + "/" + nm + "_att.txt", at); std::vector<float> b; for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) { num(g, t); b.push_back(strtof(t.c_str(), nullptr)); gt += t + (k < 3 ? "," : i + 1 < n || fin ? e : ""); } spit(q + "/" + nm + "_gt.txt", gt); g.note("%s frames %d..%d attributes %x", nm.c_str(), st, st + n - 1, w);
        NXTempleColor128Sequence *S = nx_temple_color_128_sequence_new(B.c_str(), nm.c_str()); struct F { NXTempleColor128Sequence *s; ~F() { nx_temple_color_128_sequence_free(s); } } f{S}; CHECK(S->start_frame == st && S->end_frame == st + n - 1 && S->length == n, "frames %d..%d (%d), stored %d..%d", S->start_frame, S->end_frame, S->length, st, st + n - 1); CHECK(S->attributes == w, "attributes %x, stored %x", S->attributes, w); CHECK(nm == S->name && B == S->base_dir, "names"); for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) CHECK(S->ground_truth[i][k] == b[4 * i + k], "box %d element %d is %.9g, stored %.9g", i, k, S->ground_truth[i][k], b[4 * i + k]);
        int i = st + (int)g.u(0, n - 1), j = st + (int)g.u(0, n - 1); Holder o(imf::gen_load_target(g)); auto put = [&](int id, int size) { Mod m; m.w = size; m.h = size + 2; m.nc = 1; m.v.assign((size_t)m.w * m.h, (double)(size * 9)); Holder p(make(m)); nx_image_xsave_jpeg(p, (q + strf("/img/%04d.jpg", id)).c_str()); }; put(i, 5); if (j != i) put(j, 9); nx_temple_color_128_sequence_xload_frame(S, i, o, NX_IMAGE_LOAD_GRAYSCALE); CHECK(o->width == 5 && o->height == 7 && std::abs(get(o, 2, 2) - 45) <= 3, "frame %d", i); if (j != i) { nx_temple_color_128_sequence_xload_frame(S, j, o, NX_IMAGE_LOAD_GRAYSCALE); CHECK(o->width == 9 && o->height == 11 && std::abs(get(o, 2, 2) - 81) <= 3, "frame %d", j); } unlink((q + strf("/img/%04d.jpg", i)).c_str()); CHECK(fatal([&] { nx_temple_color_128_sequence_xload_frame(S, i, o, NX_IMAGE_LOAD_GRAYSCALE); }), "missing frame loaded"); g.nontrivial(n > 1 && na > 1);
}
FACET(temple_bad, 0.5, "Temple Color 128 directories with one defect (missing base, directory or file, unknown name, damaged or reversed frame range, too few or damaged boxes): opening ends in a fatal error; nontrivial: always")
{
        Dir D; int kind = (int)g.u(0, 9), n = (int)g.u(1, 10), bad = (int)g.u(0, n - 1); std::string B = D.d, std_nm = NX_TEMPLE_COLOR_128_SEQ_NAMES[g.u(0, NX_TEMPLE_COLOR_128_N_SEQ - 1)], nm = std_nm; if (kind == 1) { nm = g.b() ? "Nothing" : g.b() ? std_nm + "_copy" : std_nm.substr(0, 2); for (auto *x : NX_TEMPLE_COLOR_128_SEQ_NAMES) if (nm == x) g.discard(); } std::string q = B + "/" + nm; if (kind != 2) { md(q); if (kind != 3) spit(q + "/" + nm + "_frames.txt", kind == 6 ? g.pick<std::string>({"", "x", "1", "1;5", ",5"}) : kind == 7 ? g.pick<std::string>({"10,1", "5,3", "2147483647,-2147483648", "1,-5"}) : strf("1,%d", n)); if (kind != 4) spit(q + "/" + nm + "_att.txt", "OCC\n"); std::string gt; for (int i = 0; i < (kind == 8 ? n - 1 : n); ++i) gt += kind == 9 && i == bad ? g.pick<std::string>({"1,2,3\n", "a,b,c,d\n", "1 2 3 4\n", "\n1,,2,3\n"}) : "1,2,3,4\n"; if (kind != 5) spit(q + "/" + nm + "_gt.txt", gt); } g.note("defect %d name %s", kind, nm.c_str()); CHECK(fatal([&] { nx_temple_color_128_sequence_new(kind == 0 ? (B + "/none").c_str() : B.c_str(), nm.c_str()); }), "directory of %s with defect %d accepted", nm.c_str(), kind); g.nontrivial();
}
FACET(vgg, 0.8, "VGG affine sequences of every name with generated homographies and colour or gray frames: the first homography is the identity, every other element and every frame has the stored value; nontrivial: always")
{
        Dir D; std::string B = D.d, nm = NX_VGG_AFFINE_SEQ_NAMES[g.u(0, NX_VGG_AFFINE_N_SEQ - 1)], q = B + "/" + nm, t; md(q); double H[6][9]; for (int i = 1; i < 6; ++i) { std::string s; for (int k = 0; k < 9; ++k) { H[i][k] = num(g, t); s += (g.b() ? "  " : "") + t + (k % 3 == 2 ? g.b(0.8) ? "\n" : " \n" : "  "); } spit(q + strf("/H1to%dp", i + 1), s); } g.note("%s", nm.c_str()); NXVGGAffineSequence *S = nx_vgg_affine_sequence_new(B.c_str(), nm.c_str()); struct F { NXVGGAffineSequence *s; ~F() { nx_vgg_affine_sequence_free(s); } } f{S}; CHECK(S->length == 6 && nm == S->name && B == S->base_dir, "length %d", S->length); for (int i = 0; i < 6; ++i) for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { double w = i ? H[i][r * 3 + c] : r == c; CHECK(S->h[i][c * 3 + r] == w, "homography %d row %d column %d is %.17g, stored %.17g", i, r, c, S->h[i][c * 3 + r], w); }
        Holder o(imf::gen_load_target(g)); int i = (int)g.u(0, 5), j = (int)g.u(0, 5); Mod a, b; gen_image(g, a); gen_image(g, b); auto put = [&](const Mod &m, int id) { if (g.b()) save(m, q + strf("/img%d.pgm", id), true); else { std::string s = strf("P6\n%d %d\n255\n", m.w, m.h); for (double x : m.v) s += std::string(3, (char)(uchar)x); spit(q + strf("/img%d.ppm", id), s); } }; put(a, i + 1); if (j != i) put(b, j + 1); auto look = [&](int id, const Mod &m) { nx_vgg_affine_sequence_xload_frame(S, id, o, NX_IMAGE_LOAD_GRAYSCALE); CHECK(o->width == m.w && o->height == m.h, "frame %d is %dx%d", id, o->width, o->height); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) CHECK(std::abs(get(o, x, y) - m.at(x, y)) <= 1, "frame %d pixel (%d,%d)", id, x, y); }; look(i, a); if (j != i) look(j, b); for (const char *ext : {"ppm", "pgm"}) unlink((q + strf("/img%d.%s", i + 1, ext)).c_str()); CHECK(fatal([&] { nx_vgg_affine_sequence_xload_frame(S, i, o, NX_IMAGE_LOAD_GRAYSCALE); }), "missing frame loaded"); g.nontrivial();
}
FACET(vgg_bad, 0.4, "VGG affine directories with one defect (missing base, directory or homography, unknown name, damaged or short homography): opening ends in a fatal error; nontrivial: always")
{
        Dir D; int kind = (int)g.u(0, 5), bad = (int)g.u(2, 6); std::string B = D.d, sn = NX_VGG_AFFINE_SEQ_NAMES[g.u(0, NX_VGG_AFFINE_N_SEQ - 1)], nm = kind != 1 ? sn : g.b() ? "none" : g.b() ? sn + "2" : sn.substr(0, 2), q = B + "/" + nm; if (kind != 2) { md(q); for (int i = 2; i < 7; ++i) { if (kind == 3 && i == bad) continue; std::string s; int n = kind == 4 && i == bad ? (int)g.u(0, 8) : 9, at = kind == 5 && i == bad ? (int)g.u(0, 8) : -1; for (int k = 0; k < n; ++k) s += (k == at ? std::string("zz") : strf("%d.25", k)) + (k % 3 == 2 ? "\n" : " "); spit(q + strf("/H1to%dp", i), s); } } g.note("defect %d name %s", kind, nm.c_str()); CHECK(fatal([&] { nx_vgg_affine_sequence_new(kind == 0 ? (B + "/none").c_str() : B.c_str(), nm.c_str()); }), "directory of %s with defect %d accepted", nm.c_str(), kind); g.nontrivial();
}
