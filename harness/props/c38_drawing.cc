// C38: drawing on images, PDF and SVG pages and image annotation, against direct rendering of the described shapes.
#include "../img.hpp"
#include <cairo.h>
#include <cairo-svg.h>
#include <cairo-pdf.h>
#include <zlib.h>
#include <unistd.h>
#include "virg/nexus/nx_gc.h"
#include "virg/nexus/vg_graphics_context.hpp"
#include "virg/nexus/vg_image_annotator.hpp"
using namespace im; using namespace pbt; using namespace virg::nexus;

// reference page on any cairo surface; in true colours, except that with text the channels are swapped, for the sub-pixel rendering of glyphs to be the same
struct Ref {
        cairo_surface_t *s = nullptr; cairo_t *c = nullptr; int w = 0, h = 0; bool sw = false;
        explicit Ref(const Mod &m, bool swapped = false) : w(m.w), h(m.h), sw(swapped) { s = cairo_image_surface_create(CAIRO_FORMAT_ARGB32, w, h); cairo_surface_flush(s); unsigned char *d = cairo_image_surface_get_data(s); int st = cairo_image_surface_get_stride(s); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < 4; ++k) d[y * st + 4 * x + k] = (unsigned char)m.at(x, y, ch(k)); cairo_surface_mark_dirty(s); init(); }
        explicit Ref(cairo_surface_t *page) : s(page) { init(); }
        int ch(int k) const { return sw || k == 1 || k == 3 ? k : 2 - k; }
        void init() { c = cairo_create(s); cairo_select_font_face(c, "sans-serif", CAIRO_FONT_SLANT_NORMAL, CAIRO_FONT_WEIGHT_NORMAL); cairo_set_antialias(c, CAIRO_ANTIALIAS_BEST); cairo_set_source_rgba(c, 0, 0, 0, 1); }
        Ref(const Ref &) = delete; ~Ref() { if (c) cairo_destroy(c); if (s) cairo_surface_destroy(s); }
        Mod out() { cairo_surface_flush(s); Mod m; m.w = w; m.h = h; m.nc = 4; m.f32 = false; m.v.resize((size_t)w * h * 4); unsigned char *d = cairo_image_surface_get_data(s); int st = cairo_image_surface_get_stride(s); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < 4; ++k) m.at(x, y, ch(k)) = d[y * st + 4 * x + k]; return m; }
};
static Mod opaque(Gen &g, int lo, int hi) { Mod m = gen_mod(g, lo, hi, lo, hi, 4, false); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.at(x, y, 3) = 255; return m; }
// pixels within the range of the reference's neighbourhood, and little difference overall
static void same_picture(const NXImage *p, const Mod &r, const Mod &base, const char *what)
{
        check_shape(p, r.w, r.h, 4, false, what); double diff = 0, ink = 0;
        for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) for (int c = 0; c < 4; ++c) { double v = get(p, x, y, c), t = r.at(x, y, c), lo = t, hi = t; diff += std::fabs(v - t); ink += std::fabs(t - base.at(x, y, c)); if (std::fabs(v - t) <= 2) continue; for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int X = x + dx, Y = y + dy; if (X < 0 || Y < 0 || X >= r.w || Y >= r.h) continue; lo = std::min({lo, r.at(X, Y, c), base.at(x, y, c)}); hi = std::max({hi, r.at(X, Y, c), base.at(x, y, c)}); } CHECK(v >= lo - 64 && v <= hi + 64, "%s: pixel (%d,%d) channel %d is %g, expected %g", what, x, y, c, v, t); }
        CHECK(diff <= 0.05 * ink + 600, "%s: differs by %g in all from the expected picture, which adds %g to the background", what, diff, ink);
}
struct Op { int k; double a[9]; std::string t; };
static double co(Gen &g, int n) { return g.b(0.2) ? (double)g.i(-2, n + 2) : g.b(0.1) ? g.real(-3.0 * n, 3.0 * n) : g.real(-4, n + 4); }
static std::vector<Op> gen_ops(Gen &g, int w, int h, bool text, bool clear)
{
        std::vector<Op> v; bool cur = false; int n = (int)g.u(1, 25); auto add = [&](int k, std::vector<double> a) { Op o; o.k = k; std::copy(a.begin(), a.end(), o.a); v.push_back(o); }; auto X = [&] { return co(g, w); }; auto Y = [&] { return co(g, h); };
        while (n--) switch (g.u(0, 18)) {
                case 0: add(0, {g.unit(), g.unit(), g.unit(), g.b(0.6) ? 1.0 : g.unit()}); break;
                case 1: add(1, {g.real(0.2, 9)}); break;
                case 2: add(2, {(double)g.u(0, 3), g.real(0.5, 7), g.real(0.5, 7), g.real(0.5, 7), g.real(0, 9)}); break;
                case 3: add(3, {X(), Y()}); cur = true; break;
                case 4: case 5: if (!cur) { add(3, {X(), Y()}); cur = true; } add(4, {X(), Y()}); break;
                case 6: if (cur) add(5, {X() - w / 2, Y() - h / 2}); break;
                case 7: if (cur) add(6, {X() - w / 2, Y() - h / 2}); break;
                case 8: add(7, {X(), Y(), X(), Y()}); cur = true; break;
                case 9: add(8, {X(), Y(), X(), Y()}); cur = true; break;
                case 10: add(9, {X(), Y(), g.real(0, w), g.real(-7, 7), g.real(-7, 7)}); cur = true; break;
                case 11: add(10, {X(), Y(), g.real(0, w / 2.0)}); cur = true; break;
                case 12: if (cur) add(11, {X(), Y(), X(), Y(), X(), Y()}); break;
                case 13: if (cur) add(12, {X() - w / 2, Y() - h / 2, X() - w / 2, Y() - h / 2, X() - w / 2, Y() - h / 2}); break;
                case 14: add(13, {X(), Y(), X(), Y(), X(), Y(), X(), Y()}); cur = true; break;
                case 15: add(14, {}); cur = false; break; case 16: add(15, {}); cur = false; break;
                case 17: if (g.b(0.3)) { add(16, {}); cur = false; } else if (clear && g.b(0.3)) add(17, {}); break;
                default: if (text && g.b()) { add(18, {X(), Y(), g.real(4, 20)}); v.back().t = g.str(6, "abgXl 1"); cur = !v.back().t.empty() || true; add(14, {}); cur = false; } }
        add(g.b() ? 14 : 15, {}); return v;
}
template <class G> static void lib_op(G &&d, const Op &o)
{
        const double *a = o.a; switch (o.k) { case 0: d.color(a[0], a[1], a[2], a[3]); break; case 1: d.width(a[0]); break; case 2: d.dash((int)a[0], a + 1, a[4]); break; case 3: d.move(a[0], a[1]); break; case 4: d.line(a[0], a[1]); break; case 5: d.rmove(a[0], a[1]); break; case 6: d.rline(a[0], a[1]); break; case 7: d.seg(a[0], a[1], a[2], a[3]); break; case 8: d.rect(a[0], a[1], a[2], a[3]); break; case 9: d.arc(a[0], a[1], a[2], a[3], a[4]); break; case 10: d.circle(a[0], a[1], a[2]); break; case 11: d.curve_to(a[0], a[1], a[2], a[3], a[4], a[5]); break; case 12: d.rcurve_to(a[0], a[1], a[2], a[3], a[4], a[5]); break; case 13: d.curve(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 14: d.stroke(); break; case 15: d.fill(); break; case 16: d.new_path(); break; case 17: d.clear(); break; default: d.text(a[0], a[1], o.t, a[2]); }
}
#define D double
struct CDraw { NXGC *g; void color(D r, D gr, D b, D a) { nx_gc_set_color(g, r, gr, b, a); } void width(D w) { nx_gc_set_line_width(g, w); } void dash(int n, const D *d, D o) { nx_gc_set_line_dash(g, n, (D *)d, o); } void move(D x, D y) { nx_gc_move_to(g, x, y); } void line(D x, D y) { nx_gc_line_to(g, x, y); } void rmove(D x, D y) { nx_gc_rel_move_to(g, x, y); } void rline(D x, D y) { nx_gc_rel_line_to(g, x, y); } void seg(D a, D b, D c, D d) { nx_gc_line(g, a, b, c, d); } void rect(D a, D b, D c, D d) { nx_gc_rectangle(g, a, b, c, d); } void arc(D a, D b, D c, D d, D e) { nx_gc_arc(g, a, b, c, d, e); } void circle(D a, D b, D c) { nx_gc_circle(g, a, b, c); } void curve_to(D a, D b, D c, D d, D e, D f) { nx_gc_curve_to(g, a, b, c, d, e, f); } void rcurve_to(D a, D b, D c, D d, D e, D f) { nx_gc_rel_curve_to(g, a, b, c, d, e, f); } void curve(D a, D b, D c, D d, D e, D f, D h, D i) { nx_gc_curve(g, a, b, c, d, e, f, h, i); } void stroke() { nx_gc_stroke(g); } void fill() { nx_gc_fill(g); } void new_path() { nx_gc_new_path(g); } void clear() { nx_gc_clear(g); } void text(D x, D y, const std::string &t, D s) { nx_gc_draw_text(g, x, y, t.c_str(), s); } };
struct VDraw { VGGraphicsContext &g; void color(D r, D gr, D b, D a) { if (a > 0.5) g.set_color(VGColor(r, gr, b, a)); else g.set_color(r, gr, b, a); } void width(D w) { g.set_line_width(w); } void dash(int n, const D *d, D o) { g.set_line_dash(n, (D *)d, o); } void move(D x, D y) { g.move_to(x, y); } void line(D x, D y) { g.line_to(x, y); } void rmove(D x, D y) { g.rel_move_to(x, y); } void rline(D x, D y) { g.rel_line_to(x, y); } void seg(D a, D b, D c, D d) { g.line(a, b, c, d); } void rect(D a, D b, D c, D d) { g.rectangle(a, b, c, d); } void arc(D a, D b, D c, D d, D e) { g.arc(a, b, c, d, e); } void circle(D a, D b, D c) { g.circle(a, b, c); } void curve_to(D a, D b, D c, D d, D e, D f) { g.curve_to(a, b, c, d, e, f); } void rcurve_to(D a, D b, D c, D d, D e, D f) { g.rel_curve_to(a, b, c, d, e, f); } void curve(D a, D b, D c, D d, D e, D f, D h, D i) { g.curve(a, b, c, d, e, f, h, i); } void stroke() { g.stroke(); } void fill() { g.fill(); } void new_path() { g.new_path(); } void clear() { g.clear(); } void text(D x, D y, const std::string &t, D s) { g.draw_text(x, y, t, s); } };
// what the declarations promise: curves end at the first given point, with the two control points following
struct RDraw { cairo_t *g; bool sw; void color(D r, D gr, D b, D a) { if (sw) std::swap(r, b); cairo_set_source_rgba(g, r, gr, b, a); } void width(D w) { cairo_set_line_width(g, w); } void dash(int n, const D *d, D o) { cairo_set_dash(g, d, n, o); } void move(D x, D y) { cairo_move_to(g, x, y); } void line(D x, D y) { cairo_line_to(g, x, y); } void rmove(D x, D y) { cairo_rel_move_to(g, x, y); } void rline(D x, D y) { cairo_rel_line_to(g, x, y); } void seg(D a, D b, D c, D d) { cairo_move_to(g, a, b); cairo_line_to(g, c, d); } void rect(D a, D b, D c, D d) { cairo_rectangle(g, a, b, c, d); } void arc(D a, D b, D c, D d, D e) { cairo_arc(g, a, b, c, d, e); } void circle(D a, D b, D c) { cairo_arc(g, a, b, c, 0, 2 * M_PI); } void curve_to(D a, D b, D c, D d, D e, D f) { cairo_curve_to(g, c, d, e, f, a, b); } void rcurve_to(D a, D b, D c, D d, D e, D f) { cairo_rel_curve_to(g, c, d, e, f, a, b); } void curve(D a, D b, D c, D d, D e, D f, D h, D i) { cairo_move_to(g, a, b); cairo_curve_to(g, e, f, h, i, c, d); } void stroke() { cairo_stroke(g); } void fill() { cairo_fill(g); } void new_path() { cairo_new_path(g); } void clear() { cairo_paint(g); } void text(D x, D y, const std::string &t, D s) { cairo_set_font_size(g, s); cairo_move_to(g, x, y); cairo_show_text(g, t.c_str()); } };
#undef D
static std::string names(const std::vector<Op> &v) { std::string s; for (auto &o : v) s += "CWD.L:lnrao~`cSFNKT"[o.k]; return s; }

FACET(image, 3.0, "opaque images of 1-60 pixels a side and any aligned stride, 1-25 drawing operations (colour, width, dashes, paths of lines, rectangles, arcs, circles, absolute and relative curves, text, stroke, fill, clear) through the C or C++ context: the pixels are those of the described shapes in true colours and nothing else changes; nontrivial: something is drawn")
{
        Mod m = opaque(g, 1, 60); int st = g.b() ? -1 : m.w * 4 + 4 * (int)g.u(0, 5); Holder p(make(m, st)); size_t bytes = (size_t)p->row_stride * p->height; std::vector<uchar> before(p->data.uc, p->data.uc + bytes); auto ops = gen_ops(g, m.w, m.h, true, true); bool sw = false; for (auto &o : ops) sw |= o.k == 18; Ref r(m, sw); g.note("%dx%d %s", m.w, m.h, names(ops).c_str()); RDraw rd{r.c, sw}; bool cxx = g.b();
        if (cxx) { VGImage vi(p, false); VGGraphicsContext v = VGGraphicsContext::new_from_image(vi); for (auto &o : ops) { lib_op(VDraw{v}, o); lib_op(rd, o); } if (g.b()) v.flush(); } else { NXGC *c = nx_gc_new(p); for (auto &o : ops) { lib_op(CDraw{c}, o); lib_op(rd, o); if (g.b(0.1)) { nx_gc_flush(c); same_picture(p, r.out(), m, "after flush"); } } nx_gc_free(c); }
        Mod w = r.out(); same_picture(p, w, m, "drawing"); for (int y = 0; y < m.h; ++y) for (int x = m.w * 4; x < p->row_stride; ++x) CHECK(p->data.uc[(size_t)y * p->row_stride + x] == before[(size_t)y * p->row_stride + x], "bytes between rows changed"); g.nontrivial(w.v != m.v);
}
static std::string numbers_only(const std::string &s, std::vector<double> &v) { std::string o; for (size_t i = 0; i < s.size();) { if (isdigit((unsigned char)s[i]) || ((s[i] == '-' || s[i] == '.') && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) { char *e; v.push_back(strtod(s.c_str() + i, &e)); i = e - s.c_str(); o += '#'; } else o += s[i++]; } return o; }
static std::vector<std::string> pdf_streams(const std::string &s) { std::vector<std::string> o; size_t p = 0; while ((p = s.find("stream\n", p)) != std::string::npos) { if (p >= 3 && !s.compare(p - 3, 3, "end")) { p += 7; continue; } p += 7; size_t e = s.find("endstream", p); if (e == std::string::npos) break; std::vector<unsigned char> buf((e - p) * 60 + 65536); uLongf n = buf.size(); if (uncompress(buf.data(), &n, (const unsigned char *)s.data() + p, e - p) == Z_OK) o.push_back(std::string((char *)buf.data(), n)); p = e; } return o; }
static std::string pdf_content(const std::string &s) { std::string o; for (auto &t : pdf_streams(s)) if (t.find('\0') == std::string::npos && t.find("<<") == std::string::npos) o += t; return o; }
static std::string pdf_box(const std::string &s) { auto v = pdf_streams(s); v.push_back(s); for (auto &t : v) { size_t p = t.find("/MediaBox"); if (p != std::string::npos) return t.substr(p, t.find(']', p) - p); } return ""; }
FACET(pages, 1.0, "SVG and PDF pages of any size, 1-25 operations: the file holds exactly the described paths and colours and the page size, as a reference page does; a file that cannot be written is fatal; nontrivial: something is drawn")
{
        bool svg = g.b(); double W = g.real(10, 900), H = g.real(10, 900); std::string f = scratch_file(svg ? "page.svg" : "page.pdf"), rf = scratch_file("ref"); auto ops = gen_ops(g, (int)W, (int)H, false, true); g.note("%s %gx%g %s", svg ? "svg" : "pdf", W, H, names(ops).c_str()); bool cxx = g.b();
        if (g.b(0.1)) { std::string bad = f + ".missing/dir/x"; CHECK(fatal([&] { if (cxx) { if (svg) VGGraphicsContext::new_svg(bad, W, H); else VGGraphicsContext::new_pdf(bad, W, H); } else nx_gc_free(svg ? nx_gc_new_svg(bad.c_str(), W, H) : nx_gc_new_pdf(bad.c_str(), W, H)); }), "page in a directory that does not exist accepted"); }
        { Ref r(svg ? cairo_svg_surface_create(rf.c_str(), W, H) : cairo_pdf_surface_create(rf.c_str(), W, H)); for (auto &o : ops) lib_op(RDraw{r.c, false}, o); }
        if (cxx) { VGGraphicsContext v = svg ? VGGraphicsContext::new_svg(f, W, H) : VGGraphicsContext::new_pdf(f, W, H); for (auto &o : ops) lib_op(VDraw{v}, o); } else { NXGC *c = svg ? nx_gc_new_svg(f.c_str(), W, H) : nx_gc_new_pdf(f.c_str(), W, H); for (auto &o : ops) lib_op(CDraw{c}, o); nx_gc_free(c); }
        std::string a = slurp(f), b = slurp(rf); unlink(f.c_str()); unlink(rf.c_str()); if (!svg) { CHECK(!a.compare(0, 5, "%PDF-"), "not a PDF file"); CHECK(a.find("%%EOF") != std::string::npos, "unfinished PDF file"); std::vector<double> x, y; numbers_only(pdf_box(a), x); numbers_only(pdf_box(b), y); CHECK(x.size() == y.size() && x.size() >= 4, "page size missing"); for (size_t i = 0; i < x.size(); ++i) CHECK(std::fabs(x[i] - y[i]) < 1e-3, "page size %g, expected %g", x[i], y[i]); a = pdf_content(a); b = pdf_content(b); }
        std::vector<double> x, y; std::string ta = numbers_only(a, x), tb = numbers_only(b, y); CHECK(ta == tb && x.size() == y.size(), "the page holds %s, expected %s", show(a.substr(0, 400)).c_str(), show(b.substr(0, 400)).c_str()); for (size_t i = 0; i < x.size(); ++i) CHECK(near_(x[i], y[i], 1e-4, 2e-3), "number %zu of the page is %.9g, expected %.9g", i, x[i], y[i]); g.nontrivial(b.find("path") != std::string::npos || b.find("re") != std::string::npos);
}
FACET(text_size, 0.3, "any text and size: the extent reported is that of the rendered text; nontrivial: a visible character")
{
        Mod m = opaque(g, 4, 20); Holder p(make(m)); Ref r(m); NXGC *c = nx_gc_new(p); std::string t = g.str(8, "abgXl 1W"); double s = g.real(3, 40), w = -1, h = -1; nx_gc_set_text_size(c, t.c_str(), s, &w, &h); nx_gc_free(c); cairo_text_extents_t e; cairo_set_font_size(r.c, s); cairo_text_extents(r.c, t.c_str(), &e); g.note("%s at %g", show(t).c_str(), s); CHECK(near_(w, e.width, 1e-6, 1e-6) && near_(h, e.height, 1e-6, 1e-6), "extent %g x %g, expected %g x %g", w, h, e.width, e.height); g.nontrivial(t.find_first_not_of(' ') != std::string::npos);
}
FACET(page_sizes, 0.01, "the page constants are those of an A4 page in points; nontrivial: always")
{
        CHECK(std::fabs(NX_GC_A4_WIDTH - 210 * 72 / 25.4) < 0.01 && std::fabs(NX_GC_A4_HEIGHT - 297 * 72 / 25.4) < 0.01, "C constants"); CHECK(std::fabs(VGGraphicsContext::A4_WIDTH_IN_PTS - 210 * 72 / 25.4) < 0.01, "A4 width is %g points", VGGraphicsContext::A4_WIDTH_IN_PTS); CHECK(std::fabs(VGGraphicsContext::A4_HEIGHT_IN_PTS - 297 * 72 / 25.4) < 0.01, "A4 height is %g points", VGGraphicsContext::A4_HEIGHT_IN_PTS); CHECK(std::fabs(NX_GC_MM_TO_POINTS - 72 / 25.4) < 1e-4, "points per millimetre"); g.bits64(); g.nontrivial();
}
// ---- annotation
static void ref_mark(cairo_t *c, int type, double x, double y, double s, const VGColor &k)
{
        cairo_set_source_rgba(c, k.r(), k.g(), k.b(), k.a()); cairo_set_line_width(c, 1.5); cairo_new_path(c); double r = s / 2;
        switch (type) { case 0: cairo_arc(c, x, y, r, 0, 2 * M_PI); break; case 1: cairo_rectangle(c, x - r, y - r, s, s); break; case 2: cairo_move_to(c, x, y - r); cairo_line_to(c, x + r, y); cairo_line_to(c, x, y + r); cairo_line_to(c, x - r, y); cairo_line_to(c, x, y - r); break; case 3: cairo_move_to(c, x, y - r); cairo_line_to(c, x, y + r); cairo_move_to(c, x - r, y); cairo_line_to(c, x + r, y); break; case 4: cairo_move_to(c, x - r, y - r); cairo_line_to(c, x + r, y + r); cairo_move_to(c, x + r, y - r); cairo_line_to(c, x - r, y + r); break; default: break; } cairo_stroke(c);
}
static void ref_edge(cairo_t *c, double xs, double ys, double xe, double ye, double w, const VGColor &k, int mark, double ms) { cairo_set_source_rgba(c, k.r(), k.g(), k.b(), k.a()); cairo_set_line_width(c, w); cairo_new_path(c); cairo_move_to(c, xs, ys); cairo_line_to(c, xe, ye); cairo_stroke(c); ref_mark(c, mark, xs, ys, ms, k); ref_mark(c, mark, xe, ye, ms, k); }
static Mod to_rgba(const Mod &m) { if (m.nc == 4) return m; Mod r; r.w = m.w; r.h = m.h; r.nc = 4; r.f32 = false; r.v.resize((size_t)m.w * m.h * 4); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int c = 0; c < 4; ++c) r.at(x, y, c) = c == 3 ? 255 : m.at(x, y); return r; }
static Mod gen_pic(Gen &g, int lo, int hi) { return g.b() ? opaque(g, lo, hi) : gen_mod(g, lo, hi, lo, hi, 1, false); }
static VGColor level_color(int l) { switch (l) { case 0: return VGColor::red(); case 1: return VGColor::blue(); case 2: return VGColor::green(); case 3: return VGColor::yellow(); case 4: return VGColor::purple(); case 5: return VGColor::cyan(); default: return VGColor::white(); } }
FACET(annotate, 2.0, "gray and colour images, 1-12 annotations (marks of every kind, edges with and without end marks, boxes, keypoints at any level and scale, another image set): the canvas shows the described shapes at base-image positions and the given image stays unchanged; nontrivial: something is drawn")
{
        Mod m = gen_pic(g, 4, 60); Holder p(make(m, m.nc == 4 ? -1 : gen_stride(g, m))); VGImage vi(p, false); VGImageAnnotator a(vi); std::unique_ptr<Ref> r(new Ref(to_rgba(m))); Mod base = to_rgba(m); int n = (int)g.u(1, 12); std::string log; auto X = [&] { return co(g, base.w); }; auto Y = [&] { return co(g, base.h); };
        while (n--) { VGColor k(g.unit(), g.unit(), g.unit(), g.b(0.7) ? 1.0 : g.unit()); int mk = (int)g.i(-1, 4); switch (g.u(0, 6)) {
                case 0: case 1: { double x = X(), y = Y(), s = g.real(0, 20); a.draw_mark((VGImageAnnotator::MarkType)mk, x, y, s, k); ref_mark(r->c, mk, x, y, s, k); log += 'm'; break; }
                case 2: { double x = X(), y = Y(), u = X(), v = Y(), w = g.real(0.5, 6), s = g.real(0, 12); if (g.b(0.3)) { a.draw_edge(x, y, u, v, w, k); mk = -1; } else a.draw_edge(x, y, u, v, w, k, (VGImageAnnotator::MarkType)mk, s); ref_edge(r->c, x, y, u, v, w, k, mk, s); log += 'e'; break; }
                case 3: { double x = X(), y = Y(), u = g.real(0, 40), v = g.real(0, 40), w = g.real(0.5, 6); a.draw_roi(x, y, u, v, w, k); cairo_set_source_rgba(r->c, k.r(), k.g(), k.b(), k.a()); cairo_set_line_width(r->c, w); cairo_new_path(r->c); cairo_rectangle(r->c, x, y, u, v); cairo_stroke(r->c); log += 'r'; break; }
                case 4: case 5: { int q = (int)g.u(1, 5); std::vector<NXKeypoint> ks(q); for (auto &z : ks) { memset(&z, 0, sizeof z); z.level = (int)g.u(0, 6); z.scale = g.b() ? (float)(1 << g.u(0, 3)) : (float)g.real(0.5, 3); z.xs = (float)(X() / z.scale); z.ys = (float)(Y() / z.scale); z.x = (int)z.xs; z.y = (int)z.ys; z.sigma = (float)g.real(0.3, 5); } bool one = g.b(), all = g.b(0.7); if (all) a.draw_keypoints(q, ks.data(), one); else for (auto &z : ks) a.draw_keypoint(&z, k); for (auto &z : ks) ref_mark(r->c, 0, (double)(z.xs * z.scale), (double)(z.ys * z.scale), 2.0 * (double)(z.sigma * z.scale), all ? one ? VGColor::white() : level_color(z.level) : k); log += 'k'; break; }
                default: if (g.b(0.3)) { Mod o = gen_pic(g, 4, 40); Holder q(make(o)); VGImage v2(q, false); a.set_image(v2); base = to_rgba(o); r.reset(new Ref(base)); log += 's'; } } }
        g.note("%s", log.c_str()); CHECK(a.width() == base.w && a.height() == base.h, "canvas is %dx%d", a.width(), a.height()); const VGImage &c = a.get_canvas(); Mod w = r->out(); same_picture(c.nx_img(), w, base, "canvas"); check_same(p, m, "annotated image"); g.nontrivial(w.v != base.v);
}
FACET(match_image, 0.7, "two images of any sizes and 0-8 matches: the combined picture shows both images side by side, and for every (inlier) match its motion and end points on either side; nontrivial: matches drawn")
{
        Mod l = gen_pic(g, 1, 40), r = gen_pic(g, 1, 40); Holder pl(make(l)), pr(make(r)); VGImage vl(pl, false), vr(pr, false); VGPointCorrespondence2D q; int n = (int)g.u(0, 8); bool only = g.b(); for (int i = 0; i < n; ++i) q.add_match(i, (float)co(g, l.w), (float)co(g, l.h), 1, i, (float)co(g, r.w), (float)co(g, r.h), 1, 0, g.b()); g.note("%dx%d %dx%d %d matches, only inliers %d", l.w, l.h, r.w, r.h, n, only);
        Mod base; base.nc = 4; base.f32 = false; base.w = l.w + r.w; base.h = std::max(l.h, r.h); base.v.assign((size_t)base.w * base.h * 4, 0.0); Mod L = to_rgba(l), R = to_rgba(r); for (int y = 0; y < l.h; ++y) for (int x = 0; x < l.w; ++x) for (int c = 0; c < 4; ++c) base.at(x, y, c) = L.at(x, y, c); for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) for (int c = 0; c < 4; ++c) base.at(l.w + x, y, c) = R.at(x, y, c);
        VGImageAnnotator a = VGImageAnnotator::create_match_image(vl, vr, q, only); Ref f(base); int drawn = 0; for (int i = 0; i < n; ++i) if (!only || q.is_inlier(i)) { ++drawn; const NXPointMatch2D &m = q[i]; ref_edge(f.c, m.x[0], m.x[1], m.xp[0], m.xp[1], 3, VGColor::red(), -1, 0); ref_edge(f.c, m.x[0] + l.w, m.x[1], m.xp[0] + l.w, m.xp[1], 3, VGColor::green(), -1, 0); ref_mark(f.c, 2, m.x[0], m.x[1], 10, VGColor::red()); ref_mark(f.c, 2, m.xp[0] + l.w, m.xp[1], 10, VGColor::green()); }
        const VGImage &c = a.get_canvas(); Mod w = f.out(); same_picture(c.nx_img(), w, base, "match image"); check_same(pl, l, "left image"); check_same(pr, r, "right image"); g.nontrivial(drawn > 0);
}
