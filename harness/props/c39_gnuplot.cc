// C39: what gnuplot understands of the commands and data sent to it; oracle: gnuplot itself.
#include "../df.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include "virg/nexus/nx_gnuplot.h"
#include "virg/nexus/nx_alloc.h"
using namespace pbt; using namespace dfm;

static bool have_gnuplot() { static int h = -1; if (h < 0) h = system("gnuplot --version >/dev/null 2>&1") == 0; return h; }
static std::string words(Gen &g, int n) { std::string a; for (char c = ' '; c < 127; ++c) if (c != '"' && c != '\\' && c != '`') a += c; switch (g.draw(3)) { case 0: return g.str(n, "ab"); case 1: return g.pick<std::string>({"", "%s", "100%", "%d%n", "a;b", "# x", "e", "EOD", "$a", "'q'", "x^2 {/Symbol a}", "set title", "@v"}); default: return g.str(n, a.c_str()); } }
// the session: commands either kept in a file that gnuplot reads later, or sent to gnuplot itself
struct Session {
        std::string script = scratch_file("script.gp"), err = scratch_file("err"); bool pipe; FILE *f = nullptr; NXGNUPlot *p;
        explicit Session(Gen &g) { pipe = g.b(0.3); if (pipe) { p = nx_gnuplot_new(nullptr, g.b(0.2)); } else { f = fopen(script.c_str(), "w"); p = nx_gnuplot_new(f, g.b(0.5)); } }
        void finish(Gen &g)
        {
                if (pipe) { nx_gnuplot_free(p); return; }
                nx_gnuplot_flush(p); std::string s = slurp(script); CHECK(!s.empty() && s.size() == (size_t)ftell(f), "flushing left %zu of %ld bytes in the stream", s.size(), ftell(f)); nx_gnuplot_free(p); CHECK(fputs("set angles degrees\n", f) >= 0 && fflush(f) == 0, "the stream was closed"); fclose(f); (void)g;
                int rc = system(("gnuplot '" + script + "' 2>'" + err + "' </dev/null").c_str()); std::string e = slurp(err); CHECK(rc == 0, "gnuplot rejects the session: %s", show(e.substr(0, 300)).c_str());
        }
        ~Session() { unlink(script.c_str()); unlink(err.c_str()); }
};
static std::string setting(const std::string &s, const std::string &k) { size_t p = s.find("\nset " + k + " \""); if (p == std::string::npos) return "(none)"; p += k.size() + 7; size_t e = s.find('\n', p); std::string r = s.substr(p, e - p); size_t q = r.rfind('"'); return q == std::string::npos ? "(unfinished)" : r.substr(0, q); }
static std::string line_with(const std::string &s, const std::string &k) { size_t p = s.find(k); return p == std::string::npos ? "" : s.substr(p + k.size(), s.find('\n', p) - p - k.size()); }

FACET(settings, 1.0, "1-8 settings (terminals of every kind but windows directly or by type, title, axis labels, all three at once, own commands) in any order to a stream or a running gnuplot: gnuplot's settings afterwards are the last ones given; nontrivial: two or more settings")
{
        if (!have_gnuplot()) g.discard(); std::string out = scratch_file("set.gp"); std::vector<std::string> files; std::string title, xl, yl, term = "", path; double w = 0, h = 0; bool feed = true; int var = -1; std::string log, tname; int n = (int)g.u(1, 8);
        { Session s(g); for (int i = 0; i < n; ++i) switch (g.u(0, 6)) {
                case 0: title = words(g, 20); nx_gnuplot_set_title(s.p, title.c_str()); log += 't'; break;
                case 1: xl = words(g, 20); nx_gnuplot_set_xlabel(s.p, xl.c_str()); log += 'x'; break;
                case 2: yl = words(g, 20); nx_gnuplot_set_ylabel(s.p, yl.c_str()); log += 'y'; break;
                case 3: title = words(g, 20); xl = words(g, 20); yl = words(g, 20); nx_gnuplot_set_title_and_labels(s.p, title.c_str(), xl.c_str(), yl.c_str()); log += '3'; break;
                case 4: case 5: { int t = (int)g.u(1, 4); bool direct = g.b(); path = scratch_file("plot" + std::to_string(i)); files.push_back(path); tname = direct ? g.str(8, "abcXYZ_019") : "VIRG"; term = t == 1 ? "svg" : t == 2 ? "pdfcairo" : t == 3 ? "epscairo" : "dumb"; feed = true; if (t == 1 || t == 4) { w = (double)g.u(t == 4 ? 20 : 50, t == 4 ? 200 : 2000); h = (double)g.u(t == 4 ? 10 : 50, t == 4 ? 90 : 2000); } else { w = (double)g.u(400, 5000) / 100; h = (double)g.u(400, 5000) / 100; }
                        if (!direct) nx_gnuplot_set_terminal(s.p, (NXTerminalType)t, w, h, path.c_str(), (int)g.u(0, 5)); else if (t == 1) nx_gnuplot_set_terminal_svg(s.p, (int)w, (int)h, tname.c_str(), path.c_str()); else if (t == 2) nx_gnuplot_set_terminal_pdf(s.p, w, h, path.c_str()); else if (t == 3) nx_gnuplot_set_terminal_eps(s.p, w, h, path.c_str()); else nx_gnuplot_set_terminal_ascii(s.p, (int)w, (int)h, feed = g.b()); if (t == 4) path = "*"; log += "0spea"[t]; break; }
                default: var = (int)g.u(0, 99999); if (g.b(0.2)) nx_gnuplot_send_command(s.p, "%s# a long comment\nmy%s = %d;\n", std::string((size_t)g.u(0, 6000), ' ').c_str(), "var", var); else nx_gnuplot_send_command(s.p, "my%s = %d;\n", "var", var); log += 'c'; }
          g.note("%s %s", s.pipe ? "pipe" : "stream", log.c_str()); nx_gnuplot_send_command(s.p, "save '%s'\n", out.c_str()); s.finish(g); }
        std::string v = slurp(out); unlink(out.c_str()); for (auto &f : files) unlink(f.c_str()); CHECK(!v.empty(), "gnuplot stopped before the end of the session");
        auto same = [&](const char *k, const std::string &t) { CHECK(setting(v, k) == t, "%s is %s, expected %s", k, show(setting(v, k)).c_str(), show(t).c_str()); }; same("title", title); same("xlabel", xl); same("ylabel", yl);
        if (!term.empty()) { std::string l = line_with(v, "set terminal "); CHECK(l.compare(0, term.size() + 1, term + " ") == 0, "terminal %s, expected %s", show(l).c_str(), term.c_str()); char sz[64]; if (term == "svg") snprintf(sz, sizeof sz, "size %g,%g ", w, h); else if (term == "dumb") snprintf(sz, sizeof sz, "size %g, %g ", w, h); else snprintf(sz, sizeof sz, "size %.2fcm, %.2fcm ", w, h); CHECK((l + " ").find(sz) != std::string::npos, "terminal %s, expected %s", show(l).c_str(), sz); if (term == "svg" && !tname.empty()) CHECK(l.find("name \"" + tname + "\"") != std::string::npos, "terminal %s, expected name %s", show(l).c_str(), show(tname).c_str()); if (term == "dumb") CHECK((l.find(" nofeed") == std::string::npos) == feed, "terminal %s, line feeds wanted %d", show(l).c_str(), feed); else { std::string o = line_with(v, "set output "); CHECK(o == "'" + path + "'", "output %s, expected %s", show(o).c_str(), path.c_str()); } }
        if (var >= 0) CHECK(atoi(line_with(v, "\nmyvar = ").c_str()) == var, "own command lost: myvar%s", line_with(v, "\nmyvar").c_str()); CHECK(line_with(v, "set border ").compare(0, 2, "3 ") == 0, "initial borders not set"); g.nontrivial(n >= 2);
}
FACET(data, 1.0, "frames of 1-5 columns (whole numbers, finite doubles, strings without quotes) and 1-300 rows without missing values, as named block or inline data, one or several in turn: gnuplot reads exactly the values sent, and goes on with the next command; nontrivial: 2 rows or more")
{
        if (!have_gnuplot()) g.discard(); int nf = (int)g.u(1, 3); std::vector<std::string> outs; std::vector<Frame> fs; size_t rows = 0; std::string log;
        { Session s(g); for (int k = 0; k < nf; ++k) {
                outs.push_back(scratch_file("table" + std::to_string(k))); Frame m; int nc = (int)g.u(1, 5), nr = g.b(0.1) ? (int)g.u(1, 300) : (int)g.u(1, 12); m.n_rows = nr; NXDataFrame *df = nx_data_frame_alloc(); std::string use;
                for (int c = 0; c < nc; ++c) { Col q; q.type = g.pick<NXDataColumnType>({NX_DCT_INT, NX_DCT_DOUBLE, NX_DCT_DOUBLE, NX_DCT_STRING}); q.label = g.b() ? words(g, 8) : "c" + std::to_string(c); nx_data_frame_add_column(df, q.type, q.label.c_str()); m.cols.push_back(q); use += (c ? ":" : ""); char t[80]; snprintf(t, sizeof t, q.type == NX_DCT_STRING ? "('<'.stringcolumn(%d).'>')" : "(sprintf('<%%.17g>',column(%d)))", c + 1); use += t; }
                for (int r = 0; r < nr; ++r) { nx_data_frame_add_row(df); for (int c = 0; c < nc; ++c) { Cell z; z.na = false; NXDataColumnType t = m.cols[c].type; if (t == NX_DCT_INT) z.i = g.any_int(); else if (t == NX_DCT_DOUBLE) { do z.d = gen_double(g); while (!std::isfinite(z.d) || (z.d != 0 && std::fabs(z.d) < 1e-300)); } else { z.s = words(g, 8); if (z.s.empty()) z.s = "-"; } put(df, r, c, t, z); m.cols[c].cells.push_back(z); } }
                bool named = g.b(); log += named ? 'n' : 'i'; std::string lab = "blk" + (g.b(0.1) ? std::string((size_t)g.u(1, 150), 'k') : std::string()) + std::to_string(k); if (named) nx_gnuplot_send_data_frame(s.p, df, lab.c_str()); nx_gnuplot_send_command(s.p, "set table '%s'\nplot %s using %s with table\n", outs.back().c_str(), named ? ("$" + lab).c_str() : "'-'", use.c_str()); if (!named) nx_gnuplot_send_data_frame(s.p, df, nullptr); nx_gnuplot_send_command(s.p, "unset table\n"); nx_data_frame_free(df); rows += nr; fs.push_back(m); }
          g.note("%s %s, %zu rows", s.pipe ? "pipe" : "stream", log.c_str(), rows); s.finish(g); }
        for (int k = 0; k < nf; ++k) {
                std::string v = slurp(outs[k]); unlink(outs[k].c_str()); std::vector<std::string> lines; { size_t p = 0; while (p < v.size()) { size_t e = v.find('\n', p); if (e == std::string::npos) e = v.size(); std::string l = v.substr(p, e - p); p = e + 1; if (l.find_first_not_of(" \t") != std::string::npos) lines.push_back(l); } }
                const Frame &m = fs[k]; CHECK(lines.size() == (size_t)m.n_rows || lines.size() == (size_t)m.n_rows + 1, "gnuplot read %zu rows, sent %d", lines.size(), m.n_rows); size_t off = lines.size() - m.n_rows;
                for (int r = 0; r < m.n_rows; ++r) { const std::string &l = lines[r + off]; size_t p = 0; for (size_t c = 0; c < m.cols.size(); ++c) { const Cell &z = m.cols[c].cells[r]; char t[64]; std::string w; if (m.cols[c].type == NX_DCT_STRING) w = z.s; else { snprintf(t, sizeof t, "%.17g", m.cols[c].type == NX_DCT_INT ? (double)z.i : z.d); w = t; } p = l.find('<', p); CHECK(p != std::string::npos, "row %d has too few values", r); bool ok = l.compare(p + 1, w.size() + 1, w + ">") == 0; if (!ok && m.cols[c].type != NX_DCT_STRING) ok = strtod(l.c_str() + p + 1, nullptr) == strtod(w.c_str(), nullptr); CHECK(ok, "row %d column %zu read as %s, sent %s", r, c, show(l.substr(p, 60)).c_str(), show(w).c_str()); p += w.size() + 1; } } }
        g.nontrivial(rows >= 2);
}
FACET(window, 0.02, "window terminals of any number, size and title: the command names them all; nontrivial: always")
{
        std::string t = words(g, 12), f = scratch_file("w"); int id = (int)g.u(0, 99), w = (int)g.u(100, 999), h = (int)g.u(1000, 2999); FILE *s = fopen(f.c_str(), "w"); NXGNUPlot *p = nx_gnuplot_new(s, 0); if (g.b()) nx_gnuplot_set_terminal_window(p, w, h, t.c_str(), id); else nx_gnuplot_set_terminal(p, NX_TERMINAL_WINDOW, w, h, t.c_str(), id); nx_gnuplot_free(p); fclose(s); std::string v = slurp(f); unlink(f.c_str()); char a[64]; snprintf(a, sizeof a, "size %d,%d ", w, h); CHECK(v.find(a) != std::string::npos, "size missing: %s", show(v).c_str()); CHECK(v.find("title \"" + t + "\"") != std::string::npos, "title missing: %s", show(v).c_str()); snprintf(a, sizeof a, " %d ", id); CHECK(v.find(a, v.find("term")) != std::string::npos, "number missing: %s", show(v).c_str()); g.nontrivial();
}
