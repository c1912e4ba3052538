// C02: CSV text against a reference reader.
#include "df.hpp"
#include "virg/nexus/nx_csv_parser.h"
#include "virg/nexus/nx_csv_lexer.h"
using namespace dfm;

struct Fld { bool na = true, quoted = false; std::string t; };
// reference reader: nullopt-like (false) when the text is not well formed
static bool ref_read(const std::string &s, std::vector<std::vector<Fld>> &recs)
{
        if (s.empty()) return false;
        size_t p = 0, n = s.size();
        while (p < n) {
                std::vector<Fld> rec;
                if (s[p] == '\n' && (recs.empty() || recs[0].size() != 1)) return false;     // empty record
                for (;;) {
                        Fld f;
                        if (p < n && s[p] == '"') {
                                ++p; f.na = false; f.quoted = true;
                                for (;;) {
                                        if (p >= n) return false;
                                        if (s[p] == '"') { if (p + 1 < n && s[p+1] == '"') { f.t += '"'; p += 2; continue; } ++p; break; }
                                        f.t += s[p++];
                                }
                                if (p < n && s[p] != ',' && s[p] != '\n') return false;
                        } else {
                                size_t q = p;
                                while (q < n && s[q] != ',' && s[q] != '\n') { if (s[q] == '"') return false; ++q; }
                                f.t = s.substr(p, q - p); f.na = f.t.empty(); p = q;
                        }
                        rec.push_back(f);
                        if (p < n && s[p] == ',') { ++p; continue; }
                        if (p < n) ++p;
                        break;
                }
                if (!recs.empty() && rec.size() != recs[0].size()) return false;
                recs.push_back(rec);
        }
        return true;
}
// 0 string, 1 int, 2 double, 3 bool
static int ref_type(const Fld &f, long *iv, double *dv)
{
        if (f.quoted) return 0;
        if (f.t == "true" || f.t == "false") return 3;
        size_t p = 0; while (p < f.t.size() && strchr(" \t\r\v\f", f.t[p])) ++p;
        size_t d = p; if (d < f.t.size() && (f.t[d] == '-' || f.t[d] == '+')) ++d;
        size_t e = d; while (e < f.t.size() && f.t[e] >= '0' && f.t[e] <= '9') ++e;
        *dv = 0;
        if (e > d && e == f.t.size()) {
                __int128 v = 0; bool big = false;
                for (size_t k = d; k < e; ++k) { v = v * 10 + (f.t[k] - '0'); if (v > (__int128)1 << 70) { big = true; break; } }
                if (f.t[p] == '-') v = -v;
                if (!big && v <= INT_MAX && v >= INT_MIN) { *iv = (long)v; *dv = strtod(f.t.c_str(), NULL); return 1; }
        }
        char *end; double x = strtod(f.t.c_str(), &end);
        if (end != f.t.c_str() && *end == '\0') {
                // a number whose magnitude is beyond the range of double denotes no double
                bool has_inf = false; for (char ch : f.t) if (ch == 'i' || ch == 'I') has_inf = true;
                if (std::isinf(x) && !has_inf) return 0;
                *dv = x; return 2;
        }
        return 0;
}
static bool ref_frame(const std::string &s, Frame &m)
{
        std::vector<std::vector<Fld>> recs;
        if (!ref_read(s, recs)) return false;
        m.n_rows = (int)recs.size() - 1;
        for (size_t c = 0; c < recs[0].size(); ++c) {
                Col k; k.label = recs[0][c].t;
                bool str = false, bl = false, num = false, dbl = false;
                for (size_t r = 1; r < recs.size(); ++r) {
                        const Fld &f = recs[r][c];
                        Cell v;
                        if (!f.na) {
                                v.na = false; v.s = f.t; long iv = 0; double dv = 0;
                                int t = ref_type(f, &iv, &dv);
                                if (t == 0) str = true; else if (t == 3) bl = true; else { num = true; if (t == 2) dbl = true; }
                                v.i = (int)iv; v.d = dv; v.b = f.t == "true";
                        }
                        k.cells.push_back(v);
                }
                k.type = str || (bl && num) || (!bl && !num) ? NX_DCT_STRING : bl ? NX_DCT_BOOL : dbl ? NX_DCT_DOUBLE : NX_DCT_INT;
                m.cols.push_back(k);
        }
        return true;
}
static struct NXDataFrame *parse_mem(const std::string &s)
{
        char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1);
        struct NXCSVLexer *lx = nx_csv_lexer_new(p);
        struct NXCSVParser *cp = nx_csv_parser_new(lx);
        struct NXDataFrame *df = nx_csv_parser_parse(cp);
        nx_csv_parser_free(cp); nx_csv_lexer_free(lx); free(p);
        return df;
}
static void check_text(Gen &g, const std::string &s)
{
        Frame m; bool ok = ref_frame(s, m);
        struct NXDataFrame *df = NULL; std::string msg;
        int how = (int)g.draw(2); bool factors = how == 2 && g.b();
        bool f = fatal([&] {
                if (how == 0) df = parse_mem(s);
                else { FILE *in = open_mem(s); df = nx_data_frame_load_csv_stream(in, factors ? NX_TRUE : NX_FALSE); fclose(in); }
        }, &msg);
        if (ok) {
                CHECK(!f, "well-formed CSV '%s' was rejected: %s", show(s).c_str(), msg.c_str());
                CHECK(df != NULL, "no frame for '%s'", show(s).c_str());
                if (factors) for (int c = 0; c < (int)m.cols.size(); ++c) if (m.cols[c].type == NX_DCT_STRING) model_factor(m, c);
                compare(df, m, strf("reading '%s'", show(s.substr(0, 400)).c_str()).c_str());
                nx_data_frame_free(df);
        } else {
                CHECK(f, "malformed CSV '%s' was accepted as %dx%d", show(s).c_str(), df ? nx_data_frame_n_columns(df) : -1, df ? nx_data_frame_n_rows(df) : -1);
        }
}
static std::string gen_num(Gen &g)
{
        static const std::vector<std::string> fx = { "0", "-0", "+7", "007", "010", "0x10", "0X1F", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "1e3", "1E-3", ".5", "5.", "-.5e2", "1e400", "-1e400", "1e-400", "4e-320", "inf", "-inf", "nan", "infinity", "0x1p3", "1e", "1.2.3", "--1", "-", "+", ".", "1_0", "1 ", " 1", "\t2", "3\r", "0.1", "1e308", "1d2", "9223372036854775807", "-9223372036854775808", "0b1", "08", "1,5" };
        switch (g.draw(3)) {
        case 0: return g.pick(fx);
        case 1: return strf("%d", g.any_int());
        case 2: return dstr(gen_double(g));
        default: return g.str(6, "0123456789.-+eExX");
        }
}
static std::string quote(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"') o += '"'; o += c; } return o + "\""; }
static std::string gen_csv(Gen &g)
{
        int nc = (int)g.u(1, 5), nr = (int)g.u(0, 7);
        std::string s;
        std::vector<int> kind(nc); for (int &k : kind) k = (int)g.draw(5);
        for (int r = 0; r <= nr; ++r) {
                for (int c = 0; c < nc; ++c) {
                        if (c) s += ',';
                        int k = r == 0 ? 4 : g.b(0.1) ? (int)g.draw(5) : kind[c];
                        if (r > 0 && g.b(0.15)) continue;
                        switch (k) {
                        case 0: s += g.b() ? "true" : "false"; break;
                        case 1: s += strf("%d", g.any_int()); break;
                        case 2: { std::string t = gen_num(g); size_t p; while ((p = t.find(',')) != std::string::npos) t.erase(p, 1); s += t; break; }
                        case 3: s += quote(gen_string(g)); break;
                        case 4: { if (g.b(0.3)) { s += quote(gen_string(g)); break; } std::string t = g.b(0.2) ? gen_string(g) : g.str(6, "ab c1_.\\;'\xff\xe9\r\t"); std::string u; for (char ch : t) if (!strchr("\",\n", ch)) u += ch; s += u; break; }
                        default: { static const std::vector<std::string> w = { "true", "false", "True", "TRUE", "true ", " true", "t", "0", "1", "yes", "falsee", "null", "NA" }; s += g.pick(w); }
                        }
                }
                if (r < nr || g.b(0.7)) s += '\n';
        }
        return s;
}
FACET(wellformed, 4, "CSV texts built field by field (booleans, integers, reals of every spelling, quoted and bare text, empty fields), from memory or a stream, final newline optional, compared with a reference reader; non-trivial: at least one record with a non-empty field")
{
        std::string s = gen_csv(g);
        g.note("%s", show(s.substr(0, 200)).c_str());
        g.nontrivial(std::count(s.begin(), s.end(), '\n') >= 1 && s.size() > 4);
        check_text(g, s);
}
FACET(damaged, 3, "the same texts with 1-3 bytes inserted, deleted, replaced or the end cut off; the reference reader decides whether it must be accepted or rejected; non-trivial: the text is malformed or contains a quote")
{
        std::string s = gen_csv(g);
        int n = (int)g.u(1, 3);
        for (int k = 0; k < n; ++k) {
                size_t p = (size_t)g.u(0, (int64_t)s.size());
                static const std::string by = "\",\n\"a1 \\\t;";
                switch (g.draw(4)) {
                case 0: s.insert(p, 1, by[g.u(0, (int64_t)by.size() - 1)]); break;
                case 1: if (p < s.size()) s.erase(p, 1); break;
                case 2: if (p < s.size()) s[p] = by[g.u(0, (int64_t)by.size() - 1)]; break;
                case 3: s.resize(p); break;
                default: s.insert(p, 1, (char)g.u(1, 255));
                }
        }
        g.note("%s", show(s.substr(0, 200)).c_str());
        Frame m;
        g.nontrivial(s.find('"') != std::string::npos || !ref_frame(s, m));
        check_text(g, s);
}
FACET(bytes, 1.5, "short strings over quote, comma, newline, digits and letters, all arrangements; non-trivial: contains a quote or several records")
{
        std::string s = g.b() ? g.str(10, "\",\n1") : g.b(0.8) ? g.str(24, "\",\na1 -.e\r\\") : g.str(12, "\"\",\n1\t\f;\x01\xff");
        g.note("%s", show(s).c_str());
        g.nontrivial(s.find('"') != std::string::npos || std::count(s.begin(), s.end(), '\n') > 1);
        check_text(g, s);
}
FACET(bignum, 0.5, "one column of 1-6 generated number spellings; non-trivial: at least one spelling is not a plain decimal integer")
{
        std::string s = "n\n"; bool nt = false;
        int n = (int)g.u(1, 6);
        for (int k = 0; k < n; ++k) {
                std::string t = gen_num(g); size_t p; while ((p = t.find(',')) != std::string::npos) t.erase(p, 1);
                if (t.find_first_not_of("0123456789-") != std::string::npos) nt = true;
                s += t + "\n";
        }
        g.note("%s", show(s).c_str());
        g.nontrivial(nt);
        check_text(g, s);
}
FACET(large, 0.2, "texts of 1000-70000 bytes so that the stream buffer grows at every size, field lengths drawn so that the growth limits fall anywhere; non-trivial: text longer than the initial buffer")
{
        std::string s = "a,b\n";
        size_t target = (size_t)g.u(900, g.b(0.2) ? 70000 : 5000);
        while (s.size() < target) s += strf("%d,", (int)g.u(0, 99999)) + (g.b() ? quote(std::string((size_t)g.u(0, 300), 'x')) : std::string("y")) + "\n";
        if (g.b()) s.pop_back();
        g.note("%zu bytes", s.size());
        g.nontrivial(s.size() > 1024);
        FILE *in = open_mem(s); struct NXDataFrame *df = nx_data_frame_load_csv_stream(in, NX_FALSE); fclose(in);
        Frame m; CHECK(ref_frame(s, m), "internal: reference rejects its own text");
        compare(df, m, "reading a long text");
        nx_data_frame_free(df);
}
FACET(tall, 0.3, "texts of 1-4 columns and up to 8000 rows, or up to 600 columns and a few rows, all fields of a column alike but for one to three at any place that decide the column's type, or that are missing, or one record that is a field short or long; non-trivial: over 100 rows or columns")
{
        bool wide = g.b(0.4); int nc = wide ? (int)g.u(5, 600) : (int)g.u(1, 4), nr = wide ? (int)g.u(1, 4) : (1 << g.u(2, 12)) + (int)g.u(0, 60); if (!wide && g.b(0.3)) nr += (int)g.u(0, 4000);
        static const std::vector<std::string> kinds{"7", "-2.5", "true", "", "word", "\"5\"", "1e3", "2147483648", "false"}; uint64_t s = g.bits64(); auto rnd = [&] { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(s >> 33); };
        std::vector<std::vector<std::string>> t((size_t)nr, std::vector<std::string>((size_t)nc)); for (int c = 0; c < nc; ++c) { const std::string &k = kinds[rnd() % kinds.size()]; for (int r = 0; r < nr; ++r) t[r][c] = k; } int odd = (int)g.u(0, 3); for (int i = 0; i < odd; ++i) t[(size_t)g.u(0, nr - 1)][(size_t)g.u(0, nc - 1)] = g.pick(kinds);
        int cut = g.b(0.1) ? (int)g.u(0, nr - 1) : -1; std::string x; for (int c = 0; c < nc; ++c) x += strf("%sc%d", c ? "," : "", c); x += "\n"; for (int r = 0; r < nr; ++r) { if (r == cut) { if (nc > 1 && g.b()) t[r].pop_back(); else t[r].push_back("x"); } for (size_t c = 0; c < t[r].size(); ++c) x += (c ? "," : "") + t[r][c]; x += "\n"; } if (t.back().back() != "" && g.b()) x.pop_back();
        g.note("%d x %d, %d odd fields, damaged record %d", nr, nc, odd, cut); g.nontrivial(nr > 100 || nc > 100); Frame m; bool ok = ref_frame(x, m); NXDataFrame *df = nullptr; bool f = fatal([&] { FILE *in = open_mem(x); df = nx_data_frame_load_csv_stream(in, NX_FALSE); fclose(in); }); CHECK(f == !ok, ok ? "well-formed text refused" : "a text with a wrong number of fields in record %d was accepted", cut); if (!f) { compare(df, m, "reading a long table"); nx_data_frame_free(df); }
}
