// Reference model of a data frame, shared by C01 and C03.
#pragma once
#include "core.hpp"
#include "virg/nexus/nx_data_frame.h"

namespace dfm {
struct Cell { bool na = true; std::string s; int i = 0; double d = 0; bool b = false; };
struct Col { NXDataColumnType type; std::string label; std::vector<Cell> cells; std::vector<std::string> levels; };
struct Frame { std::vector<Col> cols; int n_rows = 0; };

inline bool same_double(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline std::string dstr(double d) { char t[64]; snprintf(t, sizeof t, "%.17g", d); return t; }

inline std::string gen_string(pbt::Gen &g)
{
        static const std::vector<std::string> fixed = { "", "true", "false", "12", "-3.5", "nan", "\"", "\"\"", ",", "\n", "a,b", "a\"b", "\"quoted\"", " ", "\\", "\\n", "a\\\"b", "\r\n", "NA", "\xff", "\xc3\xa9t\xc3\xa9", "\t", "0x10", "\xff,\xff", "end\\", "\n\n", "\"," , ",\"" };
        switch (g.draw(5)) {
        case 0: return g.str(6, "abc");
        case 1: return g.pick(fixed);
        case 2: return g.str(12, "\",\n\\ab \r\t\xff\xe9;'1");
        case 3: return g.text(20);
        case 4: return g.b(0.1) ? g.text(1500) : g.str(40, "xy\"\n,");
        default: return g.b(0.1) ? std::string((size_t)g.u(10, 300), 'p') + "ab"[g.u(0, 1)] : std::string(1, "abcdef"[g.u(0, 5)]);
        }
}
inline double gen_double(pbt::Gen &g)
{
        switch (g.draw(4)) {
        case 0: return (double)g.u(-20, 20);
        case 1: return g.any_double();
        case 2: { static const double s[] = { HUGE_VAL, -HUGE_VAL, NAN, 5e-324, -5e-324, DBL_MAX, -DBL_MAX, DBL_MIN, -0.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 0.1, 1e15, 1e17, 1e300 }; return s[g.u(0, 16)]; }
        case 3: return g.real(-1000, 1000);
        default: return (double)g.u(-4000, 4000) / 16.0;
        }
}
inline Cell gen_value(pbt::Gen &g, NXDataColumnType t)
{
        Cell c; c.na = false;
        switch (t) {
        case NX_DCT_STRING: case NX_DCT_FACTOR: c.s = gen_string(g); break;
        case NX_DCT_INT: c.i = g.any_int(); break;
        case NX_DCT_DOUBLE: c.d = gen_double(g); break;
        case NX_DCT_BOOL: c.b = g.b(); break;
        }
        return c;
}
inline void put(struct NXDataFrame *df, int r, int c, NXDataColumnType t, const Cell &v)
{
        if (v.na) { nx_data_frame_set_na(df, r, c); return; }
        switch (t) {
        case NX_DCT_STRING: { std::unique_ptr<char[]> p(new char[v.s.size() + 1]); memcpy(p.get(), v.s.c_str(), v.s.size() + 1); nx_data_frame_set_string(df, r, c, p.get()); break; }
        case NX_DCT_FACTOR: { std::unique_ptr<char[]> p(new char[v.s.size() + 1]); memcpy(p.get(), v.s.c_str(), v.s.size() + 1); nx_data_frame_set_factor(df, r, c, p.get()); break; }
        case NX_DCT_INT: nx_data_frame_set_int(df, r, c, v.i); break;
        case NX_DCT_DOUBLE: nx_data_frame_set_double(df, r, c, v.d); break;
        case NX_DCT_BOOL: nx_data_frame_set_bool(df, r, c, v.b ? NX_TRUE : NX_FALSE); break;
        }
}
inline std::string cell_text(NXDataColumnType t, const Cell &v)
{
        if (v.na) return "N/A";
        switch (t) {
        case NX_DCT_STRING: case NX_DCT_FACTOR: return "\"" + pbt::show(v.s) + "\"";
        case NX_DCT_INT: return pbt::strf("%d", v.i);
        case NX_DCT_DOUBLE: return dstr(v.d);
        default: return v.b ? "true" : "false";
        }
}
// checks the real frame against the model, cell by cell
inline void compare(const struct NXDataFrame *df, const Frame &m, const char *when)
{
        CHECK(nx_data_frame_n_columns(df) == (int)m.cols.size(), "%s: %d columns, expected %zu", when, nx_data_frame_n_columns(df), m.cols.size());
        CHECK(nx_data_frame_n_rows(df) == m.n_rows, "%s: %d rows, expected %d", when, nx_data_frame_n_rows(df), m.n_rows);
        for (int c = 0; c < (int)m.cols.size(); ++c) {
                const Col &k = m.cols[c];
                const struct NXDataColumn *dc = nx_data_frame_column(df, c);
                CHECK(k.label == nx_data_column_label(dc), "%s: label of column %d is '%s', expected '%s'", when, c, pbt::show(nx_data_column_label(dc)).c_str(), pbt::show(k.label).c_str());
                CHECK(nx_data_column_type(dc) == k.type, "%s: column %d has type %d, expected %d", when, c, (int)nx_data_column_type(dc), (int)k.type);
                for (int r = 0; r < m.n_rows; ++r) {
                        const Cell &v = k.cells[r];
                        CHECK((nx_data_frame_is_na(df, r, c) != NX_FALSE) == v.na, "%s: cell %d,%d is %s, expected %s", when, r, c, nx_data_frame_is_na(df, r, c) ? "missing" : "present", cell_text(k.type, v).c_str());
                        if (v.na) continue;
                        Cell got; got.na = false;
                        bool ok = true;
                        switch (k.type) {
                        case NX_DCT_STRING: got.s = nx_data_frame_get_string(df, r, c); ok = got.s == v.s; break;
                        case NX_DCT_FACTOR: got.s = nx_data_frame_get_factor(df, r, c); ok = got.s == v.s; break;
                        case NX_DCT_INT: got.i = nx_data_frame_get_int(df, r, c); ok = got.i == v.i; break;
                        case NX_DCT_DOUBLE: got.d = nx_data_frame_get_double(df, r, c); ok = same_double(got.d, v.d); break;
                        case NX_DCT_BOOL: got.b = nx_data_frame_get_bool(df, r, c) != NX_FALSE; ok = got.b == v.b; break;
                        }
                        CHECK(ok, "%s: cell %d,%d reads %s, expected %s", when, r, c, cell_text(k.type, got).c_str(), cell_text(k.type, v).c_str());
                }
                if (k.type == NX_DCT_FACTOR) {
                        int n = nx_data_column_n_factor_levels(dc);
                        std::set<std::string> lv;
                        for (int l = 0; l < n; ++l) {
                                std::string s = nx_data_column_factor_level(dc, l);
                                CHECK(lv.insert(s).second, "%s: factor level '%s' of column %d is listed twice", when, pbt::show(s).c_str(), c);
                        }
                        for (int r = 0; r < m.n_rows; ++r) if (!k.cells[r].na) CHECK(lv.count(k.cells[r].s), "%s: value '%s' of column %d is not among its levels", when, pbt::show(k.cells[r].s).c_str(), c);
                        if (!k.levels.empty() || n == 0) CHECK(n == (int)k.levels.size(), "%s: column %d has %d levels, expected %zu", when, c, n, k.levels.size());
                        for (const std::string &s : k.levels) CHECK(lv.count(s), "%s: level '%s' of column %d is gone", when, pbt::show(s).c_str(), c);
                } else {
                        CHECK(nx_data_column_n_factor_levels(dc) == 0, "%s: column %d is not a factor but has levels", when, c);
                }
        }
}
inline void model_set(Frame &m, int r, int c, const Cell &v)
{
        m.cols[c].cells[r] = v;
        if (m.cols[c].type == NX_DCT_FACTOR && !v.na) {
                auto &L = m.cols[c].levels;
                if (std::find(L.begin(), L.end(), v.s) == L.end()) L.push_back(v.s);
        }
}
inline void model_factor(Frame &m, int c)
{
        Col &k = m.cols[c];
        if (k.type == NX_DCT_FACTOR) return;
        for (Cell &v : k.cells) {
                if (v.na) continue;
                std::string s;
                switch (k.type) { case NX_DCT_INT: s = pbt::strf("%d", v.i); break; case NX_DCT_DOUBLE: s = dstr(v.d); break; case NX_DCT_BOOL: s = v.b ? "true" : "false"; break; default: s = v.s; }
                v.s = s;
        }
        k.type = NX_DCT_FACTOR;
        k.levels.clear();
        for (int r = 0; r < m.n_rows; ++r) model_set(m, r, c, Cell(k.cells[r]));
}
// a frame built column by column and row by row, real and model in step
inline struct NXDataFrame *build(pbt::Gen &g, Frame &m, int max_cols, int max_rows, bool same_kind)
{
        struct NXDataFrame *df = nx_data_frame_alloc();
        int nc = g.len(1, max_cols, max_cols * 12, 0.03), nr = (int)(g.b(0.05) ? g.u(0, max_rows * 8) : g.u(0, max_rows));
        for (int c = 0; c < nc; ++c) {
                Col k; k.type = (NXDataColumnType)g.u(0, 4); k.label = gen_string(g);
                nx_data_frame_add_column(df, k.type, k.label.c_str());
                m.cols.push_back(k);
        }
        int na10 = (int)g.u(0, 6);
        for (int r = 0; r < nr; ++r) {
                nx_data_frame_add_row(df); m.n_rows++;
                for (int c = 0; c < nc; ++c) {
                        m.cols[c].cells.push_back(Cell());
                        if ((int)g.u(0, 9) < na10) continue;
                        Cell v = gen_value(g, m.cols[c].type);
                        put(df, r, c, m.cols[c].type, v);
                        model_set(m, r, c, v);
                }
        }
        (void)same_kind;
        return df;
}
inline std::string brief(const Frame &m)
{
        std::string s = pbt::strf("%zux%d ", m.cols.size(), m.n_rows);
        for (auto &k : m.cols) {
                s += "[" + pbt::show(k.label) + ":" + "SIDBF"[(int)k.type];
                for (int r = 0; r < m.n_rows && r < 3; ++r) s += " " + cell_text(k.type, k.cells[r]);
                s += "]";
                if (s.size() > 300) break;
        }
        return s;
}
} // namespace dfm
