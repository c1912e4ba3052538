// C03: histories of data frame operations against a plain model.
#include "df.hpp"
#include "virg/nexus/nx_string.h"
using namespace dfm;

static std::string dq(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"') o += '"'; o += c; } return o + "\""; }

FACET(history, 4, "20-70 operations (add column(s)/row, append row, set cell or whole row, set missing, make factor, print) on one frame, every cell compared against a model after each; non-trivial: rows or columns were added after cells had been written")
{
        Frame m; struct NXDataFrame *df = nx_data_frame_alloc();
        int n_ops = (int)g.u(1, 70);
        bool written = false;
        std::string log;
        for (int o = 0; o < n_ops; ++o) {
                int nc = (int)m.cols.size();
                switch (g.pick_idx({ 2, 6, 10, 3, 3, 2, 1, 2, 1, 1 })) {
                case 0: {
                        if (nc >= 12) break;
                        Col k; k.type = (NXDataColumnType)g.u(0, 4); k.label = gen_string(g); k.cells.resize(m.n_rows);
                        log += strf(" col%c", "SIDBF"[k.type]);
                        if (written) g.nontrivial();
                        std::string lab = k.label;
                        std::unique_ptr<char[]> p(new char[lab.size() + 1]); memcpy(p.get(), lab.c_str(), lab.size() + 1);
                        nx_data_frame_add_column(df, k.type, p.get());
                        m.cols.push_back(k);
                        break;
                }
                case 1: {
                        log += " row";
                        if (written) g.nontrivial();
                        int id = nx_data_frame_add_row(df);
                        CHECK(id == m.n_rows, "add_row returned %d, expected %d", id, m.n_rows);
                        m.n_rows++;
                        for (auto &k : m.cols) k.cells.push_back(Cell());
                        break;
                }
                case 2: case 3: {
                        if (!nc || !m.n_rows) break;
                        int c = (int)g.u(0, nc - 1), r = (int)g.u(0, m.n_rows - 1);
                        Cell v = gen_value(g, m.cols[c].type);
                        log += strf(" set(%d,%d)", r, c);
                        put(df, r, c, m.cols[c].type, v);
                        model_set(m, r, c, v);
                        written = true;
                        break;
                }
                case 4: {
                        if (!nc || !m.n_rows) break;
                        int c = (int)g.u(0, nc - 1), r = (int)g.u(0, m.n_rows - 1);
                        log += strf(" na(%d,%d)", r, c);
                        nx_data_frame_set_na(df, r, c);
                        model_set(m, r, c, Cell());
                        break;
                }
                case 5: {
                        if (!nc) break;
                        int c = (int)g.u(0, nc - 1);
                        log += strf(" factor(%d)", c);
                        nx_data_frame_make_factor(df, c);
                        model_factor(m, c);
                        break;
                }
                case 6: {       // several columns at once
                        if (nc >= 10) break;
                        int n = (int)g.u(0, 3);
                        log += strf(" cols%d", n);
                        std::vector<NXDataColumnType> ts; std::vector<std::string> ls; std::vector<const char *> lp;
                        for (int k = 0; k < n; ++k) { ts.push_back((NXDataColumnType)g.u(0, 4)); ls.push_back(gen_string(g)); }
                        for (auto &s : ls) lp.push_back(s.c_str());
                        nx_data_frame_add_columns(df, n, n ? ts.data() : (NXDataColumnType *)&n, n ? lp.data() : (const char **)&n);
                        for (int k = 0; k < n; ++k) { Col q; q.type = ts[k]; q.label = ls[k]; q.cells.resize(m.n_rows); m.cols.push_back(q); }
                        break;
                }
                case 7: {       // copying a cell onto itself or onto another cell of its column
                        if (!nc || !m.n_rows) break;
                        int c = (int)g.u(0, nc - 1), r = (int)g.u(0, m.n_rows - 1), r2 = g.b() ? r : (int)g.u(0, m.n_rows - 1);
                        Cell v = m.cols[c].cells[r];
                        if (v.na) break;
                        log += strf(" copy(%d->%d,%d)", r, r2, c);
                        if (m.cols[c].type == NX_DCT_STRING) nx_data_frame_set_string(df, r2, c, nx_data_frame_get_string(df, r, c));
                        else if (m.cols[c].type == NX_DCT_FACTOR) nx_data_frame_set_factor(df, r2, c, nx_data_frame_get_factor(df, r, c));
                        else put(df, r2, c, m.cols[c].type, v);
                        model_set(m, r2, c, v);
                        break;
                }
                case 8: {       // reading with the wrong type, or a missing cell, is refused and changes nothing
                        if (!nc || !m.n_rows) break;
                        int c = (int)g.u(0, nc - 1), r = (int)g.u(0, m.n_rows - 1);
                        int t = (int)g.u(0, 4);
                        bool bad = m.cols[c].cells[r].na || t != (int)m.cols[c].type;
                        bool f = fatal([&] {
                                switch (t) {
                                case 0: (void)nx_data_frame_get_string(df, r, c); break;
                                case 1: (void)nx_data_frame_get_int(df, r, c); break;
                                case 2: (void)nx_data_frame_get_double(df, r, c); break;
                                case 3: (void)nx_data_frame_get_bool(df, r, c); break;
                                default: (void)nx_data_frame_get_factor(df, r, c); break;
                                }
                        });
                        CHECK(f == bad, "reading cell %d,%d (%s, type %d) as type %d %s", r, c, cell_text(m.cols[c].type, m.cols[c].cells[r]).c_str(), (int)m.cols[c].type, t, f ? "was refused" : "was accepted");
                        break;
                }
                default: {      // printed form
                        if (!nc) break;
                        static const std::vector<std::string> seps = { ",", "\t", ";", " ", " | ", "" };
                        std::string sep = g.pick(seps);
                        std::string got = capture([&](FILE *f) { CHECK(nx_data_frame_fprintf(df, f, sep.c_str()), "printing failed"); });
                        std::string exp;
                        for (int c = 0; c < nc; ++c) exp += dq(m.cols[c].label) + (c + 1 < nc ? sep : "\n");
                        for (int r = 0; r < m.n_rows; ++r) for (int c = 0; c < nc; ++c) {
                                const Cell &v = m.cols[c].cells[r];
                                if (!v.na) switch (m.cols[c].type) {
                                        case NX_DCT_STRING: case NX_DCT_FACTOR: exp += dq(v.s); break;
                                        case NX_DCT_INT: exp += strf("%d", v.i); break;
                                        case NX_DCT_DOUBLE: exp += dstr(v.d); break;
                                        case NX_DCT_BOOL: exp += v.b ? "true" : "false"; break;
                                }
                                exp += c + 1 < nc ? sep : "\n";
                        }
                        CHECK(got == exp, "printed form is '%s', expected '%s'", show(got).c_str(), show(exp).c_str());
                }
                }
                if (o % 4 == 0 || o + 1 == n_ops) compare(df, m, strf("after%s", log.size() > 200 ? log.substr(log.size() - 200).c_str() : log.c_str()).c_str());
        }
        g.note("%d ops on %zux%d:%s", n_ops, m.cols.size(), m.n_rows, log.substr(0, 160).c_str());
        nx_data_frame_free(df);
}

FACET(rows, 1, "frames of five typed columns in a fixed order filled with append_row/set (variadic) and single sets interleaved; non-trivial: a row was overwritten")
{
        struct NXDataFrame *df = nx_data_frame_alloc(); Frame m;
        static const NXDataColumnType orders[3][5] = { { NX_DCT_INT, NX_DCT_STRING, NX_DCT_DOUBLE, NX_DCT_BOOL, NX_DCT_FACTOR }, { NX_DCT_FACTOR, NX_DCT_DOUBLE, NX_DCT_DOUBLE, NX_DCT_INT, NX_DCT_STRING }, { NX_DCT_BOOL, NX_DCT_BOOL, NX_DCT_STRING, NX_DCT_FACTOR, NX_DCT_INT } };
        int w = (int)g.u(0, 2);
        for (int c = 0; c < 5; ++c) { Col k; k.type = orders[w][c]; k.label = strf("c%d", c); m.cols.push_back(k); nx_data_frame_add_column(df, k.type, k.label.c_str()); }
        int n = (int)g.u(1, 40);
        for (int o = 0; o < n; ++o) {
                Cell v[5];
                for (int c = 0; c < 5; ++c) v[c] = gen_value(g, orders[w][c]);
                bool append = m.n_rows == 0 || g.b(0.6);
                int r = append ? m.n_rows : (int)g.u(0, m.n_rows - 1);
                if (!append) g.nontrivial();
                NXBool yes = g.b(0.8) ? NX_TRUE : (NXBool)g.pick<int>({2, 4, 256, -1}), b0 = v[0].b ? yes : NX_FALSE, b1 = v[1].b ? yes : NX_FALSE, b3 = v[3].b ? yes : NX_FALSE;
                int id = r;
                if (append) {
                        if (w == 0) id = nx_data_frame_append_row(df, v[0].i, v[1].s.c_str(), v[2].d, b3, v[4].s.c_str());
                        else if (w == 1) id = nx_data_frame_append_row(df, v[0].s.c_str(), v[1].d, v[2].d, v[3].i, v[4].s.c_str());
                        else id = nx_data_frame_append_row(df, b0, b1, v[2].s.c_str(), v[3].s.c_str(), v[4].i);
                        m.n_rows++;
                        for (auto &k : m.cols) k.cells.push_back(Cell());
                } else {
                        if (w == 0) nx_data_frame_set(df, r, v[0].i, v[1].s.c_str(), v[2].d, b3, v[4].s.c_str());
                        else if (w == 1) nx_data_frame_set(df, r, v[0].s.c_str(), v[1].d, v[2].d, v[3].i, v[4].s.c_str());
                        else nx_data_frame_set(df, r, b0, b1, v[2].s.c_str(), v[3].s.c_str(), v[4].i);
                }
                CHECK(id == r, "append_row returned %d, expected %d", id, r);
                for (int c = 0; c < 5; ++c) model_set(m, r, c, v[c]);
                if (g.b(0.2)) { int c = (int)g.u(0, 4); nx_data_frame_set_na(df, r, c); model_set(m, r, c, Cell()); }
        }
        compare(df, m, "after row operations");
        g.note("order %d, %d operations, %d rows", w, n, m.n_rows);
        nx_data_frame_free(df);
}

FACET(large, 0.15, "frames of up to 3000 rows, or up to 400 columns, or factor columns with up to 1500 levels, written in random order with repeats; every cell, level id and level name compared; non-trivial: over 64 rows, columns or levels")
{
        struct NXDataFrame *df = nx_data_frame_alloc(); Frame m;
        int shape = (int)g.u(0, 2);
        int nc = shape == 1 ? (int)g.u(1, 400) : (int)g.u(1, 4), nr = shape == 1 ? (int)g.u(1, 6) : shape == 0 ? (int)g.u(1, 3000) : (int)g.u(1, 1500), nl = (int)g.u(1, 1500);
        for (int c = 0; c < nc; ++c) { Col k; k.type = shape == 2 ? (c % 2 ? NX_DCT_STRING : NX_DCT_FACTOR) : (NXDataColumnType)g.u(0, 4); k.label = strf("column %d", c); m.cols.push_back(k); nx_data_frame_add_column(df, k.type, k.label.c_str()); }
        uint64_t s = g.bits64();
        auto rnd = [&](uint64_t n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) % n; };
        if (!s) s = 1;
        for (int r = 0; r < nr; ++r) { nx_data_frame_add_row(df); m.n_rows++; for (auto &k : m.cols) k.cells.push_back(Cell()); }
        g.nontrivial(nc > 64 || nr > 64); g.note("%d columns, %d rows, up to %d levels", nc, nr, nl);
        for (int o = 0; o < 2 * nr * nc; ++o) {
                int r = (int)rnd((uint64_t)nr), c = (int)rnd((uint64_t)nc);
                Cell v; v.na = false;
                v.s = strf("level-%d", (int)rnd((uint64_t)nl)); v.i = (int)rnd(1u << 31); v.d = v.i * 0.37; v.b = v.i & 1;
                put(df, r, c, m.cols[(size_t)c].type, v); model_set(m, r, c, v);
        }
        compare(df, m, "large frame");
        int c = (int)g.u(0, nc - 1);
        nx_data_frame_make_factor(df, c); model_factor(m, c);
        compare(df, m, "large frame with one more factor");
        Col late; late.type = (NXDataColumnType)g.u(0, 4); late.label = "late"; late.cells.resize((size_t)nr); nx_data_frame_add_column(df, late.type, "late"); m.cols.push_back(late);
        for (int o = 0; o < 20; ++o) { int r = o ? (int)rnd((uint64_t)nr) : nr - 1; Cell v; v.na = false; v.s = strf("level-%d", o % 7); v.i = o; v.d = o * 0.37; v.b = o & 1; put(df, r, nc, late.type, v); model_set(m, r, nc, v); }
        compare(df, m, "large frame with a late column");
        nx_data_frame_free(df);
}
FACET(memory, 0.3, "a frame is built, overwritten, factored, saved, loaded and freed; the heap returns to its size before; non-trivial: the frame has cells")
{
        auto run = [&](Gen &h) {
                Frame m; struct NXDataFrame *df = build(h, m, 4, 8, false);
                for (int c = 0; c < (int)m.cols.size(); ++c) if (h.b(0.4)) nx_data_frame_make_factor(df, c);
                FILE *f = tmpfile();
                nx_data_frame_save_csv_stream(df, f); rewind(f);
                struct NXDataFrame *d2 = nx_data_frame_load_csv_stream(f, h.b() ? NX_TRUE : NX_FALSE);
                fclose(f);
                nx_data_frame_free(d2); nx_data_frame_free(df);
                return m.n_rows;
        };
        uint64_t seed = g.bits64();
        { Gen h(seed); run(h); }
        size_t b0 = heap_bytes();
        int rows; { Gen h(seed); rows = run(h); }
        size_t b1 = heap_bytes();
        g.nontrivial(rows > 0);
        g.note("seed %llu, %d rows", (unsigned long long)seed, rows);
        CHECK(b0 == b1, "building, saving, loading and freeing a frame leaves %lld bytes allocated", (long long)b1 - (long long)b0);
}
