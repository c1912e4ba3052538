// C01: data frame -> CSV -> data frame.
#include "df.hpp"
using namespace dfm;

// the frame that reading back the CSV of m must give
static Frame reloaded(const Frame &m, bool factors)
{
        Frame r = m;
        for (Col &k : r.cols) {
                k.levels.clear();
                bool any = false, all_int = true;
                for (Cell &v : k.cells) {
                        if (v.na) continue;
                        any = true;
                        if (k.type == NX_DCT_DOUBLE && !(std::isfinite(v.d) && v.d == std::floor(v.d) && v.d >= -2147483648.0 && v.d <= 2147483647.0)) all_int = false;
                }
                NXDataColumnType t = k.type;
                if (!any || t == NX_DCT_FACTOR) t = NX_DCT_STRING;
                else if (t == NX_DCT_DOUBLE && all_int) { t = NX_DCT_INT; for (Cell &v : k.cells) v.i = (int)v.d; }
                k.type = t;
        }
        if (factors) for (int c = 0; c < (int)r.cols.size(); ++c) if (r.cols[c].type == NX_DCT_STRING) model_factor(r, c);
        return r;
}
static bool interesting(const Frame &m)
{
        for (auto &k : m.cols) for (auto &v : k.cells) if (v.na || v.s.find_first_of("\",\n\\") != std::string::npos) return m.n_rows > 0;
        return false;
}
FACET(stream, 3, "a frame of 1-6 (sometimes 72) columns of every type and 0-12 (sometimes 96) rows, labels and strings over quotes, commas, newlines, backslashes and non-ASCII bytes, saved to and loaded from a stream; non-trivial: some cell is missing or needs quoting")
{
        Frame m; struct NXDataFrame *df = build(g, m, 6, 12, false);
        g.note("%s", brief(m).c_str());
        g.nontrivial(interesting(m));
        bool factors = g.b(0.3);
        FILE *f = tmpfile();
        CHECK(nx_data_frame_save_csv_stream(df, f), "saving the frame failed");
        compare(df, m, "source frame after saving");
        rewind(f);
        struct NXDataFrame *d2 = nx_data_frame_load_csv_stream(f, factors ? NX_TRUE : NX_FALSE);
        fclose(f);
        compare(d2, reloaded(m, factors), "frame loaded from stream");
        nx_data_frame_free(d2);
        nx_data_frame_free(df);
}
FACET(file, 1, "the same frames through save_csv/load_csv or xsave_csv/xload_csv on a named file that may hold an older, longer frame; non-trivial: some cell is missing or needs quoting")
{
        Frame m; struct NXDataFrame *df = build(g, m, 5, 10, false);
        g.note("%s", brief(m).c_str());
        g.nontrivial(interesting(m));
        std::string fn = scratch_file("t.csv");
        if (g.b()) spit(fn, std::string((size_t)g.u(0, 5000), 'z'));
        bool x = g.b(), factors = g.b(0.3), xl = g.b();
        if (x) nx_data_frame_xsave_csv(df, fn.c_str());
        else CHECK(nx_data_frame_save_csv(df, fn.c_str()), "saving to %s failed", fn.c_str());
        struct NXDataFrame *d2 = xl ? nx_data_frame_xload_csv(fn.c_str(), factors ? NX_TRUE : NX_FALSE) : nx_data_frame_load_csv(fn.c_str(), factors ? NX_TRUE : NX_FALSE);
        CHECK(d2 != NULL, "loading %s failed", fn.c_str());
        compare(d2, reloaded(m, factors), "frame loaded from file");
        // saving what was loaded and loading again changes nothing any more
        std::string fn2 = scratch_file("t2.csv");
        nx_data_frame_xsave_csv(d2, fn2.c_str());
        struct NXDataFrame *d3 = nx_data_frame_xload_csv(fn2.c_str(), factors ? NX_TRUE : NX_FALSE);
        compare(d3, reloaded(m, factors), "frame after a second save and load");
        nx_data_frame_free(d3); nx_data_frame_free(d2); nx_data_frame_free(df);
}

FACET(large, 0.5, "frames of one to three columns and up to 30000 rows, or a few cells of up to 150000 characters, so that the text passes every power of two up to 256 KiB; non-trivial: the text is longer than 4096 bytes")
{
        bool longcell = g.b(0.3);
        int n = longcell ? (int)g.u(1, 3) : 1 << g.u(4, 14); n += (int)g.u(0, n - 1);
        uint64_t s = g.bits64(); auto rnd = [&] { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(s >> 33); };
        struct NXDataFrame *df = nx_data_frame_alloc();
        nx_data_frame_add_column(df, NX_DCT_INT, "i"); nx_data_frame_add_column(df, NX_DCT_STRING, "a \"label\""); if (!longcell) nx_data_frame_add_column(df, NX_DCT_BOOL, "b");
        std::vector<int> I; std::vector<std::string> S; std::vector<bool> NA; size_t bytes = 0;
        for (int r = 0; r < n; ++r) {
                nx_data_frame_add_row(df);
                I.push_back((int)rnd()); std::string t((size_t)(longcell ? (1 << (rnd() % 17)) + (int)(rnd() % 20000) : rnd() % 12), 'a' + (char)(rnd() % 26));
                if (!t.empty() && rnd() % 4 == 0) t[rnd() % t.size()] = "\",\n\\"[rnd() % 4];
                S.push_back(t); NA.push_back(rnd() % 10 == 0); bytes += t.size() + 16;
                nx_data_frame_set_int(df, r, 0, I[r]); if (!NA[r]) nx_data_frame_set_string(df, r, 1, t.c_str()); if (!longcell) nx_data_frame_set_bool(df, r, 2, I[r] & 1);
        }
        g.note("%d rows, about %zu bytes", n, bytes); g.nontrivial(bytes > 4096);
        FILE *f = tmpfile(); CHECK(nx_data_frame_save_csv_stream(df, f), "saving failed"); rewind(f);
        struct NXDataFrame *d2 = nx_data_frame_load_csv_stream(f, NX_FALSE); fclose(f);
        CHECK(nx_data_frame_n_rows(d2) == n, "%d rows came back of %d", nx_data_frame_n_rows(d2), n);
        CHECK(nx_data_frame_n_columns(d2) == (longcell ? 2 : 3), "%d columns came back", nx_data_frame_n_columns(d2));
        for (int r = 0; r < n; ++r) {
                CHECK(nx_data_frame_get_int(d2, r, 0) == I[r], "row %d: integer %d came back as %d", r, I[r], nx_data_frame_get_int(d2, r, 0));
                bool na = nx_data_frame_is_na(d2, r, 1);
                CHECK(na == NA[r], "row %d: missing cell is %d, expected %d", r, na, (int)NA[r]);
                if (!na) CHECK(S[r] == nx_data_frame_get_string(d2, r, 1), "row %d: string of %zu characters came back changed", r, S[r].size());
                if (!longcell) CHECK((nx_data_frame_get_bool(d2, r, 2) != 0) == (I[r] & 1), "row %d: boolean changed", r);
        }
        nx_data_frame_free(df); nx_data_frame_free(d2);
}
