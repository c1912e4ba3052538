// C33: checked file helpers, line reading, directories, logging.
#include "core.hpp"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_filesystem.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_log.h"
#include "../limited.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <fcntl.h>

FACET(lines, 4, "a stream of 0-12 lines of lengths 0-700, now and then up to 300000 (any bytes but newline, NUL included), last newline optional, read with a fresh, reused or tiny buffer until end of file; non-trivial: more than one line")
{
        int n = (int)g.u(0, 12); std::vector<std::string> L; std::string data;
        for (int k = 0; k < n; ++k) {
                std::string s;
                switch (g.draw(3)) {
                case 0: s = g.str(5, "ab "); break;
                case 1: s = std::string((size_t)(g.b(0.05) ? g.u(700, 20000) : g.b(0.01) ? g.u(20000, 300000) : g.u(0, 700)), 'x'); break;
                case 2: { auto b = g.bytes(20); for (uint8_t c : b) if (c != '\n') s += (char)c; break; }
                default: s = "";
                }
                bool nl = k + 1 < n || g.b(0.6);
                if (!nl && s.empty()) break;
                L.push_back(s + (nl ? "\n" : ""));
                data += L.back();
        }
        g.nontrivial(L.size() > 1);
        g.note("%zu lines, %zu bytes", L.size(), data.size());
        FILE *in = open_mem(data);
        char *line = NULL; size_t cap = 0;
        if (g.b()) { cap = (size_t)g.u(1, 20); line = (char *)nx_xmalloc(cap); }
        for (size_t k = 0; k < L.size(); ++k) {
                ssize_t r = nx_getline(&line, &cap, in);
                CHECK(r == (ssize_t)L[k].size(), "line %zu: nx_getline returned %zd, expected %zu", k, r, L[k].size());
                CHECK(cap > (size_t)r, "line %zu: buffer size %zu does not hold %zd characters", k, cap, r);
                CHECK(memcmp(line, L[k].data(), L[k].size()) == 0 && line[r] == '\0', "line %zu has wrong contents", k);
        }
        for (int k = 0; k < 2; ++k) { ssize_t r = nx_getline(&line, &cap, in); CHECK(r == -1, "nx_getline returned %zd at end of file, expected -1", r); }
        fclose(in); if (line) nx_free(line);
}
FACET(xio, 2, "items of 1-16 bytes written with nx_xfwrite to a named file and read with nx_xfread, asking for as many or more than present; non-trivial: more asked than present")
{
        size_t sz = (size_t)g.u(1, 16), n = (size_t)g.u(0, 60), ask = g.b() ? n : (size_t)g.u(0, 80);
        std::string fn = scratch_file("x.bin");
        std::vector<uint8_t> d(sz * n); uint64_t s = g.bits64(); for (auto &c : d) { s = s * 6364136223846793005ULL + 1; c = (uint8_t)(s >> 56); }
        g.note("size %zu, %zu items, %zu asked", sz, n, ask); g.nontrivial(ask > n);
        FILE *f = nx_xfopen(fn.c_str(), "wb");
        size_t first = (size_t)g.u(0, (int64_t)n);
        nx_xfwrite(d.data(), sz, first, f); nx_xfwrite(d.data() + sz * first, sz, n - first, f);
        if (g.b()) nx_xfclose(f, "x"); else CHECK(nx_fclose(f, "x") == NX_OK, "closing a good stream reported failure");
        std::string back = slurp(fn);
        CHECK(back.size() == d.size() && memcmp(back.data(), d.data(), d.size()) == 0, "file contents differ from what was written");
        f = nx_fopen(fn.c_str(), "rb"); CHECK(f != NULL, "opening an existing file failed");
        std::vector<uint8_t> e(sz * ask + 1, 0xA5);
        bool fat = fatal([&] { nx_xfread(e.data(), sz, ask, f); });
        CHECK(fat == (ask > n), "asking for %zu items of a file with %zu: %s", ask, n, fat ? "fatal" : "accepted");
        CHECK(memcmp(e.data(), d.data(), sz * std::min(ask, n)) == 0, "read data differ");
        CHECK(e[sz * ask] == 0xA5, "read beyond the requested items");
        fclose(f);
}
FACET(full, 2, "0-20000 bytes written to a device that accepts nothing: some step reports the failure; non-trivial: at least one byte")
{
        size_t n = (size_t)(g.b() ? g.u(0, 100) : g.u(0, 20000));
        g.nontrivial(n > 0); g.note("%zu bytes", n);
        std::vector<char> d(n, 'x');
        bool x = g.b(); bool reported = false;
        FILE *f = nx_fopen("/dev/full", "w"); CHECK(f, "cannot open /dev/full");
        int how = (int)g.draw(2);
        if (how == 0) { if (fatal([&] { nx_xfwrite(d.data(), 1, n, f); })) reported = true; }
        else if (how == 1) { if (fwrite(d.data(), 1, n, f) != n) reported = true; }
        else { std::string s(n, 'y'); if (nx_fputs_readable(s.c_str(), f) == EOF) reported = true; n += 2; }
        if (reported && g.b()) { fclose(f); return; }
        if (x) reported = fatal([&] { nx_xfclose(f, "full"); });
        else reported = nx_fclose(f, "full") != NX_OK;
        CHECK(reported == (n > 0), "%zu bytes lost on a full device: closing %s", n, reported ? "reported failure" : "reported success");
}
FACET(framefull, 0.5, "a data frame of any size saved to a full device is reported as not saved; non-trivial: always")
{
        struct NXDataFrame *df = nx_data_frame_alloc(); g.nontrivial();
        nx_data_frame_add_column(df, NX_DCT_INT, "a");
        int n = (int)(g.b() ? g.u(0, 10) : g.u(0, 3000));
        for (int k = 0; k < n; ++k) nx_data_frame_append_row(df, k);
        g.note("%d rows", n);
        if (g.b()) CHECK(!nx_data_frame_save_csv(df, "/dev/full"), "saving %d rows to a full device reported success", n);
        else CHECK(fatal([&] { nx_data_frame_xsave_csv(df, "/dev/full"); }), "saving %d rows to a full device reported success", n);
        nx_data_frame_free(df);
}
static void rmtree(const std::string &d)
{
        if (d.find(scratch()) != 0) return;
        DIR *q = opendir(d.c_str()); if (!q) return;
        while (dirent *e = readdir(q)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; if (unlink(p.c_str()) != 0) { rmtree(p); } }
        closedir(q); rmdir(d.c_str());
}
FACET(dirs, 2, "a scratch directory with 0-15 (now and then up to 3000) files and subdirectories of generated names: listing, checks and creation; non-trivial: at least one entry")
{
        std::string d = scratch_file("dir"); rmtree(d);
        CHECK(!nx_check_dir(d.c_str()), "a missing directory is reported as present");
        CHECK(fatal([&] { nx_scan_dir(d.c_str()); }), "listing a missing directory did not fail");
        nx_ensure_dir(d.c_str());
        struct stat st; CHECK(stat(d.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "nx_ensure_dir did not create the directory"); CHECK((st.st_mode & 0700) == 0700, "the owner cannot use the created directory (mode %o)", (unsigned)(st.st_mode & 07777));
        std::set<std::string> names = { ".", ".." }; std::map<std::string, int> kind;
        int n = (int)g.u(0, 15), many = g.b(0.001) ? (int)g.u(50, 3000) : 0;
        for (int k = 0; k < n + many; ++k) {
                std::string s = k < n ? g.str(12, "aAbZ09 ._-\xc3\xa9") : strf("%d.txt", k);
                if (s.empty() || s == "." || s == "..") continue;
                if (!names.insert(s).second) continue;
                int t = k < n ? (int)g.draw(2) : 0; kind[s] = t;
                std::string p = d + "/" + s;
                if (t == 0) spit(p, ""); else if (t == 1) { if (mkdir(p.c_str(), 0700)) fail("mkdir %s", p.c_str()); } else spit(p, "data");
        }
        g.note("%zu entries", names.size() - 2); g.nontrivial(names.size() > 2);
        if (g.b()) nx_ensure_dir(d.c_str());
        struct NXStringArray *sa = nx_scan_dir(d.c_str());
        CHECK(nx_string_array_size(sa) == (int)names.size(), "listing has %d entries, expected %zu", nx_string_array_size(sa), names.size());
        int k = 0;
        for (const std::string &s : names) { CHECK(s == nx_string_array_get(sa, k), "entry %d of the listing is %s, expected %s", k, show(nx_string_array_get(sa, k)).c_str(), show(s).c_str()); ++k; }
        nx_string_array_free(sa);
        for (auto &e : kind) {
                std::string p = d + "/" + e.first;
                CHECK((nx_check_dir(p.c_str()) != NX_FALSE) == (e.second == 1), "nx_check_dir is wrong about %s", show(e.first).c_str());
                if (e.second != 1) { CHECK(nx_check_file(p.c_str()), "nx_check_file misses %s", show(e.first).c_str()); CHECK(slurp(p) == (e.second == 2 ? "data" : ""), "checking changed the file"); }
                if (e.second != 1) CHECK(fatal([&] { nx_ensure_dir(p.c_str()); }), "ensuring a directory in place of a file succeeded");
        }
        CHECK(nx_check_file("/proc/self/exe"), "nx_check_file misses a file that can be read but not written");
        CHECK(!nx_check_file((d + "/no such file").c_str()), "nx_check_file finds a missing file");
        CHECK(access((d + "/no such file").c_str(), F_OK) != 0, "nx_check_file created a file");
        CHECK(fatal([&] { nx_ensure_dir((d + "/x y z/deeper").c_str()); }), "creating a directory below a missing one succeeded");
        if (names.count("a b") == 0) {
                FILE *f = nx_fopen((d + "/none/none").c_str(), "r"); CHECK(f == NULL, "opened a missing file");
                CHECK(fatal([&] { nx_xfopen((d + "/none/none").c_str(), "r"); }), "nx_xfopen of a missing file did not fail");
        }
        rmtree(d);
}
FACET(dirmem, 0.2, "repeated listing, checking and line reading leave no memory and no open descriptors behind; non-trivial: always")
{
        g.nontrivial();
        std::string d = scratch_file("dirm"); rmtree(d); nx_ensure_dir(d.c_str());
        int n = (int)g.u(0, 10); for (int k = 0; k < n; ++k) spit(d + strf("/f%d", k), "x\ny\n");
        g.note("%d files", n);
        auto nfd = [] { int c = 0; DIR *q = opendir("/proc/self/fd"); while (readdir(q)) ++c; closedir(q); return c; };
        auto run = [&] {
                struct NXStringArray *sa = nx_scan_dir(d.c_str()); nx_string_array_free(sa);
                nx_check_dir(d.c_str()); nx_check_dir((d + "/q").c_str()); nx_check_file(d.c_str());
                for (int k = 0; k < n; ++k) { nx_check_file((d + strf("/f%d", k)).c_str()); FILE *f = nx_xfopen((d + strf("/f%d", k)).c_str(), "r"); char *l = NULL; size_t c = 0; while (nx_getline(&l, &c, f) > 0) {} nx_free(l); nx_xfclose(f, "f"); }
                FILE *t = nx_xtmpfile(); nx_xfwrite("abc", 1, 3, t); rewind(t); char b[3]; nx_xfread(b, 1, 3, t); CHECK(memcmp(b, "abc", 3) == 0, "temporary file lost its data"); nx_xfclose(t, "t");
        };
        run(); size_t a = heap_bytes(); int fa = nfd(); run(); size_t b = heap_bytes(); int fb = nfd();
        CHECK(a == b, "%lld bytes left allocated", (long long)b - (long long)a);
        CHECK(fa == fb, "%d descriptors left open", fb - fa);
        rmtree(d);
}
FACET(log, 1, "a message of every level under every verbosity is printed to standard error exactly when its level is not below the verbosity, with its tag and text; non-trivial: printed")
{
        int verb = (int)g.u(0, 3), lev = (int)g.u(0, 3);
        std::string tag = g.str(8, "abcXYZ%"), msg = g.str(40, "hello %d world\n");
        int x = g.any_int();
        fflush(stderr);
        std::string fn = scratch_file("err.txt");
        int keep = dup(2); int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd);
        nx_log_verbosity((NXLogVerbosity)verb);
        nx_log_formatted((NXLogLevel)lev, "fn", 17, tag.c_str(), "%s=%d", msg.c_str(), x);
        fflush(stderr); dup2(keep, 2); close(keep);
        nx_log_verbosity(NX_LOG_SILENT);
        std::string out = slurp(fn);
        bool shown = lev >= verb; g.nontrivial(shown); g.note("verbosity %d level %d", verb, lev);
        if (shown) CHECK(out.find("[" + tag + "]") != std::string::npos && out.find(msg + "=" + std::to_string(x)) != std::string::npos && out.back() == '\n', "log output %s lacks the tag or message", show(out).c_str());
        else CHECK(out.empty(), "suppressed message was printed: %s", show(out).c_str());
}
FACET(refused, 1, "readable and quoted texts, items and data frames written to a stream that takes any number of bytes below the whole and then fails, for good or once: every writer reports the failure, and none when everything fits; non-trivial: some bytes fit")
{
        std::string s = g.b() ? g.str(40, "\\\"\n\r\t\b\f/ab'\xff\x01") : g.text(200); int kind = (int)g.u(0, 4); bool bad = false; NXDataFrame *df = nx_data_frame_alloc(); const NXDataColumnType T[5] = {NX_DCT_STRING, NX_DCT_INT, NX_DCT_DOUBLE, NX_DCT_BOOL, NX_DCT_FACTOR}; int nc = (int)g.u(1, 4), nr = (int)g.u(0, 4);
        std::vector<int> t; for (int c = 0; c < nc; ++c) { t.push_back((int)g.u(0, 4)); nx_data_frame_add_column(df, T[t[c]], g.str(6, "a\",").c_str()); } for (int r = 0; r < nr; ++r) { nx_data_frame_add_row(df); for (int c = 0; c < nc; ++c) if (!g.b(0.2)) switch (t[c]) { case 0: nx_data_frame_set_string(df, r, c, g.str(6, "x\",\n").c_str()); break; case 1: nx_data_frame_set_int(df, r, c, g.any_int()); break; case 2: nx_data_frame_set_double(df, r, c, g.any_double()); break; case 3: nx_data_frame_set_bool(df, r, c, g.b()); break; default: nx_data_frame_set_factor(df, r, c, g.str(6, "x\",\n").c_str()); } }
        const char *sep = g.pick<const char *>({",", "\t", ", ", " | "}); size_t item = (size_t)g.u(1, 8); auto w = [&](FILE *f) { switch (kind) { case 0: bad = nx_fputs_readable(s.c_str(), f) == EOF; break; case 1: bad = nx_fputs_double_quoted(s.c_str(), f) == EOF; break; case 2: bad = fatal([&] { nx_xfwrite(s.data(), item, s.size() / item, f); }); break; case 3: bad = !nx_data_frame_fprintf(df, f, sep); break; default: bad = !nx_data_frame_save_csv_stream(df, f); break; } };
        size_t all = full_size(w); CHECK(!bad, "writer %d reports a failure on a stream that takes everything", kind); if (!all) { nx_data_frame_free(df); return; } size_t room = (size_t)g.u(0, (int64_t)all - 1); if (g.b(0.3)) room = all - 1; g.note("writer %d, %zu of %zu bytes fit", kind, room, all); { Limited l(room, g.b()); w(l.f); CHECK(bad, "writer %d reports success though only %zu of %zu bytes fit", kind, room, all); } { Limited l(all); w(l.f); CHECK(!bad && l.taken == all, "writer %d fails with exactly enough room", kind); } nx_data_frame_free(df); g.nontrivial(room > 0);
}
#include <sys/wait.h>
#include <termios.h>
// runs f in a process whose standard error is a terminal or a file; returns what it printed there
static std::string on_terminal(bool tty, int *status, const std::function<void()> &f)
{
        std::string fn = scratch_file("term.txt"), out; fflush(nullptr); int m = -1, s = -1;
        if (tty) { m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) { if (m >= 0) close(m); *status = -1; return ""; } char name[64]; if (ptsname_r(m, name, sizeof name) || (s = open(name, O_RDWR | O_NOCTTY)) < 0) { close(m); *status = -1; return ""; } termios t; if (!tcgetattr(s, &t)) { cfmakeraw(&t); tcsetattr(s, TCSANOW, &t); } }
        else s = open(fn.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        pid_t p = fork(); if (p == 0) { if (m >= 0) close(m); dup2(s, 2); close(s); f(); fflush(stderr); _exit(0); }
        close(s); if (tty) { char b[512]; ssize_t k; while ((k = read(m, b, sizeof b)) > 0) out.append(b, (size_t)k); close(m); } int st = 0; waitpid(p, &st, 0); *status = st; return tty ? out : slurp(fn);
}
FACET(terminal, 0.2, "messages of every level and the library's own fatal error, on a terminal and in a file: the file gets the header and text and one line end, the terminal the same between colour codes that differ between levels and are reset before the line ends; a fatal error ends the process with the failure status; non-trivial: terminal")
{
        bool tty = g.b(0.7); std::string tag = g.str(6, "abcXYZ"), msg = g.str(30, "hello world %,;[]()"); int x = g.any_int(), verb = (int)g.u(0, 3), lev = (int)g.u(0, 4), reset = (int)g.u(0, 2), st = 0; std::string plain;
        auto run = [&](bool t, int level) { return on_terminal(t, &st, [&] { nx_log_verbosity((NXLogVerbosity)verb); if (level == 4) { if (reset) nx_log_fatal_func([](const char *, int, const char *, const char *, va_list) { _exit(3); }); nx_log_fatal_func(nullptr); nx_log_fatal("fn", 17, tag.c_str(), "%s=%d", msg.c_str(), x); } else nx_log_formatted((NXLogLevel)level, "fn", 17, tag.c_str(), "%s=%d", msg.c_str(), x); }); };
        auto ended = [&](int level) { if (level == 4) CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (NX_EXIT_FATAL & 0xff), "a fatal error ends with status %d", st); else CHECK(st == 0, "process ended with %d", st); };
        plain = run(false, lev); ended(lev); std::string text = msg + "=" + std::to_string(x); g.note("level %d verbosity %d tty %d", lev, verb, tty);
        if (lev != 4 && lev < verb) { CHECK(plain.empty(), "suppressed message was printed"); if (tty) { std::string o = run(true, lev); if (st == -1) return; CHECK(o.empty(), "suppressed message was printed on the terminal: %s", show(o).c_str()); } return; }
        size_t end = plain.find('\n'); CHECK(end != std::string::npos, "no line was printed"); std::string line = plain.substr(0, end); CHECK(line.size() >= text.size() && line.compare(line.size() - text.size(), text.size(), text) == 0 && line.find("[" + tag + "]") != std::string::npos && line.find('\x1b') == std::string::npos, "message in a file is %s", show(line).c_str()); CHECK(lev == 4 || plain.size() == end + 1, "more than the message was printed: %s", show(plain).c_str());
        if (!tty) return; std::string o = run(true, lev); if (st == -1) { g.discard(); return; } ended(lev); g.nontrivial(); end = o.find('\n'); CHECK(end != std::string::npos, "no line on the terminal"); std::string c = o.substr(0, end), bare, codes; size_t q = std::string::npos;
        for (size_t i = 0; i < c.size();) { if (c[i] == '\x1b') { size_t e = c.find('m', i); CHECK(e != std::string::npos, "unfinished colour code"); codes = c.substr(i, e + 1 - i); q = e + 1; i = e + 1; } else bare += c[i++]; }
        CHECK(bare == line, "on the terminal the message is %s, in a file %s", show(bare).c_str(), show(line).c_str()); CHECK(c[0] == '\x1b' && q == c.size(), "colours are not set before and reset after the message: %s", show(c).c_str()); CHECK(codes == "\x1b[0m" || codes == "\x1b[m", "the last colour code is not a reset: %s", show(c).c_str());
        int other = (int)g.u(0, 4); if (other != lev && (other == 4 || other >= verb)) { std::string o2 = run(true, other); ended(other); CHECK(o.substr(0, o.find('m')) != o2.substr(0, o2.find('m')), "levels %d and %d have the same colour", lev, other); }
}
