// C09: string codecs, formatted strings, string I/O, string arrays.
#include "core.hpp"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_alloc.h"
#include "../limited.hpp"

static std::string gen_s(Gen &g)
{
        switch (g.draw(4)) {
        case 0: return g.str(8, "ab");
        case 1: return g.str(20, "\\\"\n\r\t\b\f/ab'\xff\x01");
        case 2: return g.text(30);
        case 3: return std::string((size_t)(g.b() ? g.u(55, 75) : g.u(0, 2000)), 'q') + g.str(3, "\\\"z");
        default: return std::string(1, (char)g.u(1, 255));
        }
}
struct Buf { char *p; Buf(const std::string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Buf() { free(p); } operator const char *() const { return p; } };
// exactly sized, no terminator
struct Raw { char *p; Raw(const std::string &s) { p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); } ~Raw() { free(p); } operator const char *() const { return p; } };

static bool ref_readable(const std::string &s, std::string &o)
{
        for (size_t k = 0; k < s.size(); ++k) {
                if (s[k] != '\\') { o += s[k]; continue; }
                if (++k >= s.size()) return false;
                switch (s[k]) { case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; default: return false; }
        }
        return true;
}
static bool ref_dquoted(const std::string &s, std::string &o)
{
        for (size_t k = 0; k < s.size(); ++k) {
                if (s[k] == '"') { if (k + 1 >= s.size() || s[k+1] != '"') return false; ++k; }
                o += s[k];
        }
        return true;
}
FACET(readable, 2, "a string over escapes, control and non-ASCII bytes is written readably and decoded again; non-trivial: it contains a character that is escaped")
{
        std::string s = gen_s(g);
        g.note("%s", show(s.substr(0, 80)).c_str());
        g.nontrivial(s.find_first_of("\n\r\t\b\f\"\\") != std::string::npos);
        Buf b(s);
        std::string out = capture([&](FILE *f) { CHECK(nx_fputs_readable(b, f) != EOF, "nx_fputs_readable failed"); });
        CHECK(out.size() >= 2 && out[0] == '"' && out.back() == '"', "readable form %s is not quoted", show(out).c_str());
        std::string in = out.substr(1, out.size() - 2);
        CHECK(in.find_first_of("\n\r\t\b\f") == std::string::npos, "readable form of %s contains a raw control character: %s", show(s).c_str(), show(out).c_str());
        for (size_t k = 0; k < in.size(); ++k) { if (in[k] == '\\') { ++k; continue; } CHECK(in[k] != '"', "unescaped quote in readable form %s", show(out).c_str()); }
        std::string r; CHECK(ref_readable(in, r) && r == s, "readable form %s does not denote %s", show(out).c_str(), show(s).c_str());
        Raw raw(in);
        char *d = nx_xstr_from_readable(in.size(), raw);
        CHECK(s == d, "decoding %s gives %s, expected %s", show(in).c_str(), show(d).c_str(), show(s).c_str());
        nx_free(d);
}
FACET(dquoted, 2, "a string is written with doubled quotes and decoded again; non-trivial: it contains a quote")
{
        std::string s = g.b() ? gen_s(g) : g.str(10, "\"a,");
        g.note("%s", show(s.substr(0, 80)).c_str());
        g.nontrivial(s.find('"') != std::string::npos);
        Buf b(s);
        std::string out = capture([&](FILE *f) { CHECK(nx_fputs_double_quoted(b, f) != EOF, "nx_fputs_double_quoted failed"); });
        std::string exp = "\""; for (char c : s) { if (c == '"') exp += '"'; exp += c; } exp += '"';
        CHECK(out == exp, "double quoted form of %s is %s", show(s).c_str(), show(out).c_str());
        std::string in = out.substr(1, out.size() - 2);
        Raw raw(in);
        char *d = nx_xstr_from_double_quoted(in.size(), raw);
        CHECK(s == d, "decoding %s gives %s", show(in).c_str(), show(d).c_str());
        nx_free(d);
}
FACET(decode, 1, "arbitrary escaped texts, valid or not, against reference decoders; non-trivial: contains a backslash or quote")
{
        std::string s = g.str(10, "\\\"nrtbf/xa0");
        g.note("%s", show(s).c_str());
        g.nontrivial(s.find_first_of("\\\"") != std::string::npos);
        bool readable = g.b();
        std::string exp; bool ok = readable ? ref_readable(s, exp) : ref_dquoted(s, exp);
        Raw raw(s); char *d = NULL;
        bool f = fatal([&] { d = readable ? nx_xstr_from_readable(s.size(), raw) : nx_xstr_from_double_quoted(s.size(), raw); });
        CHECK(f == !ok, "%s text %s was %s", readable ? "escaped" : "double quoted", show(s).c_str(), f ? "refused" : "accepted");
        if (ok) { CHECK(exp == d, "decoding %s gives %s, expected %s", show(s).c_str(), show(d).c_str(), show(exp).c_str()); nx_free(d); }
}
FACET(format, 1.5, "formatted strings whose results have lengths around and beyond the initial buffer, duplicates and reduplicates; non-trivial: longer than 60 characters")
{
        std::string a = gen_s(g), c = gen_s(g); int n = g.any_int(); double x = g.real(-1e6, 1e6); int w = (int)g.u(0, 140);
        g.nontrivial(a.size() + c.size() > 60);
        g.note("lengths %zu %zu width %d", a.size(), c.size(), w);
        Buf ba(a), bc(c);
        char *s; std::string exp;
        switch (g.draw(3)) {
        case 0: s = nx_fstr("%s", (const char *)ba); exp = a; break;
        case 1: s = nx_fstr("%s-%d-%s", (const char *)ba, n, (const char *)bc); exp = a + "-" + std::to_string(n) + "-" + c; break;
        case 2: { s = nx_fstr("%*d%%%.3f%c", w, n, x, 'k'); char t[512]; snprintf(t, sizeof t, "%*d%%%.3f%c", w, n, x, 'k'); exp = t; break; }
        default: s = nx_fstr("%s%s%s%s", (const char *)ba, (const char *)bc, (const char *)ba, (const char *)bc); exp = a + c + a + c;
        }
        CHECK(exp == s, "formatted string is %s, expected %s", show(s).c_str(), show(exp).c_str());
        char *d = nx_strdup(s);
        CHECK(exp == d && d != s, "duplicate differs");
        nx_strredup(&d, bc); CHECK(c == d, "reduplicated string is %s, expected %s", show(d).c_str(), show(c).c_str());
        if (g.b()) { nx_strredup(&d, d); CHECK(c == d, "string reduplicated onto itself is %s", show(d).c_str()); }
        nx_strredup(&d, NULL); CHECK(d == NULL, "reduplicating NULL does not clear the string");
        nx_strredup(&d, ba); CHECK(a == d, "reduplicated string is %s, expected %s", show(d).c_str(), show(a).c_str());
        nx_free(d); nx_free(s);
}
FACET(strio, 1.5, "1-6 strings written to a stream and read back through fresh, reused or preallocated buffers, or cut short at any byte; non-trivial: more than one string")
{
        int n = (int)g.u(1, 6); std::vector<std::string> v;
        for (int k = 0; k < n; ++k) v.push_back(gen_s(g));
        g.note("%d strings, first %s", n, show(v[0].substr(0, 40)).c_str());
        g.nontrivial(n > 1);
        std::string data = capture([&](FILE *f) { for (auto &s : v) { Buf b(s); CHECK(nx_strwrite(b, f) == 0, "nx_strwrite failed"); } });
        size_t len = data.size();
        size_t cut = g.b(0.4) ? (size_t)g.u(0, (int64_t)len) : len;
        FILE *in = open_mem(data.substr(0, cut));
        std::string mode;
        char *buf = NULL; size_t cap = 0; size_t pos = 0;
        int how = (int)g.draw(2);
        if (how == 2) { cap = (size_t)g.u(1, 40); buf = (char *)nx_xmalloc(cap); }
        for (int k = 0; k < n; ++k) {
                size_t need = sizeof(size_t) + v[k].size();
                bool whole = pos + need <= cut; pos += need;
                if (how == 0) {
                        char *s = nx_strread0(in);
                        CHECK((s != NULL) == whole, "string %d of %zu of %zu bytes: read %s", k, cut, len, s ? "succeeded" : "failed");
                        if (!s) break;
                        CHECK(v[k] == s, "string %d read as %s, expected %s", k, show(s).c_str(), show(v[k]).c_str());
                        nx_free(s);
                } else {
                        int e = nx_strread(&buf, cap, in);
                        CHECK((e == 0) == whole, "string %d of %zu of %zu bytes: read returned %d", k, cut, len, e);
                        if (e) break;
                        CHECK(v[k] == buf, "string %d read as %s, expected %s", k, show(buf).c_str(), show(v[k]).c_str());
                        if (how == 2 && v[k].size() >= cap) cap = v[k].size() + 1;
                }
        }
        fclose(in); if (buf) nx_free(buf);
}
FACET(array, 3, "1-60 operations (append, appendf, set, setf, resize, find, copy of own elements, write and read back) on a string array against a list model; non-trivial: it shrank or was reread after holding strings")
{
        struct NXStringArray *sa; std::vector<std::string> m; std::vector<bool> null;
        switch (g.draw(2)) {
        case 0: sa = nx_string_array_alloc(); break;
        case 1: { int n = (int)g.u(0, 9); sa = nx_string_array_new(n); m.assign(n, ""); null.assign(n, true); break; }
        default: {
                int n = (int)g.u(0, g.b(0.08) ? 400 : 7); for (int k = 0; k < n; ++k) m.push_back(n > 20 ? strf("%d", k * 7) : gen_s(g)); null.assign(n, false);
                std::vector<char *> p; for (auto &s : m) p.push_back(const_cast<char *>(s.c_str())); p.push_back(NULL);
                sa = nx_string_array_new_from_null_terminated_list(p.data());
        } }
        int ops = (int)g.u(1, 60); std::string log;
        for (int o = 0; o < ops; ++o) {
                int n = (int)m.size(); int k = n ? (int)g.u(0, n - 1) : 0;
                switch (g.pick_idx({ 6, 3, 4, 2, 3, 3, 2, 1, 1 })) {
                case 0: { std::string s = gen_s(g); Buf b(s); log += " append"; int id = nx_string_array_append(sa, b); CHECK(id == n, "append returned %d, expected %d", id, n); m.push_back(s); null.push_back(false); break; }
                case 1: { std::string s = gen_s(g); Buf b(s); int x = g.any_int(); log += " appendf"; int id = nx_string_array_appendf(sa, "%d:%s", x, (const char *)b); CHECK(id == n, "appendf returned %d, expected %d", id, n); m.push_back(std::to_string(x) + ":" + s); null.push_back(false); break; }
                case 2: if (n) { std::string s = gen_s(g); Buf b(s); log += strf(" set%d", k); nx_string_array_set(sa, k, b); m[k] = s; null[k] = false; } break;
                case 3: if (n) { std::string s = gen_s(g); Buf b(s); log += strf(" setf%d", k); nx_string_array_setf(sa, k, "<%s|%c>", (const char *)b, 'x'); m[k] = "<" + s + "|x>"; null[k] = false; } break;
                case 4: { int z = (int)g.u(0, g.b(0.1) ? 200 : 20); log += strf(" resize%d", z); if (z < n) g.nontrivial(); nx_string_array_resize(sa, z); m.resize(z); null.resize(z, true); break; }
                case 5: {
                        std::string s = n && !null[k] && g.b(0.8) ? m[k] : gen_s(g); Buf b(s);
                        int exp = -1; for (int q = 0; q < n; ++q) if (!null[q] && m[q] == s) { exp = q; break; }
                        int id = nx_string_array_find(sa, b);
                        CHECK(exp < 0 ? id < 0 : id == exp, "find(%s) returned %d, expected %d", show(s).c_str(), id, exp); break; }
                case 6: if (n && !null[k]) {
                        log += strf(" self%d", k);
                        int q = (int)g.u(0, n - 1);
                        if (g.b()) { nx_string_array_set(sa, q, nx_string_array_get(sa, k)); m[q] = m[k]; null[q] = false; }
                        else { nx_string_array_append(sa, nx_string_array_get(sa, k)); m.push_back(m[k]); null.push_back(false); }
                        } break;
                case 7: if (n && !null[k]) { log += strf(" selff%d", k); nx_string_array_setf(sa, k, "%s%s", nx_string_array_get(sa, k), "+"); m[k] += "+"; if (m[k].size() > 5000) { nx_string_array_set(sa, k, "x"); m[k] = "x"; } } break;
                default: {
                        if (std::find(null.begin(), null.end(), true) != null.end()) break;
                        log += " reread"; g.nontrivial(n > 0);
                        bool x = g.b();
                        std::string d = capture([&](FILE *f) { if (x) nx_string_array_xwrite(sa, f); else CHECK(nx_string_array_write(sa, f) == 0, "writing the array failed"); });
                        FILE *in = open_mem(d);
                        struct NXStringArray *sb;
                        switch (g.draw(3)) {
                        case 0: sb = nx_string_array_read0(in); CHECK(sb, "reading the array back failed"); break;
                        case 1: sb = nx_string_array_xread0(in); break;
                        case 2: sb = nx_string_array_new((int)g.u(0, 5)); CHECK(nx_string_array_read(sb, in) == 0, "reading the array back failed"); break;
                        default: sb = nx_string_array_alloc(); for (int q = (int)g.u(0, g.b(0.1) ? 300 : 6); q > 0; --q) nx_string_array_append(sb, "old contents"); nx_string_array_xread(sb, in);
                        }
                        CHECK(fgetc(in) == EOF, "data left over after reading the array");
                        fclose(in);
                        nx_string_array_free(sa); sa = sb;
                } }
                CHECK(nx_string_array_size(sa) == (int)m.size(), "size is %d, expected %zu after%s", nx_string_array_size(sa), m.size(), log.c_str());
                for (size_t q = 0; q < m.size(); ++q) {
                        const char *e = nx_string_array_get(sa, (int)q);
                        CHECK((e == NULL) == null[q], "element %zu is %s after%s", q, e ? "set" : "not set", log.c_str());
                        if (e) CHECK(m[q] == e && nx_string_array_ptr(sa)[q] == e, "element %zu is %s, expected %s after%s", q, show(e).c_str(), show(m[q]).c_str(), log.c_str());
                }
        }
        g.note("%s", log.substr(0, 160).c_str());
        nx_string_array_free(sa);
}
FACET(arraycut, 0.7, "an array of 1-200 strings written and cut short at any byte: reading reports failure; non-trivial: always")
{
        int n = (int)g.u(1, g.b(0.1) ? 200 : 5); std::vector<std::string> v; struct NXStringArray *sa = nx_string_array_alloc();
        for (int k = 0; k < n; ++k) { v.push_back(g.str(10, "abc\"\n")); nx_string_array_append(sa, v.back().c_str()); }
        std::string d = capture([&](FILE *f) { nx_string_array_xwrite(sa, f); });
        nx_string_array_free(sa);
        size_t cut = (size_t)g.u(0, (int64_t)d.size() - 1);
        g.note("%d strings, %zu of %zu bytes", n, cut, d.size()); g.nontrivial();
        FILE *in = open_mem(d.substr(0, cut));
        if (g.b()) { struct NXStringArray *sb = nx_string_array_read0(in); CHECK(sb == NULL, "array cut to %zu of %zu bytes was read", cut, d.size()); }
        else {
                struct NXStringArray *sb = nx_string_array_alloc(); nx_string_array_append(sb, "old");
                if (g.b()) CHECK(nx_string_array_read(sb, in) != 0, "array cut to %zu of %zu bytes was read", cut, d.size());
                else CHECK(fatal([&] { nx_string_array_xread(sb, in); }), "array cut to %zu of %zu bytes was read", cut, d.size());
                nx_string_array_append(sb, "still usable");
                nx_string_array_free(sb);
        }
        fclose(in);
}
FACET(memory, 0.3, "string arrays and strings built, rewritten, shrunk, written, read and freed leave no memory behind; non-trivial: always")
{
        uint64_t seed = g.bits64(); g.nontrivial(); g.note("seed %llu", (unsigned long long)seed);
        auto run = [&] {
                Gen h(seed);
                struct NXStringArray *sa = nx_string_array_new((int)h.u(0, 5));
                int n = (int)h.u(1, 20), big = h.b(0.15) ? (int)h.u(20, 500) : 0;
                for (int k = 0; k < big; ++k) nx_string_array_append(sa, "many");
                for (int k = 0; k < n; ++k) {
                        std::string s = gen_s(h);
                        if (h.b()) nx_string_array_append(sa, s.c_str()); else nx_string_array_appendf(sa, "%s%d", s.c_str(), k);
                        if (h.b(big ? 0.03 : 0.3)) nx_string_array_resize(sa, (int)h.u(0, 8));
                        int z = nx_string_array_size(sa);
                        if (z) { nx_string_array_setf(sa, z - 1, "%d", k); nx_string_array_set(sa, 0, "abc"); }
                }
                nx_string_array_free(sa);
                FILE *f = tmpfile(); nx_strwrite("hello", f); rewind(f);
                char *s = nx_strread0(f); nx_free(s);
                s = nx_strread0(f); CHECK(s == NULL, "string read past the end"); fclose(f);
                std::string whole = capture([&](FILE *o) { nx_strwrite("hello world", o); }), cut = whole.substr(0, (size_t)h.u(0, (int64_t)whole.size() - 1)); f = open_mem(cut); s = nx_strread0(f); fclose(f); CHECK(s == NULL, "string cut to %zu of %zu bytes was read", cut.size(), whole.size());
                sa = nx_string_array_alloc(); for (int k = 0; k < 3; ++k) nx_string_array_append(sa, "some text"); whole = capture([&](FILE *o) { nx_string_array_write(sa, o); }); nx_string_array_free(sa); cut = whole.substr(0, (size_t)h.u(0, (int64_t)whole.size())); f = open_mem(cut); sa = nx_string_array_read0(f); fclose(f); CHECK(!sa == (cut.size() < whole.size()), "array cut to %zu of %zu bytes", cut.size(), whole.size()); nx_string_array_free(sa);
        };
        run(); size_t a = heap_bytes(); run(); size_t b = heap_bytes();
        CHECK(a == b, "%lld bytes left allocated", (long long)b - (long long)a);
}
FACET(refused, 0.7, "strings and string arrays written to a stream that takes any number of bytes below the whole and then fails, for good or once: every writer reports the failure, and none when everything fits; non-trivial: some bytes fit")
{
        std::string s = gen_s(g); Buf b(s); struct NXStringArray *sa = nx_string_array_alloc(); int n = (int)g.u(0, 5); for (int k = 0; k < n; ++k) nx_string_array_append(sa, gen_s(g).c_str()); int kind = (int)g.u(0, 4); bool bad = false;
        auto w = [&](FILE *f) { switch (kind) { case 0: bad = nx_strwrite(b, f) != 0; break; case 1: bad = nx_string_array_write(sa, f) != 0; break; case 2: bad = fatal([&] { nx_string_array_xwrite(sa, f); }); break; case 3: bad = nx_fputs_readable(b, f) == EOF; break; default: bad = nx_fputs_double_quoted(b, f) == EOF; break; } };
        size_t all = full_size(w); CHECK(!bad, "writer %d reports a failure on a stream that takes everything", kind); size_t room = (size_t)g.u(0, (int64_t)all - 1); if (g.b(0.3)) room = all - 1; g.note("writer %d, %zu of %zu bytes fit", kind, room, all); { Limited l(room, g.b()); w(l.f); CHECK(bad, "writer %d reports success though only %zu of %zu bytes fit", kind, room, all); } { Limited l(all); w(l.f); CHECK(!bad && l.taken == all, "writer %d fails with exactly enough room", kind); } nx_string_array_free(sa); g.nontrivial(room > 0);
}
