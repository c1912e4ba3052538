// C06: command line options, C and C++ interfaces, against a reference scan.
#include "core.hpp"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/vg_options.hpp"
#include "virg/nexus/nx_alloc.h"
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
using virg::nexus::VGOptions;

struct Opt { int type; std::string s, l; bool req; bool b = false; int i = 0; double d = 0; std::string str; std::string help; bool nul = false;     // declaration + default
        bool set = false; bool vb = false; int vi = 0; double vd = 0; std::string vs; bool vnul = false; };                                            // expected value
struct Cfg { std::vector<Opt> o; bool has_rest = false, rest_req = false; };

static std::string gen_sval(Gen &g) { switch (g.draw(2)) { case 0: return g.str(6, "abc"); case 1: return g.str(10, "ab -|\"'=\n\xff%s"); default: return g.b(0.1) ? std::string((size_t)g.u(0, 3000), 'v') : ""; } }
static Cfg gen_cfg(Gen &g)
{
        Cfg c; int n = (int)(g.b(0.1) ? g.u(0, 60) : g.u(0, 9)); std::set<std::string> used;
        for (int k = 0; k < n; ++k) {
                Opt o; o.type = (int)g.u(0, 3); o.req = g.b(0.12);
                int form = (int)g.u(0, 2);
                if (form != 1) { o.s = "-" + std::string(1, "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?%"[g.u(0, 62)]); if (used.count(o.s)) o.s.clear(); else used.insert(o.s); }
                if (form != 0 || o.s.empty()) { do { o.l = "--" + g.str(1, "abcdefgh") + g.str(g.b(0.1) ? 40 : 5, "abcxyz-_19"); if (o.l.size() <= 2) o.l += strf("n%d", k); if (used.count(o.l)) o.l += strf("x%d", k); } while (used.count(o.l)); used.insert(o.l); }
                o.b = g.b(); o.i = g.any_int(); o.d = g.b() ? (double)g.u(-100, 100) / 8 : g.real(-1e6, 1e6); o.str = gen_sval(g); o.help = "help" + std::to_string(k);
                o.vb = o.b; o.vi = o.i; o.vd = o.d; o.vs = o.str;
                c.o.push_back(o);
        }
        c.has_rest = g.b(0.7); c.rest_req = g.b(0.2);
        return c;
}
static std::string sw(Gen &g, const Opt &o) { if (o.s.empty()) return o.l; if (o.l.empty()) return o.s; return g.b() ? o.s : o.l; }
static std::string decl(Gen &g, const Opt &o) { if (o.s.empty()) return o.l; if (o.l.empty()) return o.s; return g.b(0.8) ? o.s + "|" + o.l : o.l + "|" + o.s; }

static std::vector<std::string> gen_args(Gen &g, const Cfg &c)
{
        std::vector<std::string> a; a.push_back("prog" + g.str(3, "abc"));
        int n = (int)(g.b(0.1) ? g.u(0, 60) : g.u(0, 10));
        bool give_required = g.b(0.85);
        std::vector<int> todo;
        if (give_required) for (size_t k = 0; k < c.o.size(); ++k) if (c.o[k].req) todo.push_back((int)k);
        for (int k = 0; k < n || !todo.empty(); ++k) {
                int kind = !todo.empty() && g.b() ? 9 : (int)g.draw(8);
                if (kind <= 5 || kind == 9) {
                        if (c.o.empty()) { if (k >= n) break; a.push_back(g.str(4, "ab")); continue; }
                        int id = kind == 9 ? todo.back() : (int)g.u(0, (int64_t)c.o.size() - 1);
                        if (kind == 9) todo.pop_back();
                        const Opt &o = c.o[id];
                        a.push_back(sw(g, o));
                        if (o.type != 0 && !g.b(0.02)) {
                                if (o.type == 1) a.push_back(g.b(0.9) ? std::to_string(g.any_int()) : g.b() ? strf("+%d", (int)g.u(0, 99)) : strf("00%d", (int)g.u(0, 99)));
                                else if (o.type == 2) { char t[64]; snprintf(t, sizeof t, g.b() ? "%.17g" : "%e", g.real(-1e4, 1e4)); a.push_back(t); }
                                else a.push_back(g.b(0.1) && !c.o.empty() ? sw(g, c.o[(size_t)g.u(0, (int64_t)c.o.size() - 1)]) : gen_sval(g));
                        }
                } else if (kind == 6) a.push_back(g.str(5, "abc -"));
                else if (kind == 7) a.push_back(g.pick(std::vector<std::string>{ "", "-", "--", "---", "-Zz", "--nosuch", "-1", "file.txt", "--help-me", "a=b", "--a=b" }));
                else a.push_back(gen_sval(g));
        }
        return a;
}
// reference scan; false when the argument list must be rejected
static bool ref_scan(Cfg &c, const std::vector<std::string> &a, std::vector<std::string> &rest)
{
        for (Opt &o : c.o) { o.set = false; o.vb = o.b; o.vi = o.i; o.vd = o.d; o.vs = o.str; o.vnul = o.nul; }
        for (size_t k = 1; k < a.size(); ++k) {
                Opt *f = NULL; for (Opt &o : c.o) if ((!o.s.empty() && o.s == a[k]) || (!o.l.empty() && o.l == a[k])) f = &o;
                if (!f) { rest.push_back(a[k]); continue; }
                f->set = true;
                if (f->type == 0) { f->vb = true; continue; }
                if (++k >= a.size()) return false;
                if (f->type == 1) f->vi = (int)strtol(a[k].c_str(), NULL, 10); else if (f->type == 2) f->vd = strtod(a[k].c_str(), NULL); else { f->vs = a[k]; f->vnul = false; }
        }
        for (const Opt &o : c.o) if (o.req && !o.set) return false;
        if (c.has_rest && c.rest_req && rest.empty()) return false;
        return true;
}
static bool sane_ints(const Cfg &c, const std::vector<std::string> &a)
{       // integer options are only judged on values that are integers in range
        for (size_t k = 1; k + 1 < a.size(); ++k) for (const Opt &o : c.o) if (o.type == 1 && (o.s == a[k] || o.l == a[k])) {
                char *e; long v = strtol(a[k+1].c_str(), &e, 10); if (a[k+1].empty() || *e || v > INT_MAX || v < INT_MIN) return false; }
        for (size_t k = 1; k + 1 < a.size(); ++k) for (const Opt &o : c.o) if (o.type == 2 && (o.s == a[k] || o.l == a[k])) { char *e; strtod(a[k+1].c_str(), &e); if (a[k+1].empty() || *e) return false; }
        return true;
}
struct Argv { std::vector<char *> p; Argv(const std::vector<std::string> &a) { for (auto &s : a) { char *q = (char *)malloc(s.size() + 1); memcpy(q, s.c_str(), s.size() + 1); p.push_back(q); } p.push_back(NULL); } ~Argv() { for (char *q : p) free(q); } int n() const { return (int)p.size() - 1; } };
static void add_c(struct NXOptions *op, const Opt &o, const std::string &d)
{
        char f[2] = { (o.req ? "BIDS" : "bids")[o.type], 0 };
        switch (o.type) { case 0: nx_options_add(op, f, d.c_str(), o.help.c_str(), o.b ? NX_TRUE : NX_FALSE); break; case 1: nx_options_add(op, f, d.c_str(), o.help.c_str(), o.i); break; case 2: nx_options_add(op, f, d.c_str(), o.help.c_str(), o.d); break; default: { Argv q({ o.str }); nx_options_add(op, f, d.c_str(), o.help.c_str(), o.nul ? (char *)NULL : q.p[0]); } }
}
static void check_c(const struct NXOptions *op, const Cfg &c, const std::vector<std::string> &rest)
{
        for (const Opt &o : c.o) for (int w = 0; w < 2; ++w) {
                const std::string &n = w ? o.l : o.s; if (n.empty()) continue;
                CHECK((nx_options_is_set(op, n.c_str()) != NX_FALSE) == o.set, "option %s is reported as %s", n.c_str(), o.set ? "not set" : "set");
                switch (o.type) {
                case 0: CHECK((nx_options_get_bool(op, n.c_str()) != NX_FALSE) == o.vb, "boolean option %s is %d, expected %d", n.c_str(), nx_options_get_bool(op, n.c_str()), o.vb); break;
                case 1: CHECK(nx_options_get_int(op, n.c_str()) == o.vi, "integer option %s is %d, expected %d", n.c_str(), nx_options_get_int(op, n.c_str()), o.vi); break;
                case 2: CHECK(nx_options_get_double(op, n.c_str()) == o.vd, "option %s is %.17g, expected %.17g", n.c_str(), nx_options_get_double(op, n.c_str()), o.vd); break;
                default: if (o.vnul) { CHECK(!nx_options_get_string(op, n.c_str()), "string option %s without a default is %s", n.c_str(), show(nx_options_get_string(op, n.c_str())).c_str()); break; } CHECK(nx_options_get_string(op, n.c_str()), "string option %s has no value", n.c_str()); CHECK(o.vs == nx_options_get_string(op, n.c_str()), "string option %s is %s, expected %s", n.c_str(), show(nx_options_get_string(op, n.c_str())).c_str(), show(o.vs).c_str());
                }
        }
        char **r = nx_options_get_rest(op);
        if (!c.has_rest) { CHECK(r == NULL, "rest arguments without a rest option"); return; }
        size_t k = 0; if (r) for (; r[k]; ++k) CHECK(k < rest.size() && rest[k] == r[k], "rest argument %zu is %s, expected %s", k, show(r[k]).c_str(), k < rest.size() ? show(rest[k]).c_str() : "none");
        CHECK(k == rest.size(), "%zu rest arguments, expected %zu", k, rest.size());
}
static std::string joined(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += show(x) + " "; return s.substr(0, 300); }

FACET(parse, 5, "0-9 (sometimes 60) declared options of all types and name forms, 1-3 argument lists scanned in turn with repetitions, unknown words, values that look like options and missing pieces; non-trivial: at least two options were given")
{
        Cfg c = gen_cfg(g); for (Opt &o : c.o) if (o.type == 3) o.vnul = o.nul = g.b(0.15);
        struct NXOptions *op = nx_options_alloc();
        for (const Opt &o : c.o) add_c(op, o, decl(g, o));
        if (c.has_rest) nx_options_add(op, c.rest_req ? "R" : "r", "files");
        int rounds = (int)g.u(1, 3);
        for (int q = 0; q < rounds; ++q) {
                std::vector<std::string> a = gen_args(g, c), rest;
                if (!sane_ints(c, a)) { nx_options_free(op); g.discard(); }
                g.note("%zu options, args: %s", c.o.size(), joined(a).c_str());
                Cfg e = c; bool ok = ref_scan(e, a, rest);
                int ns = 0; for (auto &o : e.o) ns += o.set; g.nontrivial(ns >= 2);
                Argv av(a); std::string msg;
                bool f = fatal([&] { nx_options_set_from_args(op, av.n(), av.p.data()); }, &msg);
                for (size_t k = 0; k < a.size(); ++k) CHECK(a[k] == av.p[k], "argument %zu was altered", k);
                CHECK(f == !ok, "argument list was %s: %s (%s)", f ? "rejected" : "accepted", joined(a).c_str(), msg.c_str());
                if (f) { nx_options_free(op); return; }
                check_c(op, e, rest);
        }
        nx_options_free(op);
}
FACET(cxx, 2, "the same declarations and arguments through the C++ interface (object copied in between); non-trivial: at least two options were given")
{
        Cfg c = gen_cfg(g); VGOptions first;
        for (const Opt &o : c.o) {
                auto r = o.req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED; std::string d = decl(g, o);
                switch (o.type) { case 0: first.add_bool(d, o.help, r, o.b); break; case 1: first.add_int(d, o.help, r, o.i); break; case 2: first.add_double(d, o.help, r, o.d); break; default: first.add_string(d, o.help, r, o.str); }
        }
        if (c.has_rest) first.add_rest("files", c.rest_req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED);
        VGOptions op(first);
        std::vector<std::string> a = gen_args(g, c), rest; if (!sane_ints(c, a)) g.discard();
        g.note("%zu options, args: %s", c.o.size(), joined(a).c_str());
        bool ok = ref_scan(c, a, rest); int ns = 0; for (auto &o : c.o) ns += o.set; g.nontrivial(ns >= 2);
        Argv av(a); bool f = fatal([&] { op.set_from_args(av.n(), av.p.data()); });
        CHECK(f == !ok, "argument list was %s: %s", f ? "rejected" : "accepted", joined(a).c_str());
        if (f) return;
        for (const Opt &o : c.o) for (int w = 0; w < 2; ++w) {
                const std::string &n = w ? o.l : o.s; if (n.empty()) continue;
                CHECK(op.is_set(n) == o.set, "option %s is reported as %s", n.c_str(), o.set ? "not set" : "set");
                switch (o.type) { case 0: CHECK(op.get_bool(n) == o.vb, "boolean option %s differs", n.c_str()); break; case 1: CHECK(op.get_int(n) == o.vi, "integer option %s differs", n.c_str()); break; case 2: CHECK(op.get_double(n) == o.vd, "double option %s differs", n.c_str()); break; default: CHECK(op.get_string(n) == o.vs, "string option %s differs", n.c_str()); }
        }
        CHECK(op.get_rest() == (c.has_rest ? rest : std::vector<std::string>()), "rest arguments differ");
}
FACET(multi, 1, "several options declared in one call with a format string; non-trivial: an option was given")
{
        Cfg c; int v = (int)g.u(0, 2); struct NXOptions *op;
        auto mk = [&](int t, const char *s, const char *l, bool req) { Opt o; o.type = t; o.s = s; o.l = l; o.req = req; o.b = g.b(); o.i = g.any_int(); o.d = (double)g.u(-50, 50) / 4; o.str = g.str(5, "xyz"); o.help = "h"; o.vb = o.b; o.vi = o.i; o.vd = o.d; o.vs = o.str; c.o.push_back(o); };
        c.has_rest = true; c.rest_req = v == 2;
        if (v == 0) { mk(0, "-b", "--bool", false); mk(1, "-i", "--int", false); mk(2, "-d", "--double", false); mk(3, "-s", "--string", false);
                op = nx_options_new("bidsr", "-b|--bool", "h", c.o[0].b ? NX_TRUE : NX_FALSE, "-i|--int", "h", c.o[1].i, "-d|--double", "h", c.o[2].d, "-s|--string", "h", c.o[3].str.c_str(), "files"); }
        else if (v == 1) { mk(3, "", "--name", true); mk(2, "-x", "", false); mk(2, "-y", "", true); mk(1, "-n", "--num", false);
                op = nx_options_alloc(); nx_options_add(op, "SdDir", "--name", "h", c.o[0].str.c_str(), "-x", "h", c.o[1].d, "-y", "h", c.o[2].d, "--num|-n", "h", c.o[3].i, "files"); }
        else { mk(1, "-a", "", false); mk(1, "-c", "", true); mk(0, "-v", "--verbose", false); mk(3, "-o", "--out", false);
                op = nx_options_new("R", "files"); nx_options_add(op, "iIbs", "-a", "h", c.o[0].i, "-c", "h", c.o[1].i, "-v|--verbose", "h", c.o[2].b ? NX_TRUE : NX_FALSE, "-o|--out", "h", c.o[3].str.c_str()); }
        { std::vector<std::string> none; check_c(op, c, none); }
        std::vector<std::string> a = gen_args(g, c), rest; if (!sane_ints(c, a)) { nx_options_free(op); g.discard(); }
        g.note("form %d: %s", v, joined(a).c_str());
        bool ok = ref_scan(c, a, rest); for (auto &o : c.o) if (o.set) g.nontrivial();
        Argv av(a); bool f = fatal([&] { nx_options_set_from_args(op, av.n(), av.p.data()); });
        CHECK(f == !ok, "argument list was %s: %s", f ? "rejected" : "accepted", joined(a).c_str());
        if (!f) check_c(op, c, rest);
        nx_options_free(op);
}
FACET(print, 1, "printed values and usage text of generated declarations list every option in order with its names, help, default or required mark and current value; non-trivial: at least two options")
{
        Cfg c = gen_cfg(g); for (Opt &o : c.o) { o.str = g.str(6, "abc"); o.vs = o.str; }
        struct NXOptions *op = nx_options_alloc(); for (const Opt &o : c.o) add_c(op, o, decl(g, o));
        if (c.has_rest) nx_options_add(op, c.rest_req ? "R" : "r", "files");
        g.nontrivial(c.o.size() >= 2); g.note("%zu options", c.o.size());
        std::string head = g.str(6, "hd "), foot = g.str(6, "ft "); bool hf = g.b();
        if (hf) { nx_options_set_usage_header(op, "old"); nx_options_set_usage_header(op, head.c_str()); nx_options_set_usage_footer(op, foot.c_str()); }
        std::string u = capture([&](FILE *f) { nx_options_print_usage(op, f); });
        if (hf) CHECK(u.compare(0, head.size(), head) == 0 && u.size() >= foot.size() && u.compare(u.size() - foot.size(), foot.size(), foot) == 0, "usage lacks header or footer");
        CHECK(u.find(hf ? head + "USAGE: prog [options]" : "USAGE: prog [options]") == 0, "usage line is missing: %s", show(u.substr(0, 80)).c_str());
        if (c.has_rest) CHECK(u.find(c.rest_req ? " <files>\n" : " [<files>]\n") != std::string::npos, "usage does not show the rest arguments");
        auto names = [](const Opt &o) { return !o.l.empty() && !o.s.empty() ? o.l + ", " + o.s : o.l.empty() ? o.s : o.l; };
        auto val = [](const Opt &o, bool def) -> std::string { switch (o.type) { case 0: return (def ? o.b : o.vb) ? "true" : "false"; case 1: return std::to_string(def ? o.i : o.vi); case 2: { char t[400]; snprintf(t, sizeof t, "%f", def ? o.d : o.vd); return t; } default: return "'" + (def ? o.str : o.vs) + "'"; } };
        size_t p = 0;
        for (const Opt &o : c.o) { std::string line = names(o) + " : " + o.help + (o.req ? std::string(" (REQUIRED)") : " [" + val(o, true) + "]") + "\n"; size_t q = u.find(line, p); CHECK(q != std::string::npos, "usage lacks '%s'", show(line).c_str()); p = q + line.size(); }
        std::vector<std::string> a = gen_args(g, c), rest; if (!sane_ints(c, a) || !ref_scan(c, a, rest)) { nx_options_free(op); return; }
        for (Opt &o : c.o) if (o.vs.size() > 900) { nx_options_free(op); return; }
        Argv av(a); nx_options_set_from_args(op, av.n(), av.p.data());
        std::string v = capture([&](FILE *f) { nx_options_print_values(op, f); });
        p = 0;
        for (const Opt &o : c.o) { std::string line = names(o) + ": " + val(o, false) + "\n"; size_t q = v.find(line, p); CHECK(q != std::string::npos, "printed values lack '%s': %s", show(line).c_str(), show(v.substr(0, 300)).c_str()); p = q + line.size(); }
        if (c.has_rest) { std::string line = "files: ["; for (size_t k = 0; k < rest.size(); ++k) line += (k ? ", '" : "'") + rest[k] + "'"; line += "]\n"; CHECK(v.find(line, p) != std::string::npos, "printed values lack the rest '%s'", show(line).c_str()); }
        std::string u2 = capture([&](FILE *f) { nx_options_print_usage(op, f); }); CHECK(u2.find("USAGE: " + a[0] + " [options]") != std::string::npos, "usage does not name the program");
        nx_options_free(op);
}
FACET(declare, 0.7, "illegal names, duplicate names and reads of undeclared or wrongly typed options are refused; non-trivial: always")
{
        g.nontrivial(); struct NXOptions *op = nx_options_alloc();
        nx_options_add(op, "i", "-n|--num", "h", 3); nx_options_add(op, "s", "--str", "h", "x"); nx_options_add(op, "b", "-b", "h", NX_TRUE); nx_options_add(op, "d", "-d", "h", 1.5);
        static const std::vector<std::string> bad = { "", "x", "-", "ab", "-ab", "-n", "--num", "--str", "-x|--num", "-b|--new", "-n|--new", "abc|-c", "-c|", "|-c", "-c|ab", "-cd|--cd", "num" };
        std::string nm = g.pick(bad); g.note("%s", nm.c_str());
        int t = (int)g.u(0, 3);
        bool f = fatal([&] { switch (t) { case 0: nx_options_add(op, "b", nm.c_str(), "h", NX_FALSE); break; case 1: nx_options_add(op, "i", nm.c_str(), "h", 1); break; case 2: nx_options_add(op, "d", nm.c_str(), "h", 1.0); break; default: nx_options_add(op, "s", nm.c_str(), "h", "s"); } });
        CHECK(f, "declaration '%s' was accepted", nm.c_str());
        CHECK(fatal([&] { nx_options_get_int(op, "--str"); }) && fatal([&] { nx_options_get_string(op, "-n"); }) && fatal([&] { nx_options_get_bool(op, "-d"); }) && fatal([&] { nx_options_get_double(op, "-b"); }), "option read as another type");
        CHECK(fatal([&] { nx_options_get_int(op, "--nope"); }) && fatal([&] { nx_options_is_set(op, "-q"); }) && fatal([&] { nx_options_get_bool(op, "b"); }) && fatal([&] { nx_options_get_string(op, "--st"); }) && fatal([&] { nx_options_get_double(op, "--dd"); }), "undeclared option read");
        CHECK(nx_options_get_int(op, "-n") == 3 && nx_options_get_int(op, "--num") == 3 && std::string(nx_options_get_string(op, "--str")) == "x" && nx_options_get_bool(op, "-b") && nx_options_get_double(op, "-d") == 1.5, "other options were disturbed");
        nx_options_free(op);
}
FACET(help, 0.02, "with the help switch anywhere in the arguments the program prints the usage and stops; non-trivial: always")
{
        g.nontrivial(); bool sh = g.b(); int before = (int)g.u(0, 3);
        std::vector<std::string> a = { "prog" }; for (int k = 0; k < before; ++k) a.push_back("x"); a.push_back(sh ? "-h" : "--help"); g.note("%s after %d", a.back().c_str(), before);
        std::string fn = scratch_file("help.txt");
        pid_t pid = fork();
        if (pid == 0) {
                int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
                struct NXOptions *op = nx_options_new("ir", "-n|--num", "number of things", 3, "files"); nx_options_add_help(op);
                Argv av(a); nx_options_set_from_args(op, av.n(), av.p.data());
                _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "help switch did not stop the program (status %d)", st);
        std::string out = slurp(fn); CHECK(out.find("USAGE: prog") != std::string::npos && out.find("number of things") != std::string::npos, "help text is %s", show(out).c_str());
}
FACET(memory, 0.3, "declaring, scanning, printing and freeing options returns all memory; non-trivial: always")
{
        uint64_t seed = g.bits64(); g.nontrivial(); g.note("seed %llu", (unsigned long long)seed);
        auto run = [&] { Gen h(seed); Cfg c = gen_cfg(h); struct NXOptions *op = nx_options_alloc(); for (const Opt &o : c.o) add_c(op, o, decl(h, o)); nx_options_add(op, "r", "a"); nx_options_add(op, "r", "files"); c.has_rest = true; c.rest_req = false;
                for (int q = 0; q < 2; ++q) { auto a = gen_args(h, c); std::vector<std::string> r; Cfg e = c; if (!ref_scan(e, a, r)) continue; Argv av(a); nx_options_set_from_args(op, av.n(), av.p.data()); capture([&](FILE *f) { nx_options_print_values(op, f); nx_options_print_usage(op, f); }); }
                nx_options_free(op); };
        run(); size_t a = heap_bytes(); run(); size_t b = heap_bytes();
        CHECK(a == b, "%lld bytes left allocated", (long long)b - (long long)a);
}
FACET(cxxprint, 0.7, "the same declarations, header, footer and arguments in both interfaces: usage and values are printed the same before and after reading the arguments; non-trivial: at least two options")
{
        Cfg c = gen_cfg(g); struct NXOptions *op = nx_options_alloc(); VGOptions q; struct F { NXOptions *o; ~F() { nx_options_free(o); } } guard{op};
        for (const Opt &o : c.o) { std::string d = decl(g, o); add_c(op, o, d); auto r = o.req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED; switch (o.type) { case 0: q.add_bool(d, o.help, r, o.b); break; case 1: q.add_int(d, o.help, r, o.i); break; case 2: q.add_double(d, o.help, r, o.d); break; default: q.add_string(d, o.help, r, o.str); } }
        if (c.has_rest) { nx_options_add(op, c.rest_req ? "R" : "r", "files"); q.add_rest("files", c.rest_req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED); }
        if (g.b(0.3)) { nx_options_add_help(op); q.add_help(); }
        g.nontrivial(c.o.size() >= 2); g.note("%zu options", c.o.size()); int n = (int)g.u(0, 2);
        for (int k = 0; k < n; ++k) { std::string h = g.text(20), f = g.text(20); for (auto *t : {&h, &f}) { size_t z = t->find('\0'); if (z != std::string::npos) t->resize(z); } if (g.b()) { nx_options_set_usage_header(op, h.c_str()); q.set_usage_header(h); } if (g.b()) { nx_options_set_usage_footer(op, f.c_str()); q.set_usage_footer(f); } }
        auto same = [&](const char *when) {
                std::string a = capture([&](FILE *f) { nx_options_print_usage(op, f); }), b = capture([&](FILE *f) { q.print_usage(f); }); CHECK(a == b, "usage %s is %s in C and %s in C++", when, show(a).c_str(), show(b).c_str());
                a = capture([&](FILE *f) { nx_options_print_values(op, f); }), b = capture([&](FILE *f) { q.print_values(f); }); CHECK(a == b, "values %s are %s in C and %s in C++", when, show(a).c_str(), show(b).c_str());
        };
        same("before"); std::vector<std::string> a = gen_args(g, c), rest; if (!sane_ints(c, a)) return; for (auto &s : a) if (s == "-h" || s == "--help") return; if (!ref_scan(c, a, rest)) return;
        { Argv av(a), bv(a); nx_options_set_from_args(op, av.n(), av.p.data()); q.set_from_args(bv.n(), bv.p.data()); same("after"); }
}
FACET(cxxhelp, 0.02, "with the help switch anywhere in the arguments a C++ program prints the usage and stops; non-trivial: always")
{
        g.nontrivial(); bool sh = g.b(); int before = (int)g.u(0, 3);
        std::vector<std::string> a = { "prog" }; for (int k = 0; k < before; ++k) a.push_back("x"); a.push_back(sh ? "-h" : "--help"); g.note("%s after %d", a.back().c_str(), before);
        std::string fn = scratch_file("help.txt"); fflush(nullptr); pid_t pid = fork();
        if (pid == 0) { int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); VGOptions op; op.add_int("-n|--num", "number of things", VGOptions::NOT_REQUIRED, 3); op.add_rest("files", VGOptions::NOT_REQUIRED); op.add_help(); Argv av(a); op.set_from_args(av.n(), av.p.data()); _exit(0); }
        int st = 0; waitpid(pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "help switch did not stop the program (status %d)", st);
        std::string out = slurp(fn); CHECK(out.find("USAGE: prog") != std::string::npos && out.find("number of things") != std::string::npos, "help text is %s", show(out).c_str());
}
