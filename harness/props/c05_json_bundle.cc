// C05: bundle / unbundle and JSON log streams.
#include "jmodel.hpp"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_alloc.h"
#include <unistd.h>
using namespace jm;

static bool eqd(double a, double b) { return a == b || std::fabs(a - b) <= 5.0001e-7 * std::fabs(a) + 5e-324; }
static bool eqf(float a, float b) { return a == b || std::fabs((double)a - b) <= 6.2e-7 * std::fabs((double)a) + 2e-45; }
static double fin(Gen &g) { double d = g.any_double(); return std::isfinite(d) ? d : 1.5; }
static float finf(Gen &g) { float d = (float)(g.b() ? g.any_double() : g.real(-1000, 1000)); return std::isfinite(d) ? d : -2.5f; }

// puts the node under a name, optionally prints and reparses, returns the node found again (root owned by caller)
static struct NXJSONNode *via(Gen &g, struct NXJSONNode *v, struct NXJSONNode **root, const char *name, int type)
{
        struct NXJSONNode *o = nx_json_node_new_object();
        int before = (int)g.u(0, 2), after = (int)g.u(0, 2);
        for (int k = 0; k < before; ++k) nx_json_object_add(o, strf("before%d", k).c_str(), nx_json_bundle_int(k));
        nx_json_object_add(o, name, v);
        for (int k = 0; k < after; ++k) nx_json_object_add(o, strf("after%d", k).c_str(), nx_json_bundle_string("z"));
        int mode = (int)g.u(0, 3);
        if (mode > 0) {
                std::string s = capture([&](FILE *f) { nx_json_tree_fprint(f, o, mode - 1); });
                J r; CHECK(ref_parse(s, r), "bundled value prints as invalid JSON: %s", show(s).c_str());
                nx_json_tree_free(o);
                o = parse_via(1, s);
        }
        *root = o;
        struct NXJSONNode *n = nx_json_object_fget(o, name, type);
        return n;
}
static struct NXKeypoint gen_key(Gen &g)
{
        struct NXKeypoint k; memset(&k, 0, sizeof k);
        k.x = g.any_int(); k.y = g.any_int(); k.xs = finf(g); k.ys = finf(g); k.level = (int)g.u(-1, 40); k.scale = finf(g); k.sigma = finf(g); k.score = finf(g); k.ori = (float)g.real(-7, 7);
        k.id = g.b() ? (uint64_t)g.u(0, 1000) : g.bits64();
        return k;
}
static void cmp_key(const struct NXKeypoint &a, const struct NXKeypoint &b)
{
        CHECK(a.x == b.x && a.y == b.y, "keypoint %d,%d unbundled as %d,%d", a.x, a.y, b.x, b.y);
        CHECK(a.level == b.level, "level %d unbundled as %d", a.level, b.level);
        CHECK(a.id == b.id, "id %llu unbundled as %llu", (unsigned long long)a.id, (unsigned long long)b.id);
        CHECK(eqf(a.xs, b.xs) && eqf(a.ys, b.ys), "subpixel position %g,%g unbundled as %g,%g", a.xs, a.ys, b.xs, b.ys);
        CHECK(eqf(a.scale, b.scale), "scale %g unbundled as %g", a.scale, b.scale);
        CHECK(eqf(a.sigma, b.sigma), "sigma %g unbundled as %g", a.sigma, b.sigma);
        CHECK(eqf(a.score, b.score), "score %g unbundled as %g", a.score, b.score);
        CHECK(eqf(a.ori, b.ori), "orientation %g unbundled as %g", a.ori, b.ori);
}
FACET(scalar, 3, "a value of each scalar type (full range integers, finite floating point over all magnitudes, any string) bundled under a generated name among other members, directly or through text; non-trivial: not zero or empty")
{
        std::string name = "v" + gen_name(g); struct NXJSONNode *root = NULL, *n;
        g.nontrivial();
        switch (g.draw(7)) {
        case 0: { bool v = g.b(); n = via(g, nx_json_bundle_bool(v ? NX_TRUE : NX_FALSE), &root, name.c_str(), NX_JNT_BOOL); g.note("bool %d", v); CHECK((nx_json_unbundle_bool(n) != NX_FALSE) == v, "boolean %d unbundled as %d", v, nx_json_unbundle_bool(n)); break; }
        case 1: { char v = (char)g.u(-128, 127); n = via(g, nx_json_bundle_char(v), &root, name.c_str(), NX_JNT_STRING); g.note("char %d", v); CHECK(nx_json_unbundle_char(n) == v, "char %d unbundled as %d", v, nx_json_unbundle_char(n)); break; }
        case 2: { uchar v = (uchar)g.u(0, 255); n = via(g, nx_json_bundle_uchar(v), &root, name.c_str(), NX_JNT_INTEGER); g.note("uchar %d", v); CHECK(nx_json_unbundle_uchar(n) == v, "uchar %d unbundled as %d", v, nx_json_unbundle_uchar(n)); break; }
        case 3: { int v = g.any_int(); n = via(g, nx_json_bundle_int(v), &root, name.c_str(), NX_JNT_INTEGER); g.note("int %d", v); CHECK(nx_json_unbundle_int(n) == v, "int %d unbundled as %d", v, nx_json_unbundle_int(n));
                CHECK(nx_json_unbundle_double(n) == (double)v, "int %d unbundled as double %g", v, nx_json_unbundle_double(n)); uchar c = nx_json_unbundle_uchar(n); CHECK(c == (v < 0 ? 0 : v > 255 ? 255 : v), "int %d unbundled as uchar %d", v, c); break; }
        case 4: { size_t v = (size_t)(g.b() ? g.bits64() : (uint64_t)g.u(0, 100000)); n = via(g, nx_json_bundle_size_t(v), &root, name.c_str(), NX_JNT_INTEGER); g.note("size %zu", v); CHECK(nx_json_unbundle_size_t(n) == v, "size %zu unbundled as %zu", v, nx_json_unbundle_size_t(n)); break; }
        case 5: { float v = finf(g); n = via(g, nx_json_bundle_float(v), &root, name.c_str(), NX_JNT_NUMBER); g.note("float %g", v); float w = nx_json_unbundle_float(n); CHECK(eqf(v, w), "float %.9g unbundled as %.9g", v, w); break; }
        case 6: { double v = fin(g); n = via(g, nx_json_bundle_double(v), &root, name.c_str(), NX_JNT_NUMBER); g.note("double %g", v); double w = nx_json_unbundle_double(n); CHECK(eqd(v, w), "double %.17g unbundled as %.17g", v, w); break; }
        default: { std::string v = gen_name(g); n = via(g, nx_json_bundle_string(v.c_str()), &root, name.c_str(), NX_JNT_STRING); g.note("string %s", show(v).c_str()); char *w = nx_json_unbundle_string(n); CHECK(v == w, "string %s unbundled as %s", show(v).c_str(), show(w).c_str()); nx_free(w); }
        }
        nx_json_tree_free(root);
}
FACET(array, 2, "arrays of 0-40 integers, floats, doubles, strings or keypoints, directly or through text; non-trivial: at least 2 elements")
{
        int n = (int)(g.b(0.1) ? g.u(0, 300) : g.u(0, 40)), m = -1; struct NXJSONNode *root = NULL, *a;
        g.nontrivial(n >= 2);
        switch (g.draw(5)) {
        case 0: { std::vector<int> v; for (int k = 0; k < n; ++k) v.push_back(g.any_int()); g.note("%d ints", n); a = via(g, nx_json_bundle_int_array(n, v.data()), &root, "a", NX_JNT_ARRAY); int *w = nx_json_unbundle_int_array(a, &m); CHECK(m == n, "%d elements, expected %d", m, n); for (int k = 0; k < n; ++k) CHECK(v[k] == w[k], "element %d: %d unbundled as %d", k, v[k], w[k]); nx_free(w);
                // whole numbers are numbers too
                { int mf = -1, md = -1; float *wf = nx_json_unbundle_float_array(a, &mf); double *wd = nx_json_unbundle_double_array(a, &md); CHECK(mf == n && md == n, "%d and %d elements, expected %d", mf, md, n); for (int k = 0; k < n; ++k) CHECK(wf[k] == (float)v[k] && wd[k] == (double)v[k], "element %d: %d unbundled as float %.9g and double %.17g", k, v[k], wf[k], wd[k]); nx_free(wf); nx_free(wd); } break; }
        case 1: { std::vector<float> v; for (int k = 0; k < n; ++k) v.push_back(finf(g)); g.note("%d floats", n); a = via(g, nx_json_bundle_float_array(n, v.data()), &root, "a", NX_JNT_ARRAY); float *w = nx_json_unbundle_float_array(a, &m); CHECK(m == n, "%d elements, expected %d", m, n); for (int k = 0; k < n; ++k) CHECK(eqf(v[k], w[k]), "element %d: %g unbundled as %g", k, v[k], w[k]); nx_free(w); break; }
        case 2: { std::vector<double> v; for (int k = 0; k < n; ++k) v.push_back(fin(g)); g.note("%d doubles", n); a = via(g, nx_json_bundle_double_array(n, v.data()), &root, "a", NX_JNT_ARRAY); double *w = nx_json_unbundle_double_array(a, &m); CHECK(m == n, "%d elements, expected %d", m, n); for (int k = 0; k < n; ++k) CHECK(eqd(v[k], w[k]), "element %d: %g unbundled as %g", k, v[k], w[k]); nx_free(w); break; }
        case 3: case 4: {
                std::vector<std::string> v; std::vector<char *> p; for (int k = 0; k < n; ++k) v.push_back(gen_name(g)); for (auto &s : v) p.push_back(const_cast<char *>(s.c_str()));
                g.note("%d strings", n); a = via(g, nx_json_bundle_string_array(n, p.data()), &root, "a", NX_JNT_ARRAY);
                if (g.b()) { char **w = nx_json_unbundle_string_array(a, &m); CHECK(m == n, "%d elements, expected %d", m, n); for (int k = 0; k < n; ++k) { CHECK(v[k] == w[k], "element %d: %s unbundled as %s", k, show(v[k]).c_str(), show(w[k]).c_str()); nx_free(w[k]); } nx_free(w); }
                else { struct NXStringArray *w = nx_json_unbundle_as_string_array(a); CHECK(nx_string_array_size(w) == n, "%d elements, expected %d", nx_string_array_size(w), n); for (int k = 0; k < n; ++k) CHECK(v[k] == nx_string_array_get(w, k), "element %d: %s unbundled as %s", k, show(v[k]).c_str(), show(nx_string_array_get(w, k)).c_str()); nx_string_array_free(w); }
                break; }
        default: { std::vector<struct NXKeypoint> v; for (int k = 0; k < n; ++k) v.push_back(gen_key(g)); g.note("%d keypoints", n); a = via(g, nx_json_bundle_keypoint_array(n, v.data()), &root, "a", NX_JNT_ARRAY); struct NXKeypoint *w = nx_json_unbundle_keypoint_array(a, &m); CHECK(m == n, "%d elements, expected %d", m, n); for (int k = 0; k < n; ++k) cmp_key(v[k], w[k]); nx_free(w); }
        }
        nx_json_tree_free(root);
}
FACET(keypoint, 1, "single keypoints over full field ranges, directly or through text; non-trivial: always")
{
        struct NXKeypoint k = gen_key(g); struct NXJSONNode *root; g.nontrivial(); g.note("x %d y %d id %llu", k.x, k.y, (unsigned long long)k.id);
        struct NXJSONNode *n = via(g, nx_json_bundle_keypoint(&k), &root, "key", NX_JNT_OBJECT);
        cmp_key(k, nx_json_unbundle_keypoint(n));
        nx_json_tree_free(root);
}
FACET(object, 1, "1-25 additions of values of mixed types to an object or array under distinct names; every one is found under its name and type, a missing name, position or wrong type is refused; non-trivial: at least 3 members")
{
        int n = (int)g.u(1, 25); g.nontrivial(n >= 3); g.note("%d members", n);
        struct NXJSONNode *o = nx_json_node_new_object(), *a = nx_json_node_new_array();
        std::map<std::string, int> v; std::vector<int> va;
        for (int k = 0; k < n; ++k) {
                std::string name = gen_name(g); int x = g.any_int();
                struct NXJSONNode *q = nx_json_bundle_int(x); CHECK(nx_json_array_add(a, q) == q, "array add returns another node"); va.push_back(x);
                if (v.count(name)) continue;
                q = nx_json_bundle_int(x); CHECK(nx_json_object_add(o, name.c_str(), q) == q, "object add returns another node"); v[name] = x;
                for (auto &e : v) CHECK(nx_json_unbundle_int(nx_json_object_fget(o, e.first.c_str(), NX_JNT_INTEGER)) == e.second, "member %s has another value", show(e.first).c_str());
                for (int p = 0; p <= k; ++p) CHECK(nx_json_unbundle_int(nx_json_array_fget(a, p, NX_JNT_INTEGER)) == va[p], "element %d has another value", p);
        }
        std::string miss = gen_name(g);
        if (!v.count(miss)) { CHECK(nx_json_object_get(o, miss.c_str(), 255) == NULL, "missing member %s found", show(miss).c_str()); CHECK(fatal([&] { nx_json_object_fget(o, miss.c_str(), 255); }), "missing member %s found", show(miss).c_str()); }
        CHECK(fatal([&] { nx_json_array_fget(a, n + (int)g.u(0, 3), 255); }), "element beyond the end found");
        const std::string &nm = v.begin()->first;
        CHECK(fatal([&] { nx_json_object_fget(o, nm.c_str(), NX_JNT_STRING); }), "integer member found as a string");
        CHECK(nx_json_array_get(o, 0, 255) == NULL && nx_json_object_get(a, nm.c_str(), 255) == NULL, "object accessed as array or array as object");
        nx_json_tree_free(o); nx_json_tree_free(a);
}
FACET(jlog, 1, "1-40 operations (log value, append to series, clear stream, clear all, write to file) over 32 log streams against a model; non-trivial: at least two streams were used")
{
        NX_JLOG_CLEAR_ALL();
        typedef std::map<std::string, std::vector<int>> Str;     // series; single values are series of one under another prefix
        std::map<int, Str> m; std::set<int> used;
        int n = (int)g.u(1, 40);
        for (int k = 0; k < n; ++k) {
                int id = g.b(0.8) ? (int)g.u(0, 3) : (int)g.u(0, 31); std::string key = g.str(2, "abc"); int x = g.any_int();
                switch (g.pick_idx({ 4, 5, 1, 1, 2, 1 })) {
                case 0: { std::string kk = "s" + key; if (m[id].count(kk)) break; switch (g.draw(2)) { case 0: NX_JLOG_I(id, kk.c_str(), x); m[id][kk] = { x }; break; case 1: { int arr[3] = { x, 1, 2 }; NX_JLOG_IA(id, kk.c_str(), 3, arr); m[id][kk] = { x, 1, 2, 0 }; break; } default: NX_JLOG_I(id, kk.c_str(), x); m[id][kk] = { x }; } used.insert(id); break; }
                case 1: { std::string kk = "a" + key; NX_JLOG_ADDI(id, kk.c_str(), x); m[id][kk].push_back(x); used.insert(id); break; }
                case 2: NX_JLOG_CLEAR(id); m.erase(id); break;
                case 3: if (g.b(0.3)) { NX_JLOG_CLEAR_ALL(); m.clear(); } break;
                case 4: {
                        std::string fn = scratch_file("log.json"); NX_JLOG_XWRITE(id, fn.c_str());
                        struct NXJSONNode *t = nx_json_tree_from_file(fn.c_str());
                        CHECK(nx_json_node_n_children(t) == 2 * (int)m[id].size(), "log stream %d has %d members, expected %zu", id, nx_json_node_n_children(t) / 2, m[id].size());
                        nx_json_tree_free(t); break; }
                default: CHECK(fatal([&] { nx_json_log_get_stream(g.b() ? 32 : -1); }), "log stream out of range accepted"); CHECK(fatal([&] { nx_json_log_clear_stream(g.b() ? 32 : -1); }), "clearing a log stream out of range accepted");
                }
                for (auto &st : m) {
                        struct NXJSONNode *o = nx_json_log_get_stream(st.first);
                        CHECK(nx_json_node_n_children(o) == 2 * (int)st.second.size(), "log stream %d has %d members, expected %zu", st.first, nx_json_node_n_children(o) / 2, st.second.size());
                        for (auto &e : st.second) {
                                if (e.first[0] == 's' && e.second.size() == 1) { CHECK(nx_json_unbundle_int(nx_json_object_fget(o, e.first.c_str(), NX_JNT_INTEGER)) == e.second[0], "logged value %s differs", e.first.c_str()); continue; }
                                int len = e.first[0] == 's' ? 3 : (int)e.second.size(), got; int *w = nx_json_unbundle_int_array(nx_json_object_fget(o, e.first.c_str(), NX_JNT_ARRAY), &got);
                                CHECK(got == len, "series %s has %d values, expected %d", e.first.c_str(), got, len);
                                for (int q = 0; q < len; ++q) CHECK(w[q] == e.second[q], "series %s value %d differs", e.first.c_str(), q);
                                nx_free(w);
                        }
                }
        }
        g.note("%d operations on %zu streams", n, used.size()); g.nontrivial(used.size() >= 2);
        NX_JLOG_CLEAR_ALL();
}
FACET(jlogtypes, 0.7, "1-25 values, arrays and series entries of every type are logged in one stream and read back from memory and from the written file, in the order they were logged; non-trivial: two or more types")
{
        NX_JLOG_CLEAR_ALL(); int id = (int)g.u(0, 31), n = (int)g.u(1, 25); struct E { int t; std::vector<double> d; std::vector<std::string> s; bool one; }; std::map<std::string, E> m; std::vector<std::string> order; std::set<int> types;
        auto num = [&](int t) { double x = g.b() ? (double)g.i(-1000, 1000) / 8 : g.real(-1e6, 1e6); return t == 0 ? (double)(int)x : t == 1 ? (double)(float)x : x; };
        for (int k = 0; k < n; ++k) {
                int t = (int)g.u(0, 3), form = (int)g.u(0, 2); std::string key = std::string(1, "sar"[form]) + "ifds"[t] + g.str(1, "xyz"); auto f = m.find(key); if (form != 1 && f != m.end()) continue; types.insert(t); if (f == m.end()) { order.push_back(key); m[key] = { t, {}, {}, form == 0 }; } E &e = m[key]; const char *c = key.c_str();
                int cnt = form == 2 ? (int)g.u(1, 5) : 1; std::vector<double> d; std::vector<std::string> s; for (int i = 0; i < cnt; ++i) { if (t == 3) s.push_back(g.str(8, "ab \"\\\n")); else d.push_back(num(t)); }
                if (form == 2) { std::vector<int> vi(d.begin(), d.end()); std::vector<float> vf(d.begin(), d.end()); std::vector<char *> vs; for (auto &x : s) vs.push_back(&x[0]); switch (t) { case 0: NX_JLOG_IA(id, c, cnt, vi.data()); break; case 1: NX_JLOG_FA(id, c, cnt, vf.data()); break; case 2: NX_JLOG_DA(id, c, cnt, d.data()); break; default: NX_JLOG_SA(id, c, cnt, vs.data()); } }
                else if (form == 0) switch (t) { case 0: NX_JLOG_I(id, c, (int)d[0]); break; case 1: NX_JLOG_F(id, c, (float)d[0]); break; case 2: NX_JLOG_D(id, c, d[0]); break; default: NX_JLOG_S(id, c, s[0].c_str()); }
                else switch (t) { case 0: NX_JLOG_ADDI(id, c, (int)d[0]); break; case 1: NX_JLOG_ADDF(id, c, (float)d[0]); break; case 2: NX_JLOG_ADDD(id, c, d[0]); break; default: NX_JLOG_ADDS(id, c, s[0].c_str()); }
                e.d.insert(e.d.end(), d.begin(), d.end()); e.s.insert(e.s.end(), s.begin(), s.end());
        }
        g.note("%zu entries of %zu types", m.size(), types.size()); g.nontrivial(types.size() >= 2);
        auto verify = [&](NXJSONNode *o) {
                CHECK(nx_json_node_n_children(o) == 2 * (int)m.size(), "log has %d members, expected %zu", nx_json_node_n_children(o) / 2, m.size());
                for (auto &kv : m) {
                        const E &e = kv.second; const char *c = kv.first.c_str(); NXJSONNode *v = nx_json_object_get(o, c, 255); CHECK(v, "entry %s is missing", c); int cnt = 1; std::vector<double> d; std::vector<std::string> s;
                        if (e.one) switch (e.t) { case 0: d = { (double)nx_json_unbundle_int(v) }; break; case 1: d = { (double)nx_json_unbundle_float(v) }; break; case 2: d = { nx_json_unbundle_double(v) }; break; default: { char *x = nx_json_unbundle_string(v); s = { x }; nx_free(x); } }
                        else switch (e.t) { case 0: { int *x = nx_json_unbundle_int_array(v, &cnt); d.assign(x, x + cnt); nx_free(x); break; } case 1: { float *x = nx_json_unbundle_float_array(v, &cnt); d.assign(x, x + cnt); nx_free(x); break; } case 2: { double *x = nx_json_unbundle_double_array(v, &cnt); d.assign(x, x + cnt); nx_free(x); break; } default: { char **x = nx_json_unbundle_string_array(v, &cnt); for (int i = 0; i < cnt; ++i) { s.push_back(x[i]); nx_free(x[i]); } nx_free(x); } }
                        CHECK(d.size() == e.d.size() && s == e.s, "entry %s differs from what was logged", c); for (size_t i = 0; i < d.size(); ++i) CHECK(d[i] == e.d[i] || (e.t > 0 && eqd(e.d[i], d[i])), "value %zu of %s is %.17g, logged %.17g", i, c, d[i], e.d[i]);
                }
        };
        verify(nx_json_log_get_stream(id)); std::string fn = scratch_file("typed.json"), got; if (g.b()) { NX_JLOG_XWRITE(id, fn.c_str()); } else { FILE *f = nx_xfopen(fn.c_str(), "w"); NX_JLOG_FPRINT(id, f); nx_xfclose(f, fn.c_str()); }
        NXJSONNode *t = nx_json_tree_from_file(fn.c_str()); struct T { NXJSONNode *t; ~T() { nx_json_tree_free(t); } } guard{t}; verify(t); got = slurp(fn); size_t p = 0; for (auto &k : order) { size_t q = got.find("\"" + k + "\"", p); CHECK(q != std::string::npos, "entry %s is not in the order of logging", k.c_str()); p = q; }
        NX_JLOG_CLEAR_ALL();
}
