// C04: JSON text <-> tree.
#include "jmodel.hpp"
#include "virg/nexus/nx_json_lexer.h"
#include "virg/nexus/nx_json_parser.h"
#include "virg/nexus/nx_alloc.h"
using namespace jm;

// no bare \b \t \n \f \r between the quotes of a string
static bool escaped(const std::string &s)
{
        bool in = false;
        for (size_t k = 0; k < s.size(); ++k) {
                if (!in) { in = s[k] == '"'; continue; }
                if (s[k] == '\\') { ++k; continue; }
                if (s[k] == '"') in = false;
                else if (strchr("\b\t\n\f\r", s[k]) && s[k]) return false;
        }
        return true;
}
FACET(parse, 3, "documents of up to 40 values nested up to 6 deep with generated names, strings, number spellings and white space, parsed from memory, stream or file; non-trivial: at least 3 values")
{
        int budget = (int)g.u(1, 40); J j = gen_json(g, 6, &budget, true);
        std::string s; to_text(g, j, s);
        g.note("%s", show(s.substr(0, 200)).c_str()); g.nontrivial(count(j) >= 3);
        struct NXJSONNode *n = parse_via((int)g.draw(g.b(0.2) ? 2 : 1), s);
        compare(n, j, "root");
        nx_json_tree_free(n);
}
FACET(print, 3, "trees built node by node, printed at levels 0..8 (to a stream or standard output), read by a reference reader and parsed again; non-trivial: at least 3 values")
{
        int budget = (int)g.u(1, 40); J j = gen_json(g, 6, &budget, true);
        struct NXJSONNode *n = build(j);
        compare(n, j, "built");
        int level = (int)g.u(0, 8);
        std::string s = capture([&](FILE *f) { nx_json_tree_fprint(f, n, level); });
        g.note("level %d: %s", level, show(s.substr(0, 200)).c_str()); g.nontrivial(count(j) >= 3);
        J r; CHECK(ref_parse(s, r), "printed form is not valid JSON: %s", show(s).c_str());
        CHECK(escaped(s), "a string is printed with a bare line break, tab, backspace or form feed: %s", show(s).c_str());
        CHECK(equal(r, j), "printed form denotes another tree: %s", show(s).c_str());
        struct NXJSONNode *m = parse_via((int)g.draw(1), s);
        compare(m, j, "reparsed");
        std::string s2 = capture([&](FILE *f) { nx_json_tree_fprint(f, m, level); });
        CHECK(s == s2, "printing the reparsed tree gives different text");
        compare(n, j, "built, after printing");
        nx_json_tree_free(n); nx_json_tree_free(m);
}
FACET(damaged, 4, "documents with 1-3 bytes inserted, deleted, replaced, duplicated or cut; a reference reader decides acceptance; non-trivial: the text is not valid JSON")
{
        int budget = (int)g.u(1, 12); J j = gen_json(g, 4, &budget, true);
        std::string s; to_text(g, j, s);
        int n = (int)g.u(1, 3);
        static const std::string by = "{}[],:\"\\0123456789.-+eEtrufalsn \n/x\xff";
        for (int k = 0; k < n; ++k) {
                size_t p = (size_t)g.u(0, (int64_t)s.size());
                switch (g.draw(5)) {
                case 0: s.insert(p, 1, by[g.u(0, (int64_t)by.size() - 1)]); break;
                case 1: if (p < s.size()) s.erase(p, 1); break;
                case 2: if (p < s.size()) s[p] = by[g.u(0, (int64_t)by.size() - 1)]; break;
                case 3: s.resize(p); break;
                case 4: s += g.pick(std::vector<std::string>{ "]", "}", " 1", "{}", "null", " ", ",", "\"x\"", "x" }); break;
                default: s.insert(p, s.substr(p / 2, (size_t)g.u(0, 6)));
                }
        }
        J r; bool ok = ref_parse(s, r);
        g.note("%s", show(s.substr(0, 200)).c_str()); g.nontrivial(!ok);
        struct NXJSONNode *t = NULL; std::string msg;
        int how = (int)g.draw(1);
        bool f = fatal([&] { t = parse_via(how, s); }, &msg);
        if (ok) { CHECK(!f, "valid JSON %s was rejected: %s", show(s).c_str(), msg.c_str()); compare(t, r, "root"); }
        else CHECK(f, "invalid JSON was accepted: %s", show(s).c_str());
        if (t) nx_json_tree_free(t);
}
FACET(tokens, 2, "short texts over JSON's own tokens and number characters in any order; non-trivial: opens with a bracket")
{
        std::string s = g.b() ? "[" : "";
        int n = (int)g.u(0, 8);
        static const std::vector<std::string> tk = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "1", "0", "-", "01", "-0", "1.5", ".5", "1.", "1e5", "1e", "1E+", "2e-3", "true", "false", "null", "tru", "nul", " ", "\\", "\"\\n\"", "\"\\u0041\"", "\"\\", "+1", "\"\n\"", "1.2e3", "-1" };
        for (int k = 0; k < n; ++k) s += g.pick(tk);
        if (g.b()) s += "]";
        J r; bool ok = ref_parse(s, r);
        g.note("%s", show(s).c_str()); g.nontrivial(!s.empty() && (s[0] == '[' || s[0] == '{'));
        struct NXJSONNode *t = NULL;
        bool f = fatal([&] { t = parse_via(0, s); });
        if (ok) { CHECK(!f, "valid JSON %s was rejected", show(s).c_str()); compare(t, r, "root"); }
        else CHECK(f, "invalid JSON was accepted: %s", show(s).c_str());
        if (t) nx_json_tree_free(t);
}
FACET(large, 0.1, "long flat arrays (up to 60000 elements), objects of up to 3000 members, long strings and nesting to depth 400, through a stream; non-trivial: always")
{
        g.nontrivial();
        J j; j.type = NX_JNT_ARRAY; std::string s;
        switch (g.draw(3)) {
        case 3: { int n = (int)g.u(0, 3000); bool twice = g.b(); g.note("%d members", n); s = "{"; for (int k = 0; k < n; ++k) { if (k) s += ","; s += strf("\"m%d\":", twice ? k / 2 * 2 : k) + (g.b(0.2) ? strf("\"m%d\"", k + 1) : std::to_string(k)); } s += "}";
                struct NXJSONNode *t = parse_via(1, s); J r; CHECK(ref_parse(s, r), "reference"); CHECK(nx_json_node_n_children(t) == 2 * n, "%d children, expected %d", nx_json_node_n_children(t), 2 * n);
                for (int k = 0; k < n; k += 1 + (int)g.u(0, n / 10)) { int w = twice ? k / 2 * 2 : k; struct NXJSONNode *e = nx_json_object_get(t, strf("m%d", w).c_str(), NX_JNT_VALUE); CHECK(e && r.kids[w].text == nx_json_node_text(e) && r.kids[w].type == nx_json_node_type(e), "member m%d of %d is wrong", w, n); CHECK(!nx_json_object_get(t, strf("m%d", n + k + 1).c_str(), NX_JNT_VALUE), "a member that is not there is found"); }
                nx_json_tree_free(t); return; }
        case 0: { int n = (int)(g.b(0.3) ? g.u(0, 60000) : g.u(0, 3000)); g.note("%d elements", n); s = "["; for (int k = 0; k < n; ++k) { if (k) s += ","; s += std::to_string(k); } s += "]";
                struct NXJSONNode *t = parse_via(1, s); CHECK(nx_json_node_n_children(t) == n, "%d elements, expected %d", nx_json_node_n_children(t), n);
                for (int k = 0; k < n; k += 1 + n / 10) CHECK(std::to_string(k) == nx_json_node_text(nx_json_array_get(t, k, NX_JNT_INTEGER)), "element %d is wrong", k);
                nx_json_tree_free(t); return; }
        case 1: { int d = (int)g.u(1, 400); g.note("depth %d", d); J *p = &j; s = "["; for (int k = 1; k < d; ++k) { bool ob = g.b(); J q; q.type = ob ? NX_JNT_OBJECT : NX_JNT_ARRAY; if (p->type == NX_JNT_OBJECT) { p->names.push_back("n"); s += "\"n\":"; } s += ob ? "{" : "["; p->kids.push_back(q); p = &p->kids.back(); }
                std::string close; const J *q = &j; while (true) { close = (q->type == NX_JNT_OBJECT ? "}" : "]") + close; if (q->kids.empty()) break; q = &q->kids[0]; } s += close; break; }
        default: { J q; q.type = NX_JNT_STRING; q.text = std::string((size_t)g.u(900, 9000), 's'); j.kids.push_back(q); s = "[\"" + q.text + "\"]"; g.note("string of %zu", q.text.size()); }
        }
        struct NXJSONNode *t = parse_via(1, s);
        compare(t, j, "root");
        std::string o = capture([&](FILE *f) { nx_json_tree_fprint(f, t, (int)g.u(0, 3)); });
        J r; CHECK(ref_parse(o, r) && equal(r, j), "printed form differs");
        nx_json_tree_free(t);
}
FACET(longarray, 0.02, "a flat array of up to a million elements is built and freed; non-trivial: more than 100000 elements")
{
        int n = (int)g.u(1, 1000000); g.note("%d elements", n); g.nontrivial(n > 100000);
        struct NXJSONNode *a = nx_json_node_new_array();
        for (int k = 0; k < n; ++k) nx_json_array_add(a, nx_json_node_new_null());
        CHECK(nx_json_node_n_children(a) == n, "%d elements, expected %d", nx_json_node_n_children(a), n);
        nx_json_tree_free(a);
}
FACET(memory, 0.3, "parsing, printing and freeing a document returns all memory; non-trivial: at least 3 values")
{
        int budget = (int)g.u(1, 30); J j = gen_json(g, 5, &budget, true); std::string s; to_text(g, j, s);
        g.note("%s", show(s.substr(0, 100)).c_str()); g.nontrivial(count(j) >= 3);
        auto run = [&] { struct NXJSONNode *n = parse_via(1, s); nx_json_tree_free(n); };
        run(); size_t a = heap_bytes(); run(); size_t b = heap_bytes();
        CHECK(a == b, "%lld bytes left allocated", (long long)b - (long long)a);
}
