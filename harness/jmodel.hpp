// Reference JSON model and reader (dialect of the library: root is an object or array, no \u escapes,
// any byte but NUL, quote and backslash may stand for itself inside a string).
#pragma once
#include "core.hpp"
#include "virg/nexus/nx_json_tree.h"

namespace jm {
struct J { int type = NX_JNT_NULL; std::string text; std::vector<std::string> names; std::vector<J> kids; };

inline std::string gen_name(pbt::Gen &g)
{
        switch (g.draw(3)) {
        case 0: return g.str(4, "ab");
        case 1: return g.str(10, "\\\"\n\r\t\b\f/ab {}[]:,'\xff\x01");
        case 2: return g.text(12);
        default: return g.b(0.1) ? std::string((size_t)g.u(0, 1500), 'k') : g.str(3, "xyz");
        }
}
inline std::string gen_int(pbt::Gen &g)
{
        switch (g.draw(2)) {
        case 0: return pbt::strf("%d", (int)g.u(-12, 12)) == "-0" ? "0" : pbt::strf("%d", (int)g.u(0, 99));
        case 1: { std::string s = g.b() ? "-" : ""; s += (char)('1' + g.u(0, 8)); s += g.str(g.b(0.97) ? 25 : 500, "0123456789"); return s; }
        default: return g.b() ? "0" : "-0";
        }
}
inline std::string gen_fp(pbt::Gen &g)
{
        std::string s = gen_int(g); bool frac = g.b(0.7);
        if (frac) s += "." + std::string(1, (char)('0' + g.u(0, 9))) + g.str(g.b(0.97) ? 8 : 500, "0123456789");
        if (!frac || g.b()) { s += g.b() ? "e" : "E"; s += g.pick(std::vector<std::string>{ "", "+", "-" }); s += std::string(1, (char)('0' + g.u(0, 9))) + g.str(3, "0123456789"); }
        return s;
}
inline J gen_json(pbt::Gen &g, int depth, int *budget, bool root)
{
        J j; --*budget;
        int k = root ? (int)g.u(0, 1) : g.pick_idx(depth > 0 && *budget > 0 ? std::vector<int>{ 3, 3, 3, 2, 2, 1, 1, 1 } : std::vector<int>{ 0, 0, 3, 2, 2, 1, 1, 1 });
        switch (k) {
        case 0: case 1: {
                j.type = k == 0 ? NX_JNT_OBJECT : NX_JNT_ARRAY;
                int n = (int)g.u(0, g.b(0.03) ? 60 : 5);
                for (int q = 0; q < n && *budget > 0; ++q) { if (k == 0) j.names.push_back(gen_name(g)); j.kids.push_back(gen_json(g, depth - 1, budget, false)); }
                break; }
        case 2: j.type = NX_JNT_STRING; j.text = gen_name(g); break;
        case 3: j.type = NX_JNT_INTEGER; j.text = gen_int(g); break;
        case 4: j.type = NX_JNT_FPNUMBER; j.text = gen_fp(g); break;
        case 5: j.type = NX_JNT_TRUE; break;
        case 6: j.type = NX_JNT_FALSE; break;
        default: j.type = NX_JNT_NULL;
        }
        return j;
}
inline std::string ws(pbt::Gen &g) { return g.b(0.7) ? "" : g.str(4, " \n\t\r"); }
inline std::string esc(pbt::Gen &g, const std::string &s)
{
        std::string o = "\"";
        for (char c : s) switch (c) {
                case '"': o += "\\\""; break; case '\\': o += "\\\\"; break;
                case '/': o += g.b() ? "\\/" : "/"; break;
                case '\n': o += g.b(0.8) ? "\\n" : "\n"; break; case '\t': o += g.b(0.8) ? "\\t" : "\t"; break;
                case '\r': o += g.b(0.8) ? "\\r" : "\r"; break; case '\b': o += g.b(0.8) ? "\\b" : "\b"; break; case '\f': o += g.b(0.8) ? "\\f" : "\f"; break;
                default: o += c;
        }
        return o + "\"";
}
inline void to_text(pbt::Gen &g, const J &j, std::string &o)
{
        o += ws(g);
        switch (j.type) {
        case NX_JNT_OBJECT: case NX_JNT_ARRAY: {
                bool ob = j.type == NX_JNT_OBJECT;
                o += ob ? "{" : "[";
                if (j.kids.empty()) o += ws(g);
                for (size_t k = 0; k < j.kids.size(); ++k) { if (k) o += ","; if (ob) { o += ws(g); o += esc(g, j.names[k]); o += ws(g); o += ":"; } to_text(g, j.kids[k], o); }
                o += ob ? "}" : "]"; break; }
        case NX_JNT_STRING: o += esc(g, j.text); break;
        case NX_JNT_INTEGER: case NX_JNT_FPNUMBER: o += j.text; break;
        case NX_JNT_TRUE: o += "true"; break; case NX_JNT_FALSE: o += "false"; break; default: o += "null";
        }
        o += ws(g);
}
struct Reader {
        const std::string &s; size_t p = 0; bool bad = false;
        Reader(const std::string &t) : s(t) {}
        int c() const { return p < s.size() ? (unsigned char)s[p] : -1; }
        void skip() { while (c() == ' ' || c() == '\n' || c() == '\t' || c() == '\r') ++p; }
        bool str(std::string &o) {
                if (c() != '"') return false;
                ++p;
                for (;;) {
                        int k = c(); if (k < 0) return false;
                        ++p;
                        if (k == '"') return true;
                        if (k == '\\') {
                                int e = c(); if (e < 0) return false; ++p;
                                switch (e) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; default: return false; }
                        } else o += (char)k;
                }
        }
        bool digits() { size_t q = p; while (c() >= '0' && c() <= '9') ++p; return p > q; }
        bool value(J &j, int depth) {
                skip();
                switch (c()) {
                case '{': case '[': {
                        bool ob = c() == '{'; ++p; j.type = ob ? NX_JNT_OBJECT : NX_JNT_ARRAY; skip();
                        int close = ob ? '}' : ']';
                        if (c() == close) { ++p; return true; }
                        for (;;) {
                                if (ob) { skip(); std::string n; if (!str(n)) return false; j.names.push_back(n); skip(); if (c() != ':') return false; ++p; }
                                J k; if (!value(k, depth + 1)) return false; j.kids.push_back(k); skip();
                                if (c() == ',') { ++p; continue; }
                                if (c() == close) { ++p; return true; }
                                return false;
                        } }
                case '"': j.type = NX_JNT_STRING; return str(j.text);
                case 't': if (s.compare(p, 4, "true")) return false; p += 4; j.type = NX_JNT_TRUE; return true;
                case 'f': if (s.compare(p, 5, "false")) return false; p += 5; j.type = NX_JNT_FALSE; return true;
                case 'n': if (s.compare(p, 4, "null")) return false; p += 4; j.type = NX_JNT_NULL; return true;
                default: {
                        size_t q = p; if (c() == '-') ++p;
                        if (c() == '0') { ++p; if (c() >= '0' && c() <= '9') return false; } else if (!digits()) return false;
                        j.type = NX_JNT_INTEGER;
                        if (c() == '.') { ++p; if (!digits()) return false; j.type = NX_JNT_FPNUMBER; }
                        if (c() == 'e' || c() == 'E') { ++p; if (c() == '+' || c() == '-') ++p; if (!digits()) return false; j.type = NX_JNT_FPNUMBER; }
                        j.text = s.substr(q, p - q); return true; }
                }
        }
        bool document(J &j) { skip(); if (c() != '{' && c() != '[') return false; if (!value(j, 0)) return false; skip(); return p == s.size(); }
};
inline bool ref_parse(const std::string &s, J &j) { Reader r(s); return r.document(j); }

inline void compare(struct NXJSONNode *n, const J &j, const std::string &path)
{
        CHECK(n != NULL, "%s: no node", path.c_str());
        CHECK(nx_json_node_type(n) == j.type, "%s: type %d, expected %d", path.c_str(), nx_json_node_type(n), j.type);
        CHECK(nx_json_node_is(n, j.type) && nx_json_node_is_a(n, j.type | NX_JNT_NULL), "%s: type test fails", path.c_str());
        for (int mask : { NX_JNT_NUMBER, NX_JNT_BOOL, NX_JNT_COMPOSITE, NX_JNT_INTEGRAL, NX_JNT_VALUE, NX_JNT_NULL, NX_JNT_OBJECT, NX_JNT_STRING | NX_JNT_NUMBER, 255 })
                CHECK(!!nx_json_node_is_a(n, mask) == ((mask & j.type) != 0), "%s: type %d is%s reported to be among %d", path.c_str(), j.type, nx_json_node_is_a(n, mask) ? "" : " not", mask);
        if (j.type == NX_JNT_STRING || j.type == NX_JNT_INTEGER || j.type == NX_JNT_FPNUMBER)
                CHECK(nx_json_node_text(n) && j.text == nx_json_node_text(n), "%s: text %s, expected %s", path.c_str(), pbt::show(nx_json_node_text(n) ? nx_json_node_text(n) : "(null)").c_str(), pbt::show(j.text).c_str());
        if (j.type == NX_JNT_ARRAY) {
                CHECK(nx_json_node_n_children(n) == (int)j.kids.size(), "%s: %d elements, expected %zu", path.c_str(), nx_json_node_n_children(n), j.kids.size());
                for (size_t k = 0; k < j.kids.size(); ++k) compare(nx_json_array_get(n, (int)k, 255), j.kids[k], path + pbt::strf("[%zu]", k));
                CHECK(nx_json_array_get(n, (int)j.kids.size(), 255) == NULL, "%s: element beyond the end", path.c_str());
                for (size_t k = 0; k < j.kids.size() && k < 3; ++k) CHECK(nx_json_array_get(n, (int)k, 255 & ~j.kids[k].type) == NULL, "%s: element %zu found under a wrong type", path.c_str(), k);
        }
        if (j.type == NX_JNT_OBJECT) {
                // children are listed as name, value, name, value, ...
                CHECK(nx_json_node_n_children(n) == 2 * (int)j.kids.size(), "%s: %d children, expected %zu", path.c_str(), nx_json_node_n_children(n), 2 * j.kids.size());
                std::set<std::string> seen;
                for (size_t k = 0; k < j.kids.size(); ++k) {
                        if (!seen.insert(j.names[k]).second) continue;     // the first of equal names is found
                        compare(nx_json_object_get(n, j.names[k].c_str(), 255), j.kids[k], path + "." + pbt::show(j.names[k]));
                        CHECK(nx_json_object_get(n, j.names[k].c_str(), 255 & ~j.kids[k].type) == NULL, "%s: member %s found under a wrong type", path.c_str(), pbt::show(j.names[k]).c_str());
                }
                CHECK(nx_json_object_get(n, "no such member \x02", 255) == NULL, "%s: missing member found", path.c_str());
        }
}
inline bool equal(const J &a, const J &b)
{
        if (a.type != b.type || a.text != b.text || a.names != b.names || a.kids.size() != b.kids.size()) return false;
        for (size_t k = 0; k < a.kids.size(); ++k) if (!equal(a.kids[k], b.kids[k])) return false;
        return true;
}
inline struct NXJSONNode *build(const J &j)
{
        switch (j.type) {
        case NX_JNT_OBJECT: { auto *n = nx_json_node_new_object(); for (size_t k = 0; k < j.kids.size(); ++k) nx_json_object_add(n, j.names[k].c_str(), build(j.kids[k])); return n; }
        case NX_JNT_ARRAY: { auto *n = nx_json_node_new_array(); for (auto &k : j.kids) nx_json_array_add(n, build(k)); return n; }
        case NX_JNT_STRING: return nx_json_node_new_string(j.text.c_str());
        case NX_JNT_INTEGER: return nx_json_node_new_integer(j.text.c_str());
        case NX_JNT_FPNUMBER: return nx_json_node_new_fpnumber(j.text.c_str());
        case NX_JNT_TRUE: return nx_json_node_new_true();
        case NX_JNT_FALSE: return nx_json_node_new_false();
        default: return nx_json_node_new_null();
        }
}
inline size_t count(const J &j) { size_t n = 1; for (auto &k : j.kids) n += count(k); return n; }
inline struct NXJSONNode *parse_via(int how, const std::string &s)
{
        if (how == 0) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); struct NXJSONNode *n; try { n = nx_json_tree_from_string(p); } catch (...) { free(p); throw; } free(p); return n; }
        if (how == 1) { FILE *f = pbt::open_mem(s); struct NXJSONNode *n; try { n = nx_json_tree_from_stream(f); } catch (...) { fclose(f); throw; } fclose(f); return n; }
        std::string fn = pbt::scratch_file("j.json"); pbt::spit(fn, s);
        return nx_json_tree_from_file(fn.c_str());
}
} // namespace jm
