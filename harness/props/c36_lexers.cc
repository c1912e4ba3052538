// C36: character positions, numbers, strings and tokens of the lexers against reference scanners.
#include "../core.hpp"
#include "virg/nexus/nx_lexer.h"
#include "virg/nexus/nx_csv_lexer.h"
#include "virg/nexus/nx_json_lexer.h"
#include "virg/nexus/nx_alloc.h"
using namespace pbt;
struct Text { std::vector<char> v; explicit Text(const std::string &s) : v(s.begin(), s.end()) { v.push_back(0); } char *p() { return v.data(); } };
struct Pos { int line = 1, col = 0; void eat(int c) { if (c == '\n') { ++line; col = 0; } else if (c == '\r') col = 0; else if (c == '\t') col += 8; else ++col; } };
static Pos at(const std::string &s, size_t pos) { Pos p; for (size_t i = 0; i <= pos; ++i) p.eat(i < s.size() ? (unsigned char)s[i] : EOF); return p; }
struct Lex { NXLexer *l; explicit Lex(char *t) : l(nx_lexer_new(t)) {} ~Lex() { nx_lexer_free(l); } };
static void check_at(NXLexer *l, const std::string &s, size_t pos, const char *what)
{
        Pos p = at(s, pos); int c = pos < s.size() ? (unsigned char)s[pos] : EOF;
        CHECK(nx_lexer_position(l) == (int)pos, "%s: position %d, expected %zu", what, nx_lexer_position(l), pos); CHECK(nx_lexer_current_char(l) == c, "%s: current character %d, expected %d", what, nx_lexer_current_char(l), c);
        CHECK(nx_lexer_line_no(l) == p.line && nx_lexer_column_no(l) == p.col, "%s: line %d column %d, expected %d %d", what, nx_lexer_line_no(l), nx_lexer_column_no(l), p.line, p.col);
}
FACET(positions, 2.0, "texts over letters, line ends, tabs and any other byte, and 1-60 operations (consume, match of a prefix of the rest, of a changed or overlong prefix, of nothing): position, character, line and column after each, a failed match changes nothing, the end stays the end; nontrivial: a line end and a failed match")
{
        std::string s = g.b(0.7) ? g.str(40, "ab\n\t\r ,\"\xff\x80\x01") : g.text(60); size_t skip = 0; if (g.b(0.02)) { skip = (size_t)g.u(1, 5000); std::string pre; uint64_t r = g.bits64(); while (pre.size() < skip) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; pre += "ab\n \t,"[(r >> 33) % 6]; }; s = pre + s; } Text t(s); Lex L(t.p()); size_t pos = 0; CHECK(nx_lexer_text(L.l) == t.p(), "text"); check_at(L.l, s, 0, "start"); while (pos < skip) { nx_lexer_consume(L.l); ++pos; } check_at(L.l, s, pos, "after skipping"); int ops = (int)g.u(1, 60); bool failed = false; std::string log;
        while (ops--) { if (g.b(0.6)) { if (pos < s.size()) ++pos; int c = nx_lexer_consume(L.l); CHECK(c == (pos < s.size() ? (int)(unsigned char)s[pos] : EOF), "consume returned %d", c); check_at(L.l, s, pos, "consume"); log += 'c'; }
                else { std::string m = s.substr(pos, g.u(0, 6)); if (g.b(0.4)) { if (m.size() && g.b()) { size_t k = g.u(0, m.size() - 1); m[k] = (char)(m[k] ^ (1 << g.u(0, 7))); if (!m[k]) m[k] = 'q'; } else m += g.b() ? "z" : "\xff"; } bool want = s.compare(pos, m.size(), m) == 0; bool r = nx_lexer_match(L.l, m.c_str()); CHECK(r == want, "match of %s at %zu of %s returned %d", show(m).c_str(), pos, show(s).c_str(), r); if (want) pos += m.size(); else failed = true; check_at(L.l, s, pos, want ? "match" : "failed match"); log += want ? 'm' : 'f'; } }
        CHECK(!strcmp(t.p(), s.c_str()), "the text changed"); g.note("%s: %s", show(s).c_str(), log.c_str()); g.nontrivial(failed && s.find('\n') != std::string::npos);
}
// reference scanner: 0 integer, 1 floating point, -1 error
static int scan_number(const std::string &s, size_t p, size_t *end)
{
        size_t b = p; auto dig = [&](size_t i) { return i < s.size() && s[i] >= '0' && s[i] <= '9'; }; if (s[p] == '-') ++p; size_t d = p; while (dig(p)) ++p; if (p == d) return -1; if (s[d] == '0' && p - d > 1) return -1; bool fp = false; if (p < s.size() && s[p] == '.') { fp = true; ++p; if (!dig(p)) return -1; while (dig(p)) ++p; } if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { fp = true; ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; if (!dig(p)) return -1; while (dig(p)) ++p; } *end = p; (void)b; return fp;
}
static std::string gen_numberish(Gen &g) { std::string s = g.b(0.4) ? "-" : ""; s += g.b(0.2) ? g.str(3, "0") : g.str(1, "123456789") + g.str(g.b(0.9) ? 6 : 400, "0123456789"); if (g.b()) s += "." + g.str(g.b(0.9) ? 5 : 400, "0123456789"); if (g.b()) s += g.pick<std::string>({"e", "E"}) + g.pick<std::string>({"", "+", "-"}) + g.str(4, "0123456789"); if (g.b(0.15)) s.insert(g.u(0, s.size()), g.str(1, "0.eE+-1")); if (s.empty() || (s[0] != '-' && !isdigit((unsigned char)s[0]))) s = g.str(1, "0123456789") + s; if (s[0] != '-' && !isdigit((unsigned char)s[0])) s = "7" + s; return s; }
FACET(number, 2.0, "number spellings, right and wrong, at any place of a text: extent, kind and the position after it as the JSON grammar says, a malformed one is fatal with its line; nontrivial: fraction or exponent")
{
        std::string pre = g.str(8, " \n\tx"), s = pre + gen_numberish(g) + g.pick<std::string>({"", ",", " ", "\n", "x", "]", "\xe9"}) + g.str(4, "0a.,"); Text t(s); Lex L(t.p()); for (size_t i = 0; i < pre.size(); ++i) nx_lexer_consume(L.l); size_t e = 0; int k = scan_number(s, pre.size(), &e), len = -1; NXLexerNumberType ty = (NXLexerNumberType)99; const char *r = nullptr; std::string msg; g.note("%s kind %d", show(s).c_str(), k); bool f = fatal([&] { r = nx_lexer_NUMBER(L.l, &len, &ty); }, &msg); CHECK(f == (k < 0), "%s: %s", show(s.substr(pre.size())).c_str(), f ? "rejected" : "accepted");
        if (!f) { CHECK(r == t.p() + pre.size() && len == (int)(e - pre.size()), "number of %d characters at %td, expected %zu at %zu", len, r - t.p(), e - pre.size(), pre.size()); CHECK(ty == (k ? NX_LNT_FLOATING_POINT : NX_LNT_INTEGER), "kind"); check_at(L.l, s, e, "after the number"); } else { int line = at(s, pre.size()).line; CHECK(msg.find(strf("Line %d", line)) != std::string::npos || s.find('\n', pre.size()) != std::string::npos, "message %s does not name line %d", msg.c_str(), line); } g.nontrivial(k == 1);
}
static bool scan_string(const std::string &s, size_t p, size_t *end, std::string *val)
{
        ++p; val->clear(); while (p < s.size() && s[p] != '"') { if (s[p] == '\\') { ++p; if (p >= s.size()) return false; static const char *e = "\"\\/bfnrt", *v = "\"\\/\b\f\n\r\t"; const char *q = strchr(e, s[p]); if (!q || !*q) return false; *val += v[q - e]; ++p; } else *val += s[p++]; } if (p >= s.size()) return false; *end = p + 1; return true;
}
static std::string gen_quoted(Gen &g) { std::string s = "\""; int n = (int)(g.b(0.95) ? g.u(0, 10) : g.u(0, 3000)); for (int i = 0; i < n; ++i) switch (g.u(0, 9)) { case 0: case 1: case 2: s += '\\'; s += g.pick<char>({'"', '\\', '/', 'b', 'f', 'n', 'r', 't'}); break; case 3: s += g.pick<char>({'\n', '\t', '\x01', '\x7f', (char)0xff, (char)0x80}); break; default: s += (char)g.u('a', 'f'); } s += '"'; if (g.b(0.15)) s.insert(g.u(1, s.size()), g.str(2, "\\\"xu")); else if (g.b(0.08)) s.insert(g.u(1, s.size()), std::string("\\") + (char)g.u(1, 255)); if (g.b(0.08)) s.pop_back(); return s; }
FACET(quoted, 1.5, "quoted strings with escapes, raw control and non-ASCII bytes, and damaged ones: the raw extent and the position after it, unknown escapes and a missing end are fatal; nontrivial: contains an escape")
{
        std::string pre = g.str(5, " \nx"), s = pre + gen_quoted(g) + g.str(3, " ,\"a"); Text t(s); Lex L(t.p()); for (size_t i = 0; i < pre.size(); ++i) nx_lexer_consume(L.l); size_t e = 0; std::string val; bool ok = scan_string(s, pre.size(), &e, &val); int len = -1; const char *r = nullptr; g.note("%s", show(s).c_str()); bool f = fatal([&] { r = nx_lexer_QUOTED_STRING(L.l, &len); }); CHECK(f == !ok, "%s %s", show(s).c_str(), f ? "rejected" : "accepted"); if (ok) { CHECK(r == t.p() + pre.size() + 1 && len == (int)(e - pre.size() - 2), "string of %d at %td", len, r - t.p()); check_at(L.l, s, e, "after the string"); } g.nontrivial(s.find('\\') != std::string::npos);
}
FACET(csv_tokens, 2.0, "texts over quotes, commas, line ends, letters and other bytes: the token sequence (kind, decoded text, printed form) of a reference scanner, malformed quoting is fatal, and the end token repeats; nontrivial: a quoted field among at least 4 tokens")
{
        std::string s; if (g.b()) s = g.str(30, "\"\",,\nab \r\xff"); else { int n = (int)g.u(0, 15); for (int i = 0; i < n; ++i) { if (g.b(0.6)) s += g.b() ? g.str(6, "abc 1.-\t\xe9") : "\"" + g.str(6, "a,\n\xff") + (g.b(0.3) ? "\"\"" : "") + g.str(4, "x\n") + "\""; s += g.b(0.7) ? "," : "\n"; } } Text t(s); NXCSVLexer *l = nx_csv_lexer_new(t.p()); NXCSVToken k; k.type = NX_CTT_INVALID; k.text = NULL; struct F { NXCSVLexer *l; NXCSVToken *k; ~F() { nx_csv_token_free_data(k); nx_csv_lexer_free(l); } } fr{l, &k}; size_t p = 0; int count = 0; bool q = false; g.note("%s", show(s).c_str());
        for (int extra = 0; extra < 3;) { NXCSVTokenType want; std::string val; bool bad = false, has = false; if (p >= s.size()) { want = NX_CTT_EOF; ++extra; } else if (s[p] == ',') { want = NX_CTT_COMMA; ++p; } else if (s[p] == '\n') { want = NX_CTT_EOR; ++p; } else if (s[p] == '"') { want = NX_CTT_QUOTED_FIELD; has = q = true; ++p; bad = true; while (p < s.size()) { if (s[p] == '"') { if (p + 1 < s.size() && s[p + 1] == '"') { val += '"'; p += 2; continue; } bad = false; ++p; break; } val += s[p++]; } } else { want = NX_CTT_FIELD; has = true; while (p < s.size() && s[p] != '\n' && s[p] != ',') { if (s[p] == '"') bad = true; val += s[p++]; } }
                bool f = fatal([&] { nx_csv_lexer_next_token(l, &k); }); CHECK(f == bad, "token %d of %s %s", count, show(s).c_str(), f ? "rejected" : "accepted"); if (f) break; CHECK(k.type == want, "token %d of %s is %s, expected %s", count, show(s).c_str(), nx_csv_token_name(&k), nx_csv_token_type_name(want)); static const char *N[] = {"EOF", "EOR", ",", "FIELD", "QFIELD"}; CHECK(!strcmp(nx_csv_token_name(&k), N[want]) && !strcmp(nx_csv_token_type_name(want), N[want]), "token name %s", nx_csv_token_name(&k)); if (has) CHECK(k.text && val == k.text, "token %d text %s, expected %s", count, k.text ? show(k.text).c_str() : "none", show(val).c_str()); else CHECK(!k.text, "token %d has text %s", count, k.text); char *d = nx_csv_token_to_string(&k); std::string ds = d; nx_free(d); CHECK(ds == (has ? strf("<%s:'%s'>", N[want], val.c_str()) : strf("<%s>", N[want])), "token printed as %s", show(ds).c_str()); ++count; }
        g.nontrivial(q && count > 4);
}
FACET(json_tokens, 2.0, "sequences of JSON tokens with any white space between them, right and damaged: the token sequence (kind, decoded text, printed form) of a reference scanner; an unexpected character is fatal and the message names its line and column; nontrivial: at least 5 tokens")
{
        std::string s; int n = (int)g.u(0, 12); for (int i = 0; i < n; ++i) { s += g.str(g.b(0.7) ? 0 : 3, " \n\t\r"); switch (g.u(0, 5)) { case 0: case 1: s += g.pick<char>({'[', ']', '{', '}', ',', ':'}); break; case 2: s += g.pick<std::string>({"true", "false", "null"}); if (g.b(0.1)) s.pop_back(); break; case 3: s += gen_numberish(g) + (g.b() ? " " : ","); break; case 4: s += gen_quoted(g); break; default: if (g.b(0.15)) s += g.pick<char>({'@', 'x', '\x01', (char)0xe9, '\'', '+', '.'}); } } Text t(s); NXJSONLexer *l = nx_json_lexer_new(t.p()); NXJSONToken k; k.type = NX_JTT_INVALID; k.text = NULL; struct F { NXJSONLexer *l; NXJSONToken *k; ~F() { nx_json_token_free_data(k); nx_json_lexer_free(l); } } fr{l, &k}; size_t p = 0; int count = 0; g.note("%s", show(s).c_str());
        for (int extra = 0; extra < 3;) { while (p < s.size() && strchr(" \n\t\r", s[p])) ++p; NXJSONTokenType want = NX_JTT_INVALID; std::string val; bool bad = false, has = false, unexpected = false; if (p >= s.size()) { want = NX_JTT_EOF; ++extra; } else { const char *q = strchr("[]{},:", s[p]); if (q) { want = (NXJSONTokenType)(NX_JTT_LSBRAC + (q - strchr("[]{},:", '['))); static const char *P = "[]{},:"; want = (NXJSONTokenType)(NX_JTT_LSBRAC + (strchr(P, s[p]) - P)); ++p; } else if (s[p] == 't' || s[p] == 'f' || s[p] == 'n') { std::string w = s[p] == 't' ? "true" : s[p] == 'f' ? "false" : "null"; want = s[p] == 't' ? NX_JTT_TRUE : s[p] == 'f' ? NX_JTT_FALSE : NX_JTT_NULL; bad = s.compare(p, w.size(), w) != 0; p += w.size(); } else if (s[p] == '"') { want = NX_JTT_STRING; has = true; size_t e = p; bad = !scan_string(s, p, &e, &val); p = e; } else if (s[p] == '-' || (s[p] >= '0' && s[p] <= '9')) { size_t e = p; int kind = scan_number(s, p, &e); bad = kind < 0; has = true; want = kind == 1 ? NX_JTT_FPNUM : NX_JTT_INTEGER; if (!bad) val = s.substr(p, e - p); p = e; } else { bad = unexpected = true; } }
                std::string msg; bool f = fatal([&] { nx_json_lexer_next_token(l, &k); }, &msg); CHECK(f == bad, "token %d of %s %s", count, show(s).c_str(), f ? "rejected" : "accepted"); if (f) { if (unexpected) { Pos w = at(s, p); CHECK(msg.find(strf("Line %d, Column %d", w.line, w.col)) != std::string::npos, "message %s, the character is at line %d column %d", show(msg).c_str(), w.line, w.col); } break; }
                static const char *N[] = {"EOF", "[", "]", "{", "}", ",", ":", "true", "false", "null", "INTEGER", "FPNUM", "STRING"}; CHECK(k.type == want, "token %d of %s is %s, expected %s", count, show(s).c_str(), nx_json_token_name(&k), N[want]); CHECK(!strcmp(nx_json_token_name(&k), N[want]) && !strcmp(nx_json_token_type_name(want), N[want]), "token name %s", nx_json_token_name(&k)); if (has) CHECK(k.text && val == k.text, "token %d text %s, expected %s", count, k.text ? show(k.text).c_str() : "none", show(val).c_str()); else CHECK(!k.text, "token %d has text", count); char *d = nx_json_token_to_string(&k); std::string ds = d; nx_free(d); CHECK(ds == (has ? strf("<%s:'%s'>", N[want], val.c_str()) : strf("<%s>", N[want])), "token printed as %s", show(ds).c_str()); ++count; }
        g.nontrivial(count > 5);
}
