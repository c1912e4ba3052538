// C42: OpenGL helpers against a stand-in OpenGL that records every call and can be made to fail.
#include "../core.hpp"
#include <fcntl.h>
#include <unistd.h>
#include "virg/nexus/GL/nx_gl.h"
#include "virg/nexus/GL/nx_gl_buffer.h"
#include "virg/nexus/GL/nx_gl_program.h"
#include "virg/nexus/GL/nx_gl_projection.h"
#include "virg/nexus/GL/nx_gl_shader.h"
#include "virg/nexus/nx_log.h"

namespace {
struct Buf { bool bound_once = false, has = false; std::string data; GLenum usage = 0; };
struct Sh { GLenum type = 0; std::string src; bool compiled = false, ok = false, dead = false; };
struct Pr { std::vector<GLuint> sh; bool linked = false, ok = false, validated = false, vok = false, dead = false; };
struct GL {
        std::map<GLuint, Buf> bufs; std::map<GLenum, GLuint> bound; std::map<GLuint, Sh> shs; std::map<GLuint, Pr> prs;
        GLuint next = 1, step = 1; bool no_buf = false, no_sh = false, no_pr = false; int bad_sh = 0, bad_link = 0, bad_val = 0; // bad_sh: which compilation fails (1, 2)
        int compilations = 0, creations = 0, no_sh_at = 0; std::string log; bool have_log = true, debug = false; GLDEBUGPROC cb = nullptr; const void *cbdata = nullptr; std::string version, sl; std::string misuse;
        GLuint name() { GLuint n = next; next += step; return n; }
} F;
void misuse(const char *what) { if (F.misuse.empty()) F.misuse = what; }
void put_log(GLsizei n, GLsizei *len, GLchar *out) { if (n < 0) { misuse("negative log size"); return; } GLsizei k = 0; if (n > 0) { k = (GLsizei)std::min<size_t>(F.log.size(), (size_t)n - 1); memcpy(out, F.log.data(), (size_t)k); out[k] = 0; } if (len) *len = k; }
GLint log_len() { return F.log.empty() ? (F.have_log ? 1 : 0) : (GLint)F.log.size() + 1; }
}
extern "C" {
const GLubyte *glGetString(GLenum n) { return (const GLubyte *)(n == GL_VERSION ? F.version.c_str() : n == GL_SHADING_LANGUAGE_VERSION ? F.sl.c_str() : "other"); }
void glEnable(GLenum c) { if (c == GL_DEBUG_OUTPUT) F.debug = true; else if (c != GL_DEBUG_OUTPUT_SYNCHRONOUS) misuse("glEnable of something else"); }
void glDisable(GLenum c) { if (c == GL_DEBUG_OUTPUT) F.debug = false; else if (c != GL_DEBUG_OUTPUT_SYNCHRONOUS) misuse("glDisable of something else"); }
void glDebugMessageCallback(GLDEBUGPROC cb, const void *u) { F.cb = cb; F.cbdata = u; }
void glGenBuffers(GLsizei n, GLuint *b) { for (GLsizei i = 0; i < n; ++i) { if (F.no_buf) { b[i] = 0; continue; } b[i] = F.name(); F.bufs[b[i]] = Buf(); } }
void glDeleteBuffers(GLsizei n, const GLuint *b) { for (GLsizei i = 0; i < n; ++i) { if (!F.bufs.erase(b[i])) misuse("deleted a buffer that does not exist"); for (auto &p : F.bound) if (p.second == b[i]) p.second = 0; } }
void glBindBuffer(GLenum t, GLuint b) { if (b && !F.bufs.count(b)) { misuse("bound a buffer that does not exist"); return; } F.bound[t] = b; if (b) F.bufs[b].bound_once = true; }
void glBufferData(GLenum t, GLsizeiptr s, const void *d, GLenum u) { GLuint b = F.bound[t]; if (!b) { misuse("data for a target without buffer"); return; } if (s < 0) { misuse("negative size"); return; } F.bufs[b].has = true; F.bufs[b].usage = u; F.bufs[b].data.assign((size_t)s, 0); if (d && s) memcpy(&F.bufs[b].data[0], d, (size_t)s); }
void glBufferSubData(GLenum t, GLintptr o, GLsizeiptr s, const void *d) { GLuint b = F.bound[t]; if (!b || o < 0 || s < 0 || (size_t)(o + s) > F.bufs[b].data.size()) { misuse("sub data outside the buffer"); return; } if (s) memcpy(&F.bufs[b].data[(size_t)o], d, (size_t)s); }
GLboolean glIsBuffer(GLuint b) { return F.bufs.count(b) && F.bufs[b].bound_once; }
GLuint glCreateShader(GLenum t) { ++F.creations; if (F.no_sh_at == F.creations) return 0; GLuint n = F.name(); F.shs[n].type = t; return n; }
void glShaderSource(GLuint s, GLsizei n, const GLchar *const *str, const GLint *len) { if (!F.shs.count(s)) { misuse("source for a shader that does not exist"); return; } F.shs[s].src.clear(); for (GLsizei i = 0; i < n; ++i) if (len && len[i] >= 0) F.shs[s].src.append(str[i], (size_t)len[i]); else F.shs[s].src += str[i]; }
void glCompileShader(GLuint s) { if (!F.shs.count(s)) { misuse("compiled a shader that does not exist"); return; } ++F.compilations; F.shs[s].compiled = true; F.shs[s].ok = F.compilations != F.bad_sh; }
void glGetShaderiv(GLuint s, GLenum w, GLint *v) { if (!F.shs.count(s)) { misuse("asked about a shader that does not exist"); return; } Sh &x = F.shs[s]; *v = w == GL_COMPILE_STATUS ? x.compiled && x.ok : w == GL_INFO_LOG_LENGTH ? log_len() : w == GL_SHADER_TYPE ? (GLint)x.type : w == GL_DELETE_STATUS ? x.dead : 0; }
void glGetShaderInfoLog(GLuint s, GLsizei n, GLsizei *l, GLchar *o) { if (!F.shs.count(s)) { misuse("log of a shader that does not exist"); return; } put_log(n, l, o); }
void glDeleteShader(GLuint s) { if (!s) return; if (!F.shs.count(s) || F.shs[s].dead) { misuse("deleted a shader that does not exist"); return; } F.shs[s].dead = true; }
GLuint glCreateProgram(void) { if (F.no_pr) return 0; GLuint n = F.name(); F.prs[n] = Pr(); return n; }
void glAttachShader(GLuint p, GLuint s) { if (!F.prs.count(p) || !F.shs.count(s) || F.shs[s].dead) { misuse("attached something that does not exist"); return; } for (GLuint k : F.prs[p].sh) if (k == s) misuse("attached twice"); F.prs[p].sh.push_back(s); }
void glDetachShader(GLuint p, GLuint s) { if (!F.prs.count(p)) { misuse("detached from a program that does not exist"); return; } }
void glLinkProgram(GLuint p) { if (!F.prs.count(p)) { misuse("linked a program that does not exist"); return; } Pr &x = F.prs[p]; x.linked = true; x.ok = !F.bad_link; std::set<GLenum> t; for (GLuint k : x.sh) { if (!F.shs[k].ok) x.ok = false; t.insert(F.shs[k].type); } if (t.size() != 2) x.ok = false; }
void glValidateProgram(GLuint p) { if (!F.prs.count(p)) { misuse("validated a program that does not exist"); return; } F.prs[p].validated = true; F.prs[p].vok = F.prs[p].ok && !F.bad_val; }
void glGetProgramiv(GLuint p, GLenum w, GLint *v) { if (!F.prs.count(p)) { misuse("asked about a program that does not exist"); return; } Pr &x = F.prs[p]; *v = w == GL_LINK_STATUS ? x.linked && x.ok : w == GL_VALIDATE_STATUS ? x.validated && x.vok : w == GL_INFO_LOG_LENGTH ? log_len() : w == GL_ATTACHED_SHADERS ? (GLint)x.sh.size() : 0; }
void glGetProgramInfoLog(GLuint p, GLsizei n, GLsizei *l, GLchar *o) { if (!F.prs.count(p)) { misuse("log of a program that does not exist"); return; } put_log(n, l, o); }
void glDeleteProgram(GLuint p) { if (p && !F.prs.erase(p)) misuse("deleted a program that does not exist"); }
GLenum glGetError(void) { return GL_NO_ERROR; }
}
static void reset(Gen &g) { F = GL(); F.next = (GLuint)g.u(1, 50); F.step = (GLuint)g.u(1, 3); }
static std::string err_of(const std::function<void()> &f)
{
        fflush(stderr); std::string fn = scratch_file("err.txt"); int keep = dup(2), fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd); f(); fflush(stderr); dup2(keep, 2); close(keep); return slurp(fn);
}

FACET(projection, 3.0, "camera with any focal lengths, viewport and near and far planes, points in front of it: the perspective matrix puts x and y at 2f/size times the slope, the near plane at depth -1, the far plane at 1, and depth grows between them; nontrivial: always")
{
        double fx = std::exp(g.real(-2, 9)), fy = g.b(0.2) ? fx : std::exp(g.real(-2, 9)), w = std::exp(g.real(0, 9)), h = g.b(0.2) ? w : std::exp(g.real(0, 9)), n = std::exp(g.real(-7, 4)), f = n * (1 + std::exp(g.real(-4, 9))), G[18]; for (double &v : G) v = g.any_double(); double g0 = G[0], g1 = G[17]; g.note("f %g %g viewport %g %g planes %g %g", fx, fy, w, h, n, f);
        double *P = G + 1; nx_gl_projection_sym_perspective_from_camera(P, fx, fy, n, f, w, h); CHECK(G[0] == g0 && G[17] == g1, "wrote outside the matrix");
        double last = -2; for (int k = 0; k <= 8; ++k) { double t = k / 8.0, z = k == 8 ? f : n * std::pow(f / n, t), x = g.real(-2, 2) * z, y = g.real(-2, 2) * z, c[4], v[4] = {x, y, -z, 1}; for (int i = 0; i < 4; ++i) { c[i] = 0; for (int j = 0; j < 4; ++j) c[i] += P[4 * j + i] * v[j]; }
                CHECK(near_(c[3], z, 1e-12, 0), "w of a point at distance %g is %g", z, c[3]); CHECK(near_(c[0] / c[3], 2 * fx / w * x / z, 1e-12, 1e-300) && near_(c[1] / c[3], 2 * fy / h * y / z, 1e-12, 1e-300), "point %g %g at distance %g maps to %g %g", x, y, z, c[0] / c[3], c[1] / c[3]);
                double d = c[2] / c[3], e = (f + n) / (f - n) - 2 * f * n / ((f - n) * z), tol = 1e-12 * (1 + 4 * f / (f - n)); CHECK(std::fabs(d - e) <= tol, "depth of distance %g is %.17g, expected %.17g", z, d, e); if (!k) CHECK(std::fabs(d + 1) <= tol, "near plane at depth %g", d); if (k == 8) CHECK(std::fabs(d - 1) <= tol, "far plane at depth %g", d); CHECK(d > last - tol, "depth does not grow with distance"); last = d; }
        g.nontrivial();
}
FACET(mvp, 3.0, "any projection, view and model matrices, view and model possibly absent: the combined matrix is P V M in single precision, inputs unchanged; nontrivial: at least one of view and model given")
{
        double A[3][16]; for (auto &a : A) { bool sp = g.b(0.3); double s = g.b(0.2) ? std::exp(g.real(-20, 20)) : 1; for (double &v : a) v = sp && g.b(0.6) ? (double)g.u(-1, 1) : s * g.real(-3, 3); } double B[3][16]; memcpy(B, A, sizeof A); const double *M = g.b(0.7) ? A[0] : nullptr, *V = g.b(0.7) ? A[1] : nullptr, *P = A[2]; if (M && V && g.b(0.1)) V = M; if (V && g.b(0.05)) P = V;
        GLfloat o[18]; for (float &v : o) v = 7.5f; nx_gl_projection_to_mvp(o + 1, M, V, P); CHECK(o[0] == 7.5f && o[17] == 7.5f, "wrote outside the matrix"); CHECK(!memcmp(A, B, sizeof A), "inputs changed"); g.note("model %d view %d", !!M, !!V);
        long double T[16], U[16], mag[16], mg2[16]; for (int i = 0; i < 16; ++i) { T[i] = P[i]; mag[i] = std::fabs(P[i]); } for (const double *R : {V, M}) { if (!R) continue; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { long double s = 0, m = 0; for (int k = 0; k < 4; ++k) { s += T[4 * k + r] * R[4 * c + k]; m += mag[4 * k + r] * std::fabs(R[4 * c + k]); } U[4 * c + r] = s; mg2[4 * c + r] = m; } memcpy(T, U, sizeof T); memcpy(mag, mg2, sizeof mag); }
        for (int i = 0; i < 16; ++i) CHECK(std::fabs((double)(o[i + 1] - T[i])) <= 1e-7 * (double)std::fabs((double)T[i]) + 1e-14 * (double)mag[i] + 1e-45, "element %d is %.9g, expected %.9Lg", i, o[i + 1], T[i]); g.nontrivial(M || V);
}
FACET(buffers, 3.0, "1-30 operations (new array, element array or other buffer with any contents, allocate, bind, free) on OpenGL buffers: each holds its data under its target and usage, binding selects it, others are untouched, freeing deletes exactly it, a refused allocation is fatal, memory is returned; nontrivial: several buffers alive")
{
        reset(g); struct B { NXGLBuffer *p; GLenum t; std::string d; GLenum u; bool filled; }; std::vector<B> bs; bs.reserve(64); size_t heap = c_heap_bytes(); bool refused = false; int n = (int)g.u(1, 30); size_t most = 0; const std::vector<GLenum> T{GL_ARRAY_BUFFER, GL_ELEMENT_ARRAY_BUFFER, GL_UNIFORM_BUFFER, GL_PIXEL_PACK_BUFFER}, U{GL_STATIC_DRAW, GL_DYNAMIC_DRAW, GL_STREAM_DRAW};
        auto check = [&](const char *op) { CHECK(F.misuse.empty(), "%s: %s", op, F.misuse.c_str()); CHECK(F.bufs.size() == bs.size(), "%s: %zu OpenGL buffers, %zu in use", op, F.bufs.size(), bs.size()); std::set<GLuint> ids; for (auto &b : bs) { CHECK(F.bufs.count(b.p->id) && ids.insert(b.p->id).second, "%s: buffer id %u is not its own", op, b.p->id); CHECK(b.p->target == b.t && b.p->usage_hint == b.u && b.p->size == (GLsizeiptr)b.d.size(), "%s: fields of a buffer changed", op); Buf &f = F.bufs[b.p->id]; if (b.filled) CHECK(f.has && f.data == b.d && f.usage == b.u, "%s: contents or usage of a buffer differ", op); } };
        for (int k = 0; k < n; ++k) switch (g.u(0, 5)) {
        case 0: case 1: { B b; int form = (int)g.u(0, 2); b.t = form == 0 ? GL_ARRAY_BUFFER : form == 1 ? GL_ELEMENT_ARRAY_BUFFER : g.pick(T); b.u = g.pick(U); auto by = g.bytes(g.b(0.05) ? 5000 : 40); b.d.assign(by.begin(), by.end()); b.filled = true; std::string src = b.d; b.p = form == 0 ? nx_gl_buffer_new_array((GLsizeiptr)src.size(), src.data(), b.u) : form == 1 ? nx_gl_buffer_new_element_array((GLsizeiptr)src.size(), src.data(), b.u) : nx_gl_buffer_new(b.t, (GLsizeiptr)src.size(), src.data(), b.u); for (char &c : src) c = (char)~c; bs.push_back(b); check("new"); CHECK(F.bound[b.t] == b.p->id, "new buffer is not bound"); break; }
        case 2: { if (g.b(0.3)) { F.no_buf = true; std::string m; CHECK(fatal([&] { nx_gl_buffer_free(nx_gl_buffer_alloc()); }, &m), "a refused buffer is not reported"); F.no_buf = false; refused = true; check("refused"); break; } B b; b.p = nx_gl_buffer_alloc(); b.t = GL_ARRAY_BUFFER; b.u = GL_STATIC_DRAW; b.filled = false; bs.push_back(b); check("alloc"); break; }
        case 3: case 4: { if (bs.empty()) break; B &b = bs[(size_t)g.u(0, (int64_t)bs.size() - 1)]; auto was = F.bound; nx_gl_buffer_bind(b.p); check("bind"); CHECK(F.bound[b.t] == b.p->id, "bind did not select the buffer"); for (auto &w : was) if (w.first != b.t) CHECK(F.bound[w.first] == w.second, "bind changed another target"); break; }
        default: { if (bs.empty() || g.b(0.1)) { nx_gl_buffer_free(nullptr); check("free nothing"); break; } size_t i = (size_t)g.u(0, (int64_t)bs.size() - 1); auto was = F.bound; GLenum t = bs[i].t; GLuint id = bs[i].p->id; nx_gl_buffer_free(bs[i].p); bs.erase(bs.begin() + (long)i); CHECK(!F.bufs.count(id), "freed buffer still exists"); check("free"); for (auto &w : was) if (w.first != t) CHECK(F.bound[w.first] == w.second, "free changed another target"); break; } }
        most = std::max(most, bs.size()); while (!bs.empty()) { nx_gl_buffer_free(bs.back().p); bs.pop_back(); check("free"); } size_t now = c_heap_bytes(); if (!refused) CHECK(now == heap, "%zd bytes left behind", (ssize_t)(now - heap)); g.note("%d operations, %zu alive", n, most); g.nontrivial(most > 1);
}
FACET(programs, 3.0, "programs from any two shader sources, all well or with a failure at any one step (creation or compilation of either shader, creation, linking or validation of the program) and any log: success gives a linked and validated program of exactly these sources with no shader left behind, a failure is fatal and its message holds the whole log; nontrivial: a failure or both sources not empty")
{
        reset(g); std::string vs = g.text(g.b(0.1) ? 3000 : 60), fs = g.text(60), m; int step = (int)g.u(0, 8); GLuint p = 0; F.log = g.b(0.2) ? "" : "L" + g.text(g.b(0.2) ? 6000 : 50); F.have_log = g.b(); bool parts = g.b();
        switch (step) { case 1: F.no_sh_at = 1; break; case 2: F.no_sh_at = 2; break; case 3: F.bad_sh = 1; break; case 4: F.bad_sh = 2; break; case 5: F.no_pr = true; break; case 6: F.bad_link = 1; break; case 7: F.bad_val = 1; break; default: break; } bool bad = step >= 1 && step <= 7; g.note("failing step %d, log of %zu", step, F.log.size());
        GLuint a = 0, b = 0; bool f = fatal([&] { if (parts) { bool vf = g.b(); if (vf) a = nx_gl_shader_xcreate_and_compile(GL_VERTEX_SHADER, vs.c_str()); b = nx_gl_shader_xcreate_and_compile(GL_FRAGMENT_SHADER, fs.c_str()); if (!vf) a = nx_gl_shader_xcreate_and_compile(GL_VERTEX_SHADER, vs.c_str()); CHECK(a != b && F.shs.count(a) && F.shs.count(b), "shaders %u %u", a, b); CHECK(F.shs[a].type == GL_VERTEX_SHADER && F.shs[a].src == vs && F.shs[a].ok && F.shs[b].type == GL_FRAGMENT_SHADER && F.shs[b].src == fs && F.shs[b].ok, "shaders differ from those asked for"); p = nx_gl_program_xcreate_and_link(a, b); nx_gl_program_xvalidate(p); } else p = nx_gl_program_from_vf_shaders(vs.c_str(), fs.c_str()); }, &m);
        CHECK(F.misuse.empty(), "%s", F.misuse.c_str()); CHECK(f == bad, bad ? "failure at step %d is not reported" : "fatal error without failure (step %d)", step);
        if (bad) { if (step == 3 || step == 4 || step >= 6) CHECK(m.find(F.log) != std::string::npos, "the message does not hold the log of %zu characters", F.log.size()); if (!parts && step >= 1 && step <= 4) CHECK(m.find(step == 1 || step == 3 ? "vertex shader" : "fragment shader") != std::string::npos, "message does not name the shader: %s", m.substr(0, 80).c_str()); g.nontrivial(); return; }
        CHECK(F.prs.size() == 1 && F.prs.count(p), "%zu programs", F.prs.size()); Pr &x = F.prs[p]; CHECK(x.linked && x.ok && x.validated && x.vok && x.sh.size() == 2, "program is not complete"); std::map<GLenum, std::string> src; for (GLuint s : x.sh) { src[F.shs[s].type] = F.shs[s].src; CHECK(F.shs[s].dead == !parts, parts ? "shader deleted" : "shader left behind"); } CHECK(F.shs.size() == 2 && src[GL_VERTEX_SHADER] == vs && src[GL_FRAGMENT_SHADER] == fs, "sources differ"); g.nontrivial(!vs.empty() && !fs.empty());
}
FACET(messages, 1.0, "version information and OpenGL debug messages of any severity and text under any verbosity, switched on and off: printed exactly when the matching log level is, as given; nontrivial: printed")
{
        reset(g); int verb = (int)g.u(0, 3); std::string t = g.str(200, "abc %dsn\\XYZ0"); F.version = "V" + g.str(20, "ab%s1."); F.sl = "S" + g.str(20, "ab%d2."); int k = (int)g.u(0, 4); bool off = g.b(0.2); const GLenum sev[5] = {GL_DEBUG_SEVERITY_NOTIFICATION, GL_DEBUG_SEVERITY_LOW, GL_DEBUG_SEVERITY_MEDIUM, GL_DEBUG_SEVERITY_HIGH, 0x1234}; bool info = g.b(0.3);
        nx_log_verbosity((NXLogVerbosity)verb); std::string out = err_of([&] { nx_gl_debug_enable(); if (off) nx_gl_debug_disable(); if (info) nx_gl_info(); else if (F.debug && F.cb) F.cb(GL_DEBUG_SOURCE_API, GL_DEBUG_TYPE_OTHER, (GLuint)g.u(0, 99), sev[k], (GLsizei)t.size(), t.c_str(), F.cbdata); }); nx_log_verbosity(NX_LOG_SILENT);
        CHECK(F.misuse.empty(), "%s", F.misuse.c_str()); CHECK(F.debug == !off && (off || F.cb), "debug output is %d after %s", F.debug, off ? "disable" : "enable"); int lev = info ? 0 : k > 3 ? 3 : k; bool due = lev >= verb && (info || !off); g.note("verbosity %d severity %d off %d", verb, k, off);
        if (!due) { CHECK(out.empty(), "printed %s", show(out.substr(0, 60)).c_str()); return; } if (info) CHECK(out.find(F.version) != std::string::npos && out.find(F.sl) != std::string::npos, "version information missing in %s", show(out.substr(0, 90)).c_str()); else { CHECK(out.find(t) != std::string::npos, "message missing in %s", show(out.substr(0, 90)).c_str()); const char *tags[4] = {"[I]", "[L]", "[W]", "[E]"}; CHECK(out.find(tags[lev]) == 0, "message has the wrong level: %s", show(out.substr(0, 60)).c_str()); } CHECK(out.find("NXGL") != std::string::npos, "tag missing"); g.nontrivial();
}
