// Independent image file encoders/decoders for the image file checks (libpng/libjpeg used directly).
#pragma once
#include "img.hpp"
#include <png.h>
#include <jpeglib.h>
#include <csetjmp>

namespace imf {

// ---- PNG ----
struct PngSpec {
        int w = 1, h = 1, color = PNG_COLOR_TYPE_GRAY, depth = 8; bool interlace = false, trns = false;
        std::vector<unsigned> s;                         // samples (nch per pixel, palette: index)
        std::vector<std::array<unsigned, 4>> pal;        // palette with alpha
        std::array<unsigned, 3> key{};                   // transparent colour
        int nch() const { return color == PNG_COLOR_TYPE_GRAY || color == PNG_COLOR_TYPE_PALETTE ? 1 : color == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : color == PNG_COLOR_TYPE_RGB ? 3 : 4; }
        unsigned to8(unsigned v) const { return depth == 16 ? v >> 8 : v * 255u / ((1u << depth) - 1u); }
        // r g b a of a pixel, in 8 bit
        std::array<unsigned, 4> px(int x, int y) const
        {
                const unsigned *p = &s[((size_t)y * w + x) * nch()];
                switch (color) {
                case PNG_COLOR_TYPE_GRAY: { unsigned v = to8(p[0]); return {v, v, v, trns && p[0] == key[0] ? 0u : 255u}; }
                case PNG_COLOR_TYPE_GRAY_ALPHA: { unsigned v = to8(p[0]); return {v, v, v, to8(p[1])}; }
                case PNG_COLOR_TYPE_PALETTE: return pal[p[0]];
                case PNG_COLOR_TYPE_RGB: return {to8(p[0]), to8(p[1]), to8(p[2]), trns && p[0] == key[0] && p[1] == key[1] && p[2] == key[2] ? 0u : 255u};
                default: return {to8(p[0]), to8(p[1]), to8(p[2]), to8(p[3])};
                }
        }
        bool gray() const { return color == PNG_COLOR_TYPE_GRAY || color == PNG_COLOR_TYPE_GRAY_ALPHA; }
        std::string str() const { return pbt::strf("PNG %dx%d colour type %d depth %d%s%s", w, h, color, depth, interlace ? " interlaced" : "", trns ? " tRNS" : ""); }
};
inline void png_out(png_structp p, png_bytep d, png_size_t n) { ((std::string *)png_get_io_ptr(p))->append((char *)d, n); }
inline void png_nf(png_structp) {}
inline std::string png_encode(const PngSpec &q)
{
        std::string out;
        png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p);
        if (setjmp(png_jmpbuf(p))) { png_destroy_write_struct(&p, &i); pbt::fail("harness: cannot encode %s", q.str().c_str()); }
        png_set_write_fn(p, &out, png_out, png_nf);
        png_set_IHDR(p, i, q.w, q.h, q.depth, q.color, q.interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE);
        png_color pc[256]; png_byte pa[256];
        if (q.color == PNG_COLOR_TYPE_PALETTE) {
                for (size_t k = 0; k < q.pal.size(); ++k) { pc[k].red = q.pal[k][0]; pc[k].green = q.pal[k][1]; pc[k].blue = q.pal[k][2]; pa[k] = q.pal[k][3]; }
                png_set_PLTE(p, i, pc, (int)q.pal.size());
                if (q.trns) png_set_tRNS(p, i, pa, (int)q.pal.size(), 0);
        } else if (q.trns) {
                png_color_16 c; memset(&c, 0, sizeof c); c.gray = q.key[0]; c.red = q.key[0]; c.green = q.key[1]; c.blue = q.key[2];
                png_set_tRNS(p, i, 0, 0, &c);
        }
        png_write_info(p, i);
        size_t rb = ((size_t)q.w * q.nch() * q.depth + 7) / 8;
        std::vector<std::vector<png_byte>> rows(q.h, std::vector<png_byte>(rb));
        std::vector<png_bytep> rp(q.h);
        for (int y = 0; y < q.h; ++y) {
                rp[y] = rows[y].data();
                for (int k = 0; k < q.w * q.nch(); ++k) {
                        unsigned v = q.s[(size_t)y * q.w * q.nch() + k];
                        if (q.depth == 16) { rows[y][2*k] = v >> 8; rows[y][2*k+1] = v & 255; }
                        else if (q.depth == 8) rows[y][k] = v;
                        else { int bit = k * q.depth; rows[y][bit / 8] |= v << (8 - q.depth - bit % 8); }
                }
        }
        png_write_image(p, rp.data()); png_write_end(p, i); png_destroy_write_struct(&p, &i);
        return out;
}
inline PngSpec gen_png(pbt::Gen &g, int maxd = 40)
{
        PngSpec q; q.w = im::gen_dim(g, 1, maxd); q.h = im::gen_dim(g, 1, maxd);
        q.color = g.pick(std::vector<int>{PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB_ALPHA});
        q.depth = q.color == PNG_COLOR_TYPE_GRAY ? g.pick(std::vector<int>{8, 1, 2, 4, 16}) : q.color == PNG_COLOR_TYPE_PALETTE ? g.pick(std::vector<int>{8, 1, 2, 4}) : g.pick(std::vector<int>{8, 16});
        q.interlace = g.b(0.3);
        q.trns = (q.color == PNG_COLOR_TYPE_GRAY || q.color == PNG_COLOR_TYPE_RGB || q.color == PNG_COLOR_TYPE_PALETTE) && g.b(0.4);
        im::Rng r{g.bits64()};
        unsigned mx = (1u << q.depth) - 1; bool few = g.b(0.4);
        if (q.color == PNG_COLOR_TYPE_PALETTE) {
                int n = (int)g.u(1, mx + 1); mx = n - 1;
                for (int k = 0; k < n; ++k) q.pal.push_back({r() & 255u, r() & 255u, r() & 255u, q.trns ? r() & 255u : 255u});
        }
        q.s.resize((size_t)q.w * q.h * q.nch());
        unsigned a = r() % (mx + 1), b = r() % (mx + 1);
        for (auto &v : q.s) v = few ? (r() % 3 ? a : b) : r() % (mx + 1);
        if (q.nch() >= 3 && g.b(0.2)) for (size_t k = 0; k < q.s.size(); k += q.nch()) q.s[k+1] = q.s[k+2] = q.s[k];
        size_t at = (r() % ((size_t)q.w * q.h)) * q.nch();
        for (int c = 0; c < 3 && c < q.nch(); ++c) q.key[c] = q.s[at + c];
        return q;
}
// ---- JPEG ----
struct JErr { jpeg_error_mgr pub; jmp_buf jb; int warn = 0, cut = 0; };
inline void jerr_exit(j_common_ptr c) { longjmp(((JErr *)c->err)->jb, 1); }
inline void jerr_msg(j_common_ptr c, int l) { if (l < 0) { JErr *e = (JErr *)c->err; e->warn++; std::string m = c->err->jpeg_message_table[c->err->msg_code]; if (m.find("premature end") != std::string::npos || m.find("Premature end") != std::string::npos) e->cut++; } }
inline void jerr_out(j_common_ptr) {}
struct JpegSpec { int w = 1, h = 1, nc = 1; int quality = 90; bool progressive = false, rgbspace = false; int hs = 1, vs = 1, restart = 0; bool arith = false; std::vector<uchar> s; };
inline std::string jpeg_encode(const JpegSpec &q)      // nc 1, 3 or 4 (CMYK)
{
        jpeg_compress_struct c; JErr e; c.err = jpeg_std_error(&e.pub); e.pub.error_exit = jerr_exit; e.pub.emit_message = jerr_msg; e.pub.output_message = jerr_out;
        unsigned char *buf = nullptr; unsigned long n = 0;
        if (setjmp(e.jb)) { jpeg_destroy_compress(&c); free(buf); pbt::fail("harness: cannot encode JPEG"); }
        jpeg_create_compress(&c); jpeg_mem_dest(&c, &buf, &n);
        c.image_width = q.w; c.image_height = q.h; c.input_components = q.nc; c.in_color_space = q.nc == 1 ? JCS_GRAYSCALE : q.nc == 3 ? JCS_RGB : JCS_CMYK;
        jpeg_set_defaults(&c); jpeg_set_quality(&c, q.quality, TRUE);
        if (q.rgbspace && q.nc == 3) jpeg_set_colorspace(&c, JCS_RGB);
        if (q.nc >= 3) { c.comp_info[0].h_samp_factor = q.hs; c.comp_info[0].v_samp_factor = q.vs; if (q.rgbspace || q.nc == 4) c.comp_info[0].h_samp_factor = c.comp_info[0].v_samp_factor = 1; }
        if (q.progressive) jpeg_simple_progression(&c);
        c.restart_interval = q.restart;
        jpeg_start_compress(&c, TRUE);
        while (c.next_scanline < c.image_height) { JSAMPROW r = (JSAMPROW)&q.s[(size_t)c.next_scanline * q.w * q.nc]; jpeg_write_scanlines(&c, &r, 1); }
        jpeg_finish_compress(&c); jpeg_destroy_compress(&c);
        std::string out((char *)buf, n); free(buf); return out;
}
struct JpegDec { bool ok = false; int w = 0, h = 0, nc = 0, warn = 0, cut = 0; std::vector<uchar> s; };
inline JpegDec jpeg_decode(const std::string &d, int want)     // want: 1 gray, 3 RGB, 0 as stored (gray or RGB)
{
        JpegDec o; jpeg_decompress_struct c; JErr e; c.err = jpeg_std_error(&e.pub); e.pub.error_exit = jerr_exit; e.pub.emit_message = jerr_msg; e.pub.output_message = jerr_out;
        if (setjmp(e.jb)) { jpeg_destroy_decompress(&c); o.ok = false; return o; }
        jpeg_create_decompress(&c); jpeg_mem_src(&c, (unsigned char *)d.data(), d.size()); jpeg_read_header(&c, TRUE);
        if (want == 1) c.out_color_space = JCS_GRAYSCALE; else if (want == 3 || c.jpeg_color_space != JCS_GRAYSCALE) c.out_color_space = JCS_RGB;
        jpeg_start_decompress(&c); o.w = c.output_width; o.h = c.output_height; o.nc = c.output_components; o.s.resize((size_t)o.w * o.h * o.nc);
        while (c.output_scanline < c.output_height) { JSAMPROW r = &o.s[(size_t)c.output_scanline * o.w * o.nc]; jpeg_read_scanlines(&c, &r, 1); }
        jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); o.warn = e.warn; o.cut = e.cut; o.ok = true; return o;
}
inline JpegSpec gen_jpeg(pbt::Gen &g, int maxd = 48)
{
        JpegSpec q; q.w = im::gen_dim(g, 1, maxd); q.h = im::gen_dim(g, 1, maxd); q.nc = g.b() ? 3 : 1; q.quality = (int)g.u(1, 100);
        q.progressive = g.b(0.3); q.rgbspace = g.b(0.15); q.hs = (int)g.u(1, 2); q.vs = (int)g.u(1, 2); q.restart = g.b(0.2) ? (int)g.u(1, 5) : 0;
        im::Mod m; m.w = q.w; m.h = q.h; m.nc = q.nc; m.v.resize((size_t)q.w * q.h * q.nc); im::fill_pixels(g, m);
        q.s.resize(m.v.size()); for (size_t k = 0; k < m.v.size(); ++k) q.s[k] = (uchar)m.v[k];
        return q;
}
// ---- PNM ----
inline std::string pnm_space(pbt::Gen &g)          // white space and comments between header fields
{
        std::string s(1, g.pick(std::vector<char>{' ', '\n', '\t', '\r'}));
        int n = (int)g.u(0, 3);
        for (int k = 0; k < n; ++k) { if (g.b(0.4)) { s += "\n#" + (g.b(0.1) ? std::string((size_t)g.u(21, 3000), (char)g.u(33, 126)) : g.str(20, "abc 123 #P5\t,.")) + "\n"; } else s += g.pick(std::vector<char>{' ', '\n', '\t', '\r'}); }
        return s;
}
inline std::string pnm_encode(int w, int h, int nc, const std::vector<uchar> &s, int maxval = 255, pbt::Gen *g = nullptr)
{
        std::string o = nc == 1 ? "P5" : "P6";
        o += (g ? pnm_space(*g) : "\n") + std::to_string(w) + (g ? pnm_space(*g) : " ") + std::to_string(h) + (g ? pnm_space(*g) : "\n") + std::to_string(maxval);
        o += g ? g->pick(std::vector<char>{'\n', ' ', '\t', '\r'}) : '\n';
        return o.append((const char *)s.data(), s.size());
}
inline double luma(double r, double g, double b) { return 0.3 * r + 0.59 * g + 0.11 * b; }
inline NXImage *gen_load_target(pbt::Gen &g)       // the 8-bit image object a file is loaded into
{
        if (g.b(0.4)) return nx_image_alloc();
        im::Mod m = im::gen_mod(g, 1, 50, 1, 50, g.b() ? 4 : 1, false);
        return im::make(m, im::gen_stride(g, m), 55);
}

} // namespace imf
