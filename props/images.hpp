// Encoders and decoders of image formats written from their definitions, to judge the library's own.
#ifndef VERIF_IMAGES_HPP
#define VERIF_IMAGES_HPP
#include "pbt.hpp"
#include <algorithm>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <memory>
extern "C" {
#include "utility/imageio/imageio.h"
}
#include <jpeglib.h>
#include <png.h>
#include <tiffio.h>

namespace
{
struct Image
{
    int w = 0, h = 0;
    std::vector<uint32_t> px; // blue<<24 | green<<16 | red<<8 | alpha, as the library packs
    uint32_t& at(int x, int y) { return px[(size_t)y*w+x]; }
};
inline uint32_t pack(int r, int g, int b, int a = 255)
{
    return (uint32_t)b << 24|(uint32_t)g << 16|(uint32_t)r << 8|(uint32_t)a;
}
inline int red(uint32_t p) { return (p >> 8)&255; }
inline int green(uint32_t p) { return (p >> 16)&255; }
inline int blue(uint32_t p) { return p >> 24; }
inline int alpha(uint32_t p) { return p&255; }
struct Lcg
{
    uint64_t s;
    explicit Lcg(uint64_t seed) : s(seed*2862933555777941757ull+3037000493ull) { next(); }
    uint32_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return (uint32_t)(s >> 20);
    }
    int below(int n) { return (int)(next()%(unsigned)n); }
};
// random pixels, gradients, flat runs; few choices so that the record stays short
inline Image gen_image(pbt::Gen& g, int w, int h, bool with_alpha)
{
    Image m;
    m.w = w;
    m.h = h;
    m.px.resize((size_t)w*h);
    int style = (int)g.draw(3);
    Lcg r(1+g.draw(0xffffff));
    uint32_t last = pack(r.below(256), r.below(256), r.below(256), r.below(256));
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            uint32_t p;
            switch(style)
            {
                case 0: p = pack(r.below(256), r.below(256), r.below(256), r.below(256)); break;
                case 1: // runs
                    if(r.below(5) == 0)
                        last = pack(r.below(256), r.below(256), r.below(256), r.below(256));
                    p = last;
                    break;
                case 2: p = pack((x*37+y)&255, (y*53+x*3)&255, (x*y*7+11)&255, (x+y*5)&255); break;
                default: // extremes
                    p = pack(r.below(2)*255, r.below(2)*255, r.below(2)*255, r.below(2)*255);
                    break;
            }
            m.at(x, y) = with_alpha?p:(p|255u);
        }
    return m;
}
inline std::string u16(unsigned v) { return std::string({(char)(v&255), (char)(v >> 8&255)}); }
inline std::string u32(uint32_t v) { return u16(v&0xffff)+u16(v >> 16); }
inline unsigned rd16(const std::string& s, size_t o) { return o+2<=s.size()?(uint8_t)s[o]|(uint8_t)s[o+1] << 8:0; }
inline uint32_t rd32(const std::string& s, size_t o) { return rd16(s, o)|(uint32_t)rd16(s, o+2) << 16; }

// ----------------------------------------------------------------- decoders
// each returns an empty text and fills m, or says what is wrong with the file
inline std::string decode_ppm(const std::string& s, Image& m)
{
    int max = 0, used = 0;
    if(std::sscanf(s.c_str(), "P6 %d %d %d%n", &m.w, &m.h, &max, &used)<3 || max != 255)
        return "no P6 header";
    used++;
    if((long)s.size()-used != 3L*m.w*m.h)
        return pbt::str("the body of a ", m.w, "x", m.h, " image has ", (long)s.size()-used, " bytes");
    m.px.clear();
    for(size_t i = 0; i<(size_t)m.w*m.h; i++)
        m.px.push_back(pack((uint8_t)s[used+3*i], (uint8_t)s[used+3*i+1], (uint8_t)s[used+3*i+2]));
    return "";
}
inline std::string decode_bmp(const std::string& s, Image& m)
{
    if(s.size()<54 || s[0] != 'B' || s[1] != 'M')
        return "no BMP header";
    int off = (int)rd32(s, 10), h = (int)rd32(s, 22), bpp = (int)rd16(s, 28);
    m.w = (int)rd32(s, 18);
    m.h = std::abs(h);
    if(rd32(s, 30) != 0 || bpp != 24)
        return "not 24 bits without compression";
    if(rd16(s, 26) != 1)
        return "planes is not one";
    size_t row = ((size_t)m.w*3+3)/4*4;
    if(s.size() != off+row*m.h)
        return pbt::str("a ", m.w, "x", m.h, " image takes ", off+row*m.h, " bytes, the file has ", s.size());
    m.px.resize((size_t)m.w*m.h);
    for(int y = 0; y<m.h; y++)
        for(int x = 0; x<m.w; x++)
        {
            size_t o = off+row*(h<0?y:m.h-1-y)+3*x;
            m.at(x, y) = pack((uint8_t)s[o+2], (uint8_t)s[o+1], (uint8_t)s[o]);
        }
    return "";
}
inline std::string decode_tga(const std::string& s, Image& m)
{
    if(s.size()<18 || s[2] != 2 || s[1] != 0)
        return "no header of an uncompressed colour TGA";
    m.w = (int)rd16(s, 12);
    m.h = (int)rd16(s, 14);
    if(s[16] != 24)
        return "not 24 bits";
    size_t o = 18+(uint8_t)s[0];
    if(s.size()<o+(size_t)3*m.w*m.h)
        return "the body is too short";
    m.px.resize((size_t)m.w*m.h);
    for(int y = 0; y<m.h; y++)
        for(int x = 0; x<m.w; x++, o += 3)
            m.at(x, (s[17]&0x20)?y:m.h-1-y) = pack((uint8_t)s[o+2], (uint8_t)s[o+1], (uint8_t)s[o]);
    return "";
}
inline std::string decode_png(const std::string& path, Image& m)
{
    png_image p;
    memset(&p, 0, sizeof(p));
    p.version = PNG_IMAGE_VERSION;
    if(!png_image_begin_read_from_file(&p, path.c_str()))
        return std::string("libpng refuses it: ")+p.message;
    p.format = PNG_FORMAT_RGBA;
    m.w = (int)p.width;
    m.h = (int)p.height;
    std::vector<uint8_t> buf(PNG_IMAGE_SIZE(p));
    if(!png_image_finish_read(&p, NULL, buf.data(), 0, NULL))
        return std::string("libpng refuses it: ")+p.message;
    m.px.clear();
    for(size_t i = 0; i<(size_t)m.w*m.h; i++)
        m.px.push_back(pack(buf[4*i], buf[4*i+1], buf[4*i+2], buf[4*i+3]));
    return "";
}
inline std::string decode_tiff(const std::string& path, Image& m)
{
    TIFFSetWarningHandler(NULL);
    TIFFSetErrorHandler(NULL);
    TIFF* t = TIFFOpen(path.c_str(), "r");
    if(t == NULL)
        return "libtiff refuses it";
    uint32_t w = 0, h = 0;
    TIFFGetField(t, TIFFTAG_IMAGEWIDTH, &w);
    TIFFGetField(t, TIFFTAG_IMAGELENGTH, &h);
    std::vector<uint32_t> buf((size_t)w*h+1);
    bool ok = TIFFReadRGBAImageOriented(t, w, h, buf.data(), ORIENTATION_TOPLEFT, 1);
    TIFFClose(t);
    if(!ok)
        return "libtiff cannot decode it";
    m.w = (int)w;
    m.h = (int)h;
    m.px.clear();
    for(size_t i = 0; i<(size_t)w*h; i++)
        m.px.push_back(pack(TIFFGetR(buf[i]), TIFFGetG(buf[i]), TIFFGetB(buf[i]), TIFFGetA(buf[i])));
    return "";
}
inline std::string decode_file(const std::string& path, const std::string& ext, Image& m)
{
    if(ext == "png")
        return decode_png(path, m);
    if(ext == "tif" || ext == "tiff")
        return decode_tiff(path, m);
    bool ok = false;
    std::string s = pbt::read_file(path, &ok);
    if(!ok)
        return "there is no such file";
    return ext == "bmp"?decode_bmp(s, m):ext == "tga"?decode_tga(s, m):decode_ppm(s, m);
}

// ----------------------------------------------------------------- encoders
// a file of the format together with the pixels it stands for. tol: how far a
// component may be off because the format leaves the rounding to the reader.
struct Encoded
{
    std::string bytes, what;
    Image m;
    int tol = 0;
    size_t body = 0; // where the pixels start, 0 when unknown
};
inline Encoded encode_bmp(pbt::Gen& g, int w, int h)
{
    Encoded e;
    bool deep = g.b(), flip = g.b();
    e.m = gen_image(g, w, h, deep);
    int dib = g.pick({40, 108, 124}), gap = g.p(1, 6)?(int)g.draw(600)*4:(int)g.draw(2)*4;
    size_t bpp = deep?4:3, row = ((size_t)w*bpp+3)/4*4, off = 14+(size_t)dib+gap;
    e.what = pbt::str("bmp ", deep?32:24, " bits ", flip?"top first":"bottom first", " dib ", dib, " gap ", gap);
    std::string& s = e.bytes;
    s = "BM"+u32((uint32_t)(off+row*h))+u32(0)+u32((uint32_t)off);
    s += u32(dib)+u32(w)+u32(flip?(uint32_t)-h:(uint32_t)h)+u16(1)+u16(deep?32:24)+u32(0);
    s += u32(g.b()?(uint32_t)(row*h):0)+u32(2835)+u32(2835)+u32(0)+u32(0);
    s.resize(off, 0);
    e.body = off;
    Lcg pad(1+g.draw(1000));
    for(int k = 0; k<h; k++)
    {
        int y = flip?k:h-1-k;
        size_t start = s.size();
        for(int x = 0; x<w; x++)
        {
            uint32_t p = e.m.at(x, y);
            s += (char)blue(p);
            s += (char)green(p);
            s += (char)red(p);
            if(deep)
                s += (char)alpha(p);
        }
        while(s.size()-start<row)
            s += (char)pad.next();
    }
    return e;
}
inline Encoded encode_tga(pbt::Gen& g, int w, int h)
{
    Encoded e;
    int bits = g.pick({24, 32, 16, 15});
    bool rle = g.b(), top = g.b(), cross = g.p(1, 3);
    int id = g.p(1, 3)?(int)g.size(0, 255):0, style = (int)g.draw(3);
    e.m = gen_image(g, w, h, bits == 32);
    e.what = pbt::str("tga ", bits, " bits ", rle?"packets":"raw", top?" top first":" bottom first", " id ", id, cross?" packets across rows":"");
    std::string& s = e.bytes;
    s = std::string({(char)id, 0, (char)(rle?10:2)})+std::string(5, 0)+u16((unsigned)g.draw(3))+u16((unsigned)g.draw(3))+u16(w)+u16(h);
    s += (char)bits;
    s += (char)((top?0x20:0)|(bits == 32?8:0));
    s += std::string(id, 'x');
    e.body = s.size();
    if(bits<24)
        e.tol = 8;
    std::vector<std::string> px;
    for(int k = 0; k<h; k++)
        for(int x = 0; x<w; x++)
        {
            uint32_t& p = e.m.at(x, top?k:h-1-k);
            if(bits<24)
            {
                unsigned v = (unsigned)(red(p) >> 3) << 10|(unsigned)(green(p) >> 3) << 5|(unsigned)(blue(p) >> 3);
                p = pack(red(p) >> 3 << 3, green(p) >> 3 << 3, blue(p) >> 3 << 3);
                px.push_back(u16(v));
            }
            else
            {
                std::string t({(char)blue(p), (char)green(p), (char)red(p)});
                if(bits == 32)
                    t += (char)alpha(p);
                px.push_back(t);
            }
        }
    if(!rle)
    {
        for(const std::string& t : px)
            s += t;
        return e;
    }
    Lcg r(1+g.draw(0xffff));
    for(size_t i = 0; i<px.size();)
    {
        size_t room = std::min<size_t>(128, cross?px.size()-i:(i/w+1)*w-i);
        size_t same = 1;
        while(same<room && px[i+same] == px[i])
            same++;
        if((style == 0 && same>1) || (style == 1 && r.below(2)) || style == 3)
        {
            size_t n = style == 0?same:1+r.below((int)same);
            s += (char)(0x80|(n-1));
            s += px[i];
            i += n;
        }
        else
        {
            size_t n = 1+r.below((int)room);
            s += (char)(n-1);
            for(size_t k = 0; k<n; k++)
                s += px[i+k];
            i += n;
        }
    }
    return e;
}
inline Encoded encode_ppm(pbt::Gen& g, int w, int h)
{
    Encoded e;
    bool text = g.b();
    int max = g.p(1, 2)?255:(int)g.pick({1, 15, 100, 254, 256, 1023, 4095, 65535, 0}); // 0: any
    if(max == 0)
        max = (int)g.size(1, 65535);
    e.m = gen_image(g, w, h, false);
    e.tol = 1;
    bool comments = g.p(1, 2);
    int sep = (int)g.draw(3);
    Lcg r(1+g.draw(0xffff));
    e.what = pbt::str("ppm ", text?"P3":"P6", " max ", max, comments?" with comments":"", " separators ", sep);
    auto space = [&]() -> std::string
    {
        std::string t = sep == 0?" ":sep == 1?"\n":sep == 2?"\t":"  \r\n ";
        if(comments && r.below(2))
            t += r.below(2)?"# made by a test 12 34\n":"#\n";
        return t;
    };
    std::string& s = e.bytes;
    s = text?"P3":"P6";
    s += space()+std::to_string(w)+space()+std::to_string(h)+space()+std::to_string(max);
    s += text?space():std::string(sep == 0?" ":"\n");
    e.body = s.size();
    for(uint32_t& p : e.m.px)
    {
        int v[3] = {red(p), green(p), blue(p)}, o[3];
        for(int k = 0; k<3; k++)
        {
            int c = max == 255?v[k]:(int)((long)r.below(65536)*(max+1)/65536);
            o[k] = (int)((long)c*255/max);
            if(text)
                s += std::to_string(c)+(k<2?" ":sep == 1?"\n":"  ");
            else if(max<256)
                s += (char)c;
            else
                s += std::string({(char)(c >> 8), (char)(c&255)});
        }
        p = pack(o[0], o[1], o[2]);
    }
    if(max == 255)
        e.tol = 0;
    return e;
}

// the remaining encoders write through the libraries, straight into a file
inline Encoded encode_png(pbt::Gen& g, int w, int h, const std::string& path)
{
    Encoded e;
    static const struct { int type, depth; } K[] = {{PNG_COLOR_TYPE_RGB, 8}, {PNG_COLOR_TYPE_RGB_ALPHA, 8}, {PNG_COLOR_TYPE_GRAY, 8}, {PNG_COLOR_TYPE_GRAY_ALPHA, 8},
        {PNG_COLOR_TYPE_PALETTE, 8}, {PNG_COLOR_TYPE_RGB, 16}, {PNG_COLOR_TYPE_RGB_ALPHA, 16}, {PNG_COLOR_TYPE_GRAY, 16}, {PNG_COLOR_TYPE_GRAY_ALPHA, 16},
        {PNG_COLOR_TYPE_GRAY, 1}, {PNG_COLOR_TYPE_GRAY, 2}, {PNG_COLOR_TYPE_GRAY, 4}, {PNG_COLOR_TYPE_PALETTE, 1}, {PNG_COLOR_TYPE_PALETTE, 2}, {PNG_COLOR_TYPE_PALETTE, 4}};
    int k = (int)g.draw(14), type = K[k].type, depth = K[k].depth;
    bool interlace = g.p(1, 3), trns = type != PNG_COLOR_TYPE_RGB_ALPHA && type != PNG_COLOR_TYPE_GRAY_ALPHA && g.p(1, 3);
    e.m = gen_image(g, w, h, true);
    e.what = pbt::str("png type ", type, " depth ", depth, interlace?" interlaced":"", trns?" with transparent colour":"");
    int channels = type == PNG_COLOR_TYPE_RGB?3:type == PNG_COLOR_TYPE_RGB_ALPHA?4:type == PNG_COLOR_TYPE_GRAY_ALPHA?2:1;
    bool grey = type == PNG_COLOR_TYPE_GRAY || type == PNG_COLOR_TYPE_GRAY_ALPHA, palette = type == PNG_COLOR_TYPE_PALETTE;
    Lcg r(1+g.draw(0xffff));
    int levels = depth<8?1 << depth:256;
    png_color pal[256];
    png_byte clear[256];
    for(int i = 0; i<256; i++)
    {
        pal[i].red = (png_byte)r.next();
        pal[i].green = (png_byte)r.next();
        pal[i].blue = (png_byte)r.next();
        clear[i] = (png_byte)r.next();
    }
    const uint32_t key = e.m.px[0]; // the transparent colour: that of the first pixel
    std::vector<std::vector<uint8_t>> rows(h);
    for(int y = 0; y<h; y++)
    {
        std::vector<uint8_t>& o = rows[y];
        o.assign(((size_t)w*channels*depth+7)/8, 0);
        for(int x = 0; x<w; x++)
        {
            uint32_t& p = e.m.at(x, y);
            int v = red(p), a = alpha(p);
            if(depth<8 || palette)
            {
                v %= levels;
                int bit = x*depth;
                o[bit/8] |= (uint8_t)(v << (8-depth-bit%8));
                int kv = red(key)%levels;
                if(palette)
                    p = pack(pal[v].red, pal[v].green, pal[v].blue, trns?clear[v]:255);
                else
                {
                    bool t = trns && v == kv;
                    v = v*255/(levels-1);
                    p = pack(v, v, v, t?0:255);
                }
                continue;
            }
            int c[4] = {red(p), grey?a:green(p), blue(p), a}, step = depth/8;
            for(int i = 0; i<channels; i++)
            {
                o[(size_t)(x*channels+i)*step] = (uint8_t)c[i];
                if(step == 2)
                    o[(size_t)(x*channels+i)*step+1] = (uint8_t)c[i]; // v*257
            }
            bool t = trns && (grey?red(p) == red(key):(p|255u) == (key|255u));
            int oa = type == PNG_COLOR_TYPE_RGB_ALPHA || type == PNG_COLOR_TYPE_GRAY_ALPHA?a:t?0:255;
            p = grey?pack(v, v, v, oa):pack(red(p), green(p), blue(p), oa);
        }
    }
    FILE* f = fopen(path.c_str(), "wb");
    png_structp png = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
    png_infop info = png_create_info_struct(png);
    png_init_io(png, f);
    png_set_compression_level(png, 1);
    png_set_IHDR(png, info, w, h, depth, type, interlace?PNG_INTERLACE_ADAM7:PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if(palette)
        png_set_PLTE(png, info, pal, levels);
    png_color_16 kc;
    memset(&kc, 0, sizeof(kc));
    if(trns)
    {
        int m = depth == 16?257:1;
        kc.red = (png_uint_16)(red(key)*m);
        kc.green = (png_uint_16)(green(key)*m);
        kc.blue = (png_uint_16)(blue(key)*m);
        kc.gray = (png_uint_16)(depth<8?red(key)%levels:red(key)*m);
        png_set_tRNS(png, info, clear, levels, &kc);
    }
    std::vector<png_bytep> ptr;
    for(auto& o : rows)
        ptr.push_back(o.data());
    png_set_rows(png, info, ptr.data());
    png_write_png(png, info, PNG_TRANSFORM_IDENTITY, NULL);
    png_destroy_write_struct(&png, &info);
    fclose(f);
    return e;
}
// smooth, so that the compression keeps it close
inline Image gen_smooth(pbt::Gen& g, int w, int h, bool grey)
{
    Image m;
    m.w = w;
    m.h = h;
    m.px.resize((size_t)w*h);
    double a[3], b[3], c[3];
    for(int k = 0; k<3; k++)
    {
        a[k] = (double)g.i(64, 190);
        b[k] = (double)g.i(-10, 10)/10.;
        c[k] = (double)g.i(-10, 10)/10.;
    }
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            int v[3];
            for(int k = 0; k<3; k++)
                v[k] = (int)std::min(255., std::max(0., a[k]+30*std::sin(0.02*(b[k]*x+c[k]*y))));
            m.at(x, y) = grey?pack(v[0], v[0], v[0]):pack(v[0], v[1], v[2]);
        }
    return m;
}
inline Encoded encode_jpg(pbt::Gen& g, int w, int h, const std::string& path)
{
    Encoded e;
    bool grey = g.p(1, 3), progressive = g.p(1, 3), full = g.b(), restart = g.p(1, 4);
    e.m = gen_smooth(g, w, h, grey);
    e.tol = 8;
    e.what = pbt::str("jpg ", grey?"grey":"colour", progressive?" progressive":"", full?" 4:4:4":" 4:2:0", restart?" with restarts":"");
    FILE* f = fopen(path.c_str(), "wb");
    jpeg_compress_struct c;
    jpeg_error_mgr err;
    c.err = jpeg_std_error(&err);
    jpeg_create_compress(&c);
    jpeg_stdio_dest(&c, f);
    c.image_width = w;
    c.image_height = h;
    c.input_components = grey?1:3;
    c.in_color_space = grey?JCS_GRAYSCALE:JCS_RGB;
    jpeg_set_defaults(&c);
    jpeg_set_quality(&c, 100, 1);
    if(full && !grey)
        c.comp_info[0].h_samp_factor = c.comp_info[0].v_samp_factor = 1;
    if(progressive)
        jpeg_simple_progression(&c);
    if(restart)
        c.restart_interval = 1+g.draw(4);
    jpeg_start_compress(&c, 1);
    std::vector<uint8_t> row((size_t)w*3);
    while(c.next_scanline<c.image_height)
    {
        for(int x = 0; x<w; x++)
        {
            uint32_t p = e.m.at(x, (int)c.next_scanline);
            if(grey)
                row[x] = (uint8_t)red(p);
            else
            {
                row[3*x] = (uint8_t)red(p);
                row[3*x+1] = (uint8_t)green(p);
                row[3*x+2] = (uint8_t)blue(p);
            }
        }
        JSAMPROW r = row.data();
        jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c);
    jpeg_destroy_compress(&c);
    fclose(f);
    return e;
}
inline Encoded encode_tiff(pbt::Gen& g, int w, int h, const std::string& path)
{
    Encoded e;
    bool deep = g.p(1, 3), planar = g.p(1, 4), strips = g.b();
    bool below = g.p(1, 4), big = g.p(1, 4), words = g.p(1, 5);
    int comp = g.pick({(int)COMPRESSION_NONE, (int)COMPRESSION_LZW, (int)COMPRESSION_ADOBE_DEFLATE, (int)COMPRESSION_PACKBITS});
    e.m = gen_image(g, w, h, deep);
    int rps = strips?(int)g.size(1, h):h;
    e.what = pbt::str("tiff ", deep?"RGBA":"RGB", words?" 16 bits":"", planar?" planes":"", below?" bottom first":"", big?" big endian":"", " compression ", comp, " rows per strip ", rps);
    TIFF* t = TIFFOpen(path.c_str(), big?"wb":"wl");
    int ch = deep?4:3;
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w);
    TIFFSetField(t, TIFFTAG_IMAGELENGTH, h);
    TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, ch);
    TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, words?16:8);
    TIFFSetField(t, TIFFTAG_ORIENTATION, below?ORIENTATION_BOTLEFT:ORIENTATION_TOPLEFT);
    TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar?PLANARCONFIG_SEPARATE:PLANARCONFIG_CONTIG);
    TIFFSetField(t, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
    TIFFSetField(t, TIFFTAG_COMPRESSION, comp);
    TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps);
    if(deep)
    {
        uint16_t kind = EXTRASAMPLE_ASSOCALPHA;
        TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &kind);
    }
    int step = words?2:1;
    std::vector<uint8_t> row((size_t)w*ch*step);
    for(int plane = 0; plane<(planar?ch:1); plane++)
        for(int k = 0; k<h; k++)
        {
            for(int x = 0; x<w; x++)
            {
                uint32_t p = e.m.at(x, below?h-1-k:k);
                int c[4] = {red(p), green(p), blue(p), alpha(p)};
                for(int i = 0; i<(planar?1:ch); i++)
                    for(int b = 0; b<step; b++)
                        row[((size_t)x*(planar?1:ch)+i)*step+b] = (uint8_t)c[planar?plane:i];
            }
            TIFFWriteScanline(t, row.data(), k, (uint16_t)plane);
        }
    TIFFClose(t);
    return e;
}
// any format; the file lies at path (named by the extension)
inline Encoded encode(pbt::Gen& g, const std::string& ext, int w, int h, const std::string& path)
{
    Encoded e = ext == "bmp"?encode_bmp(g, w, h):ext == "tga"?encode_tga(g, w, h):ext == "ppm"?encode_ppm(g, w, h):
        ext == "png"?encode_png(g, w, h, path):ext == "tif" || ext == "tiff"?encode_tiff(g, w, h, path):encode_jpg(g, w, h, path);
    if(e.bytes.empty())
    {
        bool ok;
        e.bytes = pbt::read_file(path, &ok);
    }
    else
        pbt::write_file(path, e.bytes);
    return e;
}
// a buffer of exactly as many pixels as asked for, guarded by the sanitizer
struct Pixels
{
    uint32_t* p;
    size_t n;
    explicit Pixels(size_t n) : p((uint32_t*)malloc(n*4+(n == 0))), n(n) { }
    ~Pixels() { free(p); }
    Pixels(const Pixels&) = delete;
};
inline const std::vector<std::string>& extensions()
{
    static const std::vector<std::string> E = {"ppm", "bmp", "tga", "png", "jpg", "tif", "jpeg", "tiff"};
    return E;
}
}
#endif
