// flavours: rgb
// I01: saving and reloading images
#include "images.hpp"

namespace
{
void size_of(pbt::Gen& g, int& w, int& h)
{
    if(g.p(1, 150)) // up to the widest every format can store
    {
        w = (int)g.i(1000, 65500);
        h = (int)g.size(1, 3);
        if(g.b())
            std::swap(w, h);
        return;
    }
    if(g.p(1, 40))
    {
        w = (int)g.size(1, 1500);
        h = (int)g.size(1, 40);
        if(g.b())
            std::swap(w, h);
        return;
    }
    w = (int)g.size(1, 48);
    h = (int)g.size(1, 48);
}
std::string describe(const Image& m, const std::string& ext) { return pbt::str(m.w, "x", m.h, " ", ext); }
}

PROP_CPU(lossless, 40000, 600000, "any pixels up to 48x48 (rarely up to 65500 wide or high) in every lossless format: validity, dimensions and pixels read back, and an independent decoder's view of the file; non-trivial: at least 4 pixels", 25)
{
    int w, h;
    size_of(g, w, h);
    std::string ext = g.pick<std::string>(std::vector<std::string>{"ppm", "bmp", "tga", "png", "tif", "tiff"});
    Image m = gen_image(g, w, h, true);
    g.note(describe(m, ext), " first pixel ", m.px[0]);
    g.nontrivial(w*h>=4);
    std::string path = pbt::scratch()+"/image."+ext;
    if(g.p(1, 4)) // an older, larger file is replaced
        pbt::write_file(path, std::string(20000, 'x'));
    // alpha is not stored: what was written reads as opaque
    CHECK(img_write(path.c_str(), ext.c_str(), w, h, m.px.data()), "writing ", describe(m, ext), " failed");
    CHECK(img_valid(path.c_str(), ext.c_str()), describe(m, ext), " is not valid");
    int rw = -1, rh = -1;
    CHECK(img_dimensions(path.c_str(), ext.c_str(), &rw, &rh), "the dimensions of ", describe(m, ext), " cannot be read");
    CHECK(rw == w && rh == h, describe(m, ext), " is ", rw, "x", rh, " when read");
    Pixels p((size_t)w*h);
    CHECK(img_read8(path.c_str(), ext.c_str(), p.p), describe(m, ext), " cannot be read");
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            uint32_t e = m.at(x, y)|255u, a = p.p[(size_t)y*w+x];
            CHECK(a == e, describe(m, ext), ": pixel ", x, ",", y, " was ", std::hex, e, " and is ", a);
        }
    Image d;
    std::string bad = decode_file(path, ext, d);
    CHECK(bad.empty(), describe(m, ext), " is no proper file: ", bad);
    CHECK(d.w == w && d.h == h, describe(m, ext), " is ", d.w, "x", d.h, " for other programs");
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
            CHECK((d.at(x, y)|255u) == (m.at(x, y)|255u), describe(m, ext), ": other programs see pixel ", x, ",", y, " as ", std::hex, d.at(x, y), " instead of ", m.at(x, y));
}

PROP_CPU(jpeg, 6000, 100000, "smooth images up to 48x48 saved as JPEG; non-trivial: at least 4 pixels", 25)
{
    int w, h;
    size_of(g, w, h);
    std::string ext = g.b()?"jpg":"jpeg";
    Image m = gen_smooth(g, w, h, g.p(1, 4));
    g.note(describe(m, ext), " first pixel ", m.px[0]);
    g.nontrivial(w*h>=4);
    std::string path = pbt::scratch()+"/image."+ext;
    CHECK(img_write(path.c_str(), ext.c_str(), w, h, m.px.data()), "writing ", describe(m, ext), " failed");
    CHECK(img_valid(path.c_str(), ext.c_str()), describe(m, ext), " is not valid");
    int rw = -1, rh = -1;
    CHECK(img_dimensions(path.c_str(), ext.c_str(), &rw, &rh), "the dimensions of ", describe(m, ext), " cannot be read");
    CHECK(rw == w && rh == h, describe(m, ext), " is ", rw, "x", rh, " when read");
    Pixels p((size_t)w*h);
    CHECK(img_read8(path.c_str(), ext.c_str(), p.p), describe(m, ext), " cannot be read");
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            uint32_t e = m.at(x, y), a = p.p[(size_t)y*w+x];
            int off = std::max({std::abs(red(a)-red(e)), std::abs(green(a)-green(e)), std::abs(blue(a)-blue(e))});
            CHECK(off<=8 && alpha(a) == 255, describe(m, ext), ": pixel ", x, ",", y, " was ", std::hex, e, " and is ", a);
        }
}

PROP_CPU(unwritable, 2000, 20000, "saving where no file can be created, or in a format that is not supported; non-trivial: every case", 25)
{
    Image m = gen_image(g, (int)g.size(1, 4), (int)g.size(1, 4), false);
    std::string ext = g.pick(extensions());
    bool folder = g.b();
    std::string path = pbt::scratch()+(folder?"":"/no/such/folder/image."+ext);
    g.nontrivial();
    if(g.p(1, 3))
    {
        std::string other = g.ident(4);
        if(std::find(extensions().begin(), extensions().end(), other) != extensions().end())
            g.discard();
        g.note("extension ", other);
        std::string file = pbt::scratch()+"/file";
        CHECK(!img_write(file.c_str(), other.c_str(), m.w, m.h, m.px.data()), "writing ", other, " succeeded");
        CHECK(!img_supported(other.c_str()), other, " is supported");
        int w, h;
        CHECK(!img_valid(file.c_str(), other.c_str()) && !img_dimensions(file.c_str(), other.c_str(), &w, &h), other, " is valid");
        return;
    }
    g.note(path, " ", ext);
    CHECK(img_supported(ext.c_str()), ext, " is not supported");
    CHECK(!img_write(path.c_str(), ext.c_str(), m.w, m.h, m.px.data()), "writing ", ext, " to ", folder?"a folder":"a folder that does not exist", " succeeded");
}
