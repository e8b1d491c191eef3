// flavours: rgb
// fuzz: props
// I02: images written by other programs
#include "images.hpp"

PROP_CPU(decode, 60000, 900000, "a file of any supported variant of any format, up to 32x32 (rarely up to 65500 wide or high), made by an independent encoder; non-trivial: at least 4 pixels", 25)
{
    std::string ext = g.pick(extensions());
    int w = (int)g.size(1, 32), h = (int)g.size(1, 32);
    if(g.p(1, 50))
        w = (int)g.size(1, 600);
    else if(g.p(1, 200)) // up to the widest every format can store
    {
        w = (int)g.i(600, 65500);
        h = (int)g.size(1, 3);
        if(g.b())
            std::swap(w, h);
    }
    std::string path = pbt::scratch()+"/image."+ext;
    Encoded e = encode(g, ext, w, h, path);
    g.label(e.what);
    g.note(w, "x", h, " ", e.what);
    g.nontrivial(w*h>=4);
    CHECK(img_valid(path.c_str(), ext.c_str()), w, "x", h, " ", e.what, " is not valid");
    int rw = -1, rh = -1;
    CHECK(img_dimensions(path.c_str(), ext.c_str(), &rw, &rh), "the dimensions of ", e.what, " cannot be read");
    CHECK(rw == w && rh == h, w, "x", h, " ", e.what, " is ", rw, "x", rh, " when read");
    Pixels p((size_t)w*h);
    CHECK(img_read8(path.c_str(), ext.c_str(), p.p), w, "x", h, " ", e.what, " cannot be read");
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            uint32_t q = e.m.at(x, y), a = p.p[(size_t)y*w+x];
            int off = std::max({std::abs(red(a)-red(q)), std::abs(green(a)-green(q)), std::abs(blue(a)-blue(q))});
            CHECK(off<=e.tol && alpha(a) == alpha(q), w, "x", h, " ", e.what, ": pixel ", x, ",", y, " is ", std::hex, a, " instead of ", q);
        }
}

PROP(channels, 100000, 1000000, "rows of packed pixels converted to bytes and back; non-trivial: two pixels or more")
{
    size_t n = (size_t)g.size(0, 40);
    std::vector<uint32_t> px(n);
    for(uint32_t& p : px)
        p = (uint32_t)g.draw(0xffffffffu);
    g.note(n, " pixels");
    g.nontrivial(n>1);
    Pixels in(n), back(n);
    std::copy(px.begin(), px.end(), in.p);
    uint8_t* rgb = (uint8_t*)malloc(3*n+1);
    rgb[3*n] = 77;
    BGRAtoRGB(rgb, in.p, n);
    bool ok = rgb[3*n] == 77;
    for(size_t i = 0; i<n; i++)
        ok = ok && rgb[3*i] == red(px[i]) && rgb[3*i+1] == green(px[i]) && rgb[3*i+2] == blue(px[i]);
    free(rgb);
    CHECK(ok, "the bytes of ", n, " pixels are not red, green, blue");
    for(size_t i = 0; i<n; i++)
        CHECK((int)BGRA_RED(px[i]) == red(px[i]) && (int)BGRA_GREEN(px[i]) == green(px[i]) && (int)BGRA_BLUE(px[i]) == blue(px[i]) && (int)BGRA_ALPHA(px[i]) == alpha(px[i]), "channels of ", px[i]);
}
