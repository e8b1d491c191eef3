// flavours: rgb rel
// T01: texture lookups
#include "common.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_library.hpp"
#include "textures/texture_uniform.hpp"
#include "utility/console.hpp"
#include <memory>

namespace
{
enum Kind { NEAREST, TRI, ELLIPSE };

struct Img
{
    int side;
    std::vector<uint32_t> px;
    int at(int x, int y, int c) const { return (px[(size_t)y*side+x] >> (8*c))&255; }
};

// pyramids of exact means and of means truncated at every level
struct Pyramid
{
    struct Level
    {
        int side;
        std::vector<double> v[2][4];
    };
    std::vector<Level> levels;
    explicit Pyramid(const Img& im)
    {
        Level l;
        l.side = im.side;
        for(int k = 0; k<2; k++)
            for(int c = 0; c<4; c++)
            {
                l.v[k][c].resize(im.px.size());
                for(size_t i = 0; i<im.px.size(); i++)
                    l.v[k][c][i] = (im.px[i] >> (8*c))&255;
            }
        levels.push_back(l);
        while(levels.back().side>1)
        {
            const Level& p = levels.back();
            Level n;
            n.side = p.side/2;
            for(int k = 0; k<2; k++)
                for(int c = 0; c<4; c++)
                {
                    n.v[k][c].resize(n.side*n.side);
                    for(int y = 0; y<n.side; y++)
                        for(int x = 0; x<n.side; x++)
                        {
                            const std::vector<double>& s = p.v[k][c];
                            double a = (s[2*y*p.side+2*x]+s[2*y*p.side+2*x+1]+
                                        s[(2*y+1)*p.side+2*x]+s[(2*y+1)*p.side+2*x+1])/4;
                            n.v[k][c][y*n.side+x] = k?a:floor(a);
                        }
                }
            levels.push_back(n);
        }
    }
    int count() const { return (int)levels.size(); }
    static int wrap(long x, int n)
    {
        long m = x%n;
        return (int)(m<0?m+n:m);
    }
    double texel(int level, int k, int c, long x, long y) const
    {
        const Level& l = levels[level];
        return l.v[k][c][wrap(y, l.side)*l.side+wrap(x, l.side)];
    }
    double bilinear(double u, double v, int level, int k, int c) const
    {
        double x = u*levels[level].side-0.5, y = v*levels[level].side-0.5;
        double fx = floor(x), fy = floor(y), dx = x-fx, dy = y-fy;
        long ix = (long)fx, iy = (long)fy;
        return (texel(level, k, c, ix, iy)*(1-dx)+texel(level, k, c, ix+1, iy)*dx)*(1-dy)+
               (texel(level, k, c, ix, iy+1)*(1-dx)+texel(level, k, c, ix+1, iy+1)*dx)*dy;
    }
    double ewa(double u, double v, double dudx, double dvdx, double dudy, double dvdy, int level, int k, int c) const
    {
        double n = levels[level].side;
        double x = u*n-0.5, y = v*n-0.5;
        dudx *= n;
        dvdx *= n;
        dudy *= n;
        dvdy *= n;
        double a = dvdx*dvdx+dvdy*dvdy+1, b = -2*(dudx*dvdx+dudy*dvdy), cc = dudx*dudx+dudy*dudy+1;
        double f = a*cc-b*b/4;
        a /= f;
        b /= f;
        cc /= f;
        double det = 4*a*cc-b*b;
        double rx = 2/det*sqrt(det*cc), ry = 2/det*sqrt(det*a);
        double sum = 0, w = 0;
        for(long j = (long)ceil(y-ry); j<=(long)floor(y+ry); j++)
            for(long i = (long)ceil(x-rx); i<=(long)floor(x+rx); i++)
            {
                double du = i-x, dv = j-y;
                double r2 = a*du*du+b*du*dv+cc*dv*dv;
                if(r2<1)
                {
                    int idx = (int)(r2*128);
                    double wt = exp(-2.0*idx/127)-exp(-2.0);
                    sum += wt*texel(level, k, c, i, j);
                    w += wt;
                }
            }
        return sum/w;
    }
};

Img gen_img(pbt::Gen& g, int maxlog)
{
    Img im;
    im.side = 1 << g.i(0, maxlog);
    im.px.resize((size_t)im.side*im.side);
    switch(g.draw(4))
    {
        case 0: // constant
        {
            uint32_t v = (uint32_t)g.draw(0xFFFFFFFFu);
            for(auto& p:im.px)
                p = v;
            break;
        }
        case 1: // single bright texel
        {
            im.px[g.draw(im.px.size()-1)] = 0xFFFFFFFFu;
            break;
        }
        case 2: // address coded
            for(int y = 0; y<im.side; y++)
                for(int x = 0; x<im.side; x++)
                    im.px[y*im.side+x] = (uint32_t)(x*255/im.side) | (uint32_t)(y*255/im.side) << 8 |
                                         (uint32_t)(((x^y)&1)*255) << 16 | (uint32_t)((x*7+y*13)&255) << 24;
            break;
        default:
        {
            uint64_t s = g.draw(0xFFFFFFFFu)*2+1;
            for(auto& p:im.px)
            {
                s = s*6364136223846793005ull+1442695040888963407ull;
                p = (uint32_t)(s >> 32);
            }
        }
    }
    return im;
}
std::unique_ptr<ImageMap> make(Kind k, const Img& im)
{
    switch(k)
    {
        case NEAREST: return std::unique_ptr<ImageMap>(new ImageMapUnfiltered(im.px.data(), (uint16_t)im.side));
        case TRI: return std::unique_ptr<ImageMap>(new ImageMapTrilinear(im.px.data(), (uint16_t)im.side));
        default: return std::unique_ptr<ImageMap>(new ImageMapEWA(im.px.data(), (uint16_t)im.side));
    }
}
float gen_uv(pbt::Gen& g, int side)
{
    switch(g.draw(3))
    {
        case 0: return (float)g.i(0, side)/(float)side; // texel border
        case 1: return ((float)g.i(0, side-1)+0.5f)/(float)side; // centre
        default: return g.unit_plain();
    }
}
float gen_d(pbt::Gen& g)
{
    float v;
    switch(g.draw(4))
    {
        case 0: return 0;
        case 1: v = (float)ldexp(1, (int)g.i(0, 10)-8);
            break;
        case 2: v = g.logf(1e-4f, 4.f);
            break;
        default: v = g.unit_plain()*0.3f;
    }
    return g.b()?-v:v;
}
int chan(TexelUnion t, int c) { return (int)((t.bgra_value >> (8*c))&255); }

// expected interval of a channel
void expected(const Pyramid& p, Kind kind, double u, double v, double dudx, double dvdx, double dudy, double dvdy, int c,
              double* lo, double* hi, const char** branch)
{
    double r[2];
    int n = p.count();
    for(int k = 0; k<2; k++)
    {
        if(kind == TRI)
        {
            double w = fmax(fmax(fmax(fabs(dudx), fabs(dvdx)), fmax(fabs(dudy), fabs(dvdy))), 1e-5);
            double l = n-1+log2(w);
            if(l<=0)
            {
                r[k] = p.bilinear(u, v, 0, k, c);
                *branch = "magnified";
            }
            else if(l>=n-1)
            {
                r[k] = p.texel(n-1, k, c, 0, 0);
                *branch = "coarsest";
            }
            else
            {
                int b = (int)l;
                double d = l-b;
                r[k] = p.bilinear(u, v, b, k, c)*(1-d)+p.bilinear(u, v, b+1, k, c)*d;
                *branch = "between levels";
            }
        }
        else
        {
            double m0 = sqrt(dudx*dudx+dvdx*dvdx), m1 = sqrt(dudy*dudy+dvdy*dvdy);
            double a[2] = {dudx, dvdx}, b[2] = {dudy, dvdy};
            if(m0<m1)
            {
                std::swap(m0, m1);
                std::swap(a[0], b[0]);
                std::swap(a[1], b[1]);
            }
            if(m1 == 0)
            {
                r[k] = p.bilinear(u, v, 0, k, c);
                *branch = "no footprint";
                continue;
            }
            *branch = "ellipse";
            if(m1*EWA_MAX_ECCENTRICITY<m0)
            {
                double s = m0/(m1*EWA_MAX_ECCENTRICITY);
                b[0] *= s;
                b[1] *= s;
                m1 *= s;
                *branch = "eccentric";
            }
            double l = fmax(0, n-1+log2(m1));
            if(l>=n-1)
            {
                r[k] = p.texel(n-1, k, c, 0, 0);
                *branch = "coarsest";
                continue;
            }
            int bl = (int)l;
            double d = l-bl;
            r[k] = p.ewa(u, v, a[0], a[1], b[0], b[1], bl, k, c)*(1-d)+
                   p.ewa(u, v, a[0], a[1], b[0], b[1], bl+1, k, c)*d;
        }
    }
    *lo = fmin(r[0], r[1]);
    *hi = fmax(r[0], r[1]);
}
}

void pbt::suite_init() { }

PROP(nearest, 1500000, 20000000, "an image of more than one texel with a coordinate that is not a texel centre")
{
    Img im = gen_img(g, 4);
    std::unique_ptr<ImageMap> m = make(NEAREST, im);
    float u = gen_uv(g, im.side), v = gen_uv(g, im.side);
    double x = (double)u*im.side, y = (double)v*im.side;
    float a = gen_d(g), b = gen_d(g), c = gen_d(g), d = gen_d(g);
    TexelUnion r = m->filter(u, v, a, b, c, d);
    // on a border either neighbour will do
    bool ok = false;
    int xs[2] = {(int)floor(x), (int)ceil(x)-1}, ys[2] = {(int)floor(y), (int)ceil(y)-1};
    for(int i = 0; i<2; i++)
        for(int j = 0; j<2; j++)
            ok = ok || r.bgra_value == im.px[Pyramid::wrap(ys[j], im.side)*im.side+Pyramid::wrap(xs[i], im.side)];
    g.nontrivial(im.side>1 && x-floor(x) != 0.5);
    CHECK(ok, "side ", im.side, " u ", u, " v ", v, ": got ", r.bgra_value);
    // inside the image a border belongs to it
    if(u<1 && v<1 && u>0 && v>0 && floor(x) != x && floor(y) != y)
        CHECK(r.bgra_value == im.px[ys[0]*im.side+xs[0]], "side ", im.side, " u ", u, " v ", v);
}
static void filtered(pbt::Gen& g, Kind kind)
{
    Img im = gen_img(g, 6);
    std::unique_ptr<ImageMap> m = make(kind, im);
    Pyramid p(im);
    int nq = g.i(1, 12);
    for(int q = 0; q<nq; q++)
    {
        float u = gen_uv(g, im.side), v = gen_uv(g, im.side);
        float dudx = gen_d(g), dvdx = gen_d(g), dudy = gen_d(g), dvdy = gen_d(g);
        if(kind == ELLIPSE)
        { // a ratio right at the eccentricity limit or equal axes flip branches on rounding, harmlessly
            if(g.p(1, 4))
            {
                dudy = -dvdx;
                dvdy = dudx;
            }
        }
        TexelUnion r = m->filter(u, v, dudx, dvdx, dudy, dvdy);
        const char* branch = "";
        for(int c = 0; c<4; c++)
        {
            double lo, hi;
            expected(p, kind, u, v, dudx, dvdx, dudy, dvdy, c, &lo, &hi, &branch);
            int got = chan(r, c);
            CHECK(got>=lo-4 && got<=hi+1.6, "side ", im.side, " uv ", u, ",", v, " d ", dudx, " ", dvdx, " ", dudy, " ", dvdy,
                  " channel ", c, ": got ", got, " expected [", lo, ", ", hi, "] ", branch);
        }
        g.label(branch);
        g.nontrivial(im.side>1 && im.px[0] != im.px[im.px.size()-1]);
    }
}
PROP(trilinear, 200000, 3000000, "an image of more than one texel that is not constant")
{
    filtered(g, TRI);
}
PROP(ewa, 150000, 2000000, "an image of more than one texel that is not constant")
{
    filtered(g, ELLIPSE);
}
// texture wrapper: shift, scale, repetition and footprint
PROP(wrapper, 500000, 6000000, "a coordinate outside the unit square after shift and scale, or different scales in u and v")
{
    Kind kind = (Kind)g.draw(2);
    Img im = gen_img(g, 4);
    std::unique_ptr<ImageMap> m = make(kind, im);
    Pyramid p(im);
    Vec2 scale(g.f(-8.f, 8.f), g.f(-8.f, 8.f)), shift(g.f(-20.f, 20.f), g.f(-20.f, 20.f));
    if(g.b())
        scale = Vec2((float)g.i(1, 4), (float)g.i(1, 4));
    if(g.b())
        shift = Vec2(0, 0);
    TextureImage t(m.get(), shift, scale, kind == NEAREST);
    HitPoint h;
    memset((void*)&h, 0, sizeof(h));
    h.uv = Point2(g.f(-1.f, 2.f), g.f(-1.f, 2.f));
    h.du = Vec2(gen_d(g), gen_d(g));
    h.dv = Vec2(gen_d(g), gen_d(g));
    h.differentials = g.b();
    TexelUnion r = t.map_value(&h);
    volatile float mu = h.uv.x*scale.x, mv = h.uv.y*scale.y;
    volatile float fu = mu+shift.x, fv = mv+shift.y;
    double u = (double)fu, v = (double)fv;
    // rounding of the coordinate before and after it is wrapped
    double eu = (fabs(mu)+fabs(shift.x)+1)*2.4e-7, ev = (fabs(mv)+fabs(shift.y)+1)*2.4e-7;
    g.nontrivial(u<0 || u>1 || v<0 || v>1 || (h.differentials && scale.x != scale.y));
    g.label(u<0 || v<0?"negative":(u>1 || v>1?"beyond one":"inside"));
    if(kind == NEAREST)
    {
        double x = u*im.side, y = v*im.side;
        bool ok = false;
        for(int i = -1; i<2; i++)
            for(int j = -1; j<2; j++)
            {
                long xi = (long)floor(x+i*eu*im.side), yi = (long)floor(y+j*ev*im.side);
                ok = ok || r.bgra_value == im.px[Pyramid::wrap(yi, im.side)*im.side+Pyramid::wrap(xi, im.side)];
            }
        CHECK(ok, "nearest: side ", im.side, " u ", u, " v ", v, " got ", r.bgra_value);
        return;
    }
    double dudx = 0, dudy = 0, dvdx = 0, dvdy = 0;
    if(h.differentials)
    {
        dudx = h.du.x*scale.x;
        dudy = h.du.y*scale.x;
        dvdx = h.dv.x*scale.y;
        dvdy = h.dv.y*scale.y;
    }
    if(kind == ELLIPSE)
    { // denormal products make the branch on a zero axis arbitrary
        double m0 = sqrt(dudx*dudx+dvdx*dvdx), m1 = sqrt(dudy*dudy+dvdy*dvdy);
        if((m0<1e-12 && m0 != 0) || (m1<1e-12 && m1 != 0))
            g.discard();
    }
    for(int c = 0; c<4; c++)
    {
        double lo, hi;
        const char* branch = "";
        expected(p, kind, u, v, dudx, dvdx, dudy, dvdy, c, &lo, &hi, &branch);
        int got = chan(r, c);
        double slack = 255*im.side*2*(eu+ev);
        CHECK(got>=lo-4-slack && got<=hi+1.6+slack, "kind ", kind, " side ", im.side, " uv ", u, ",", v, " d ", dudx, " ",
              dvdx, " ", dudy, " ", dvdy, " channel ", c, ": got ", got, " expected [", lo, ", ", hi, "] ", branch);
    }
    // moving by whole repetitions changes nothing but rounding
    Vec2 shift2(shift.x+(float)g.i(-3, 3), shift.y+(float)g.i(-3, 3));
    TextureImage t2(m.get(), shift2, scale, false);
    TexelUnion r2 = t2.map_value(&h);
    for(int c = 0; c<4; c++)
        CHECK(fabs((double)chan(r, c)-chan(r2, c))<=2+255*im.side*8*(eu+ev), "repetition: channel ", c, " ", chan(r, c), " and ",
              chan(r2, c));
}
// large images: no corner of a map of any size may be lost
PROP(large, 60, 600, "side of at least 64")
{
    Img im;
    im.side = 1 << g.i(5, pbt::thorough()?12:11);
    im.px.resize((size_t)im.side*im.side);
    for(int y = 0; y<im.side; y++)
        for(int x = 0; x<im.side; x++)
            im.px[(size_t)y*im.side+x] = (uint32_t)(x&255) | (uint32_t)(x >> 8) << 8 | (uint32_t)(y&255) << 16 | (uint32_t)(y >> 8) << 24;
    std::unique_ptr<ImageMap> m = make(NEAREST, im), t = make(TRI, im), e = make(ELLIPSE, im);
    g.nontrivial(im.side>=64);
    double mean[4] = {0, 0, 0, 0};
    for(auto p:im.px)
        for(int c = 0; c<4; c++)
            mean[c] += (p >> (8*c))&255;
    for(int k = 0; k<200; k++)
    {
        int x = (int)g.i(0, im.side-1), y = (int)g.i(0, im.side-1);
        float u = ((float)x+0.5f)/im.side, v = ((float)y+0.5f)/im.side;
        uint32_t want = im.px[(size_t)y*im.side+x];
        CHECK(m->filter(u, v, 0, 0, 0, 0).bgra_value == want, "nearest side ", im.side, " texel ", x, ",", y);
        CHECK(t->filter(u, v, 0, 0, 0, 0).bgra_value == want, "trilinear side ", im.side, " texel ", x, ",", y);
        CHECK(e->filter(u, v, 0, 0, 0, 0).bgra_value == want, "ewa side ", im.side, " texel ", x, ",", y);
    }
    for(int k = 0; k<4; k++)
    {
        float u = g.unit_plain(), v = g.unit_plain();
        TexelUnion a = t->filter(u, v, 1.f, 0, 0, 1.f), b = e->filter(u, v, 1.f, 0, 0, 1.f);
        for(int c = 0; c<4; c++)
        {
            double w = mean[c]/im.px.size();
            CHECK(chan(a, c)<=w+1 && chan(a, c)>=w-13, "trilinear whole image: ", chan(a, c), " mean ", w);
            CHECK(chan(b, c)<=w+1 && chan(b, c)>=w-13, "ewa whole image: ", chan(b, c), " mean ", w);
        }
    }
}
// textures loaded from files; a file that is not usable gives the white default
PROP(files, 6000, 60000, "a readable power of two image, or a damaged one")
{
    pbt::scratch_clear();
    std::string dir = pbt::scratch();
    TexLib.clear();
    struct Entry
    {
        std::string path;
        Img im;
        bool good;
        const TextureImage* t;
        TextureFilter_t f;
    };
    std::vector<Entry> es;
    std::vector<std::unique_ptr<TextureImage>> own;
    int n = (int)g.i(1, 4);
    bool damaged = false;
    for(int k = 0; k<n; k++)
    {
        Entry e;
        if(k && g.p(1, 4))
        { // the same file again (library holds the decoded map)
            e = es[g.draw(es.size()-1)];
        }
        else
        {
            e.im = gen_img(g, 4);
            int w = e.im.side, h = e.im.side;
            e.good = true;
            int how = (int)g.draw(5);
            if(how == 3)
            { // not square or not a power of two
                w = (int)g.i(1, 9);
                h = (int)g.i(1, 9);
                e.good = w == h && (w&(w-1)) == 0;
                e.im.side = w;
                e.im.px.resize((size_t)w*h, 0x10203040u);
            }
            // 32 bit uncompressed targa, top row first
            std::string s(18, '\0');
            s[2] = 2;
            s[12] = (char)(w&255);
            s[13] = (char)(w >> 8);
            s[14] = (char)(h&255);
            s[15] = (char)(h >> 8);
            s[16] = 32;
            s[17] = 0x28;
            for(int i = 0; i<w*h; i++)
            {
                uint32_t p = e.im.px[i];
                s += (char)(p >> 24);
                s += (char)(p >> 16);
                s += (char)(p >> 8);
                s += (char)p;
            }
            if(how == 4 && w*h>1)
            {
                s.resize(18+4*g.draw(w*h-2)); // pixels missing
                e.good = false;
                damaged = true;
            }
            e.path = dir+"/t"+std::to_string(k)+".tga";
            if(how != 5)
                pbt::write_file(e.path, s);
            else
                e.good = false;
        }
        e.f = (TextureFilter_t)(es.empty()?g.draw(2):es[0].f);
        Vec2 shift(0, 0), scale(1, 1);
        own.emplace_back(new TextureImage(File(e.path.c_str()), shift, scale, e.f));
        e.t = own.back().get();
        es.push_back(e);
    }
    for(auto& e:es)
    {
        g.nontrivial(e.good || damaged);
        HitPoint h;
        memset((void*)&h, 0, sizeof(h));
        for(int y = 0; y<e.im.side; y++)
            for(int x = 0; x<e.im.side; x++)
            {
                h.uv = Point2((x+0.5f)/e.im.side, (y+0.5f)/e.im.side);
                uint32_t got = e.t->map_value(&h).bgra_value;
                uint32_t want = e.good?e.im.px[y*e.im.side+x]:0xFFFFFFFFu;
                CHECK(got == want, "file ", e.path, " good ", e.good, " side ", e.im.side, " texel ", x, ",", y, ": ", got,
                      " expected ", want);
            }
    }
    own.clear();
    TexLib.clear();
}
// uniform textures ignore the hit
PROP(uniform, 100000, 1000000, "any colour and any coordinates")
{
    ColorRGB c(g.unit_plain(), g.unit_plain(), g.unit_plain());
    Spectrum s(c, false);
    TextureUniform t(s);
    HitPoint h;
    memset((void*)&h, 0, sizeof(h));
    h.uv = Point2(gen_coord(g), gen_coord(g));
    h.du = Vec2(gen_coord(g), gen_coord(g));
    h.differentials = g.b();
    ColorXYZ a = t.map(&h).to_xyz(), b = s.to_xyz();
    g.nontrivial();
    CHECK(a.r == b.r && a.g == b.g && a.b == b.b, "uniform texture changed its colour");
}
