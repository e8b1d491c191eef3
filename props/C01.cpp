// flavours: rgb rel
// C01: colour spaces
#include "film.hpp"
#include "utility/color.hpp"

namespace
{
// a component: displayable, near a knee of the transfer curve, or beyond
float component(pbt::Gen& g, double knee, bool beyond)
{
    switch(g.draw(beyond?7:5))
    {
        case 0: return 0;
        case 1: return 1;
        case 2: return (float)(knee*(1+(g.unit_plain()-0.5)*1e-3));
        case 3: return (float)(g.draw(255)/255.);
        case 4: case 5: return (float)g.unit();
        case 6: return g.f(1, 50);
        default: return g.f(-2, 0);
    }
}
double ref_encode(double l) { return encode(l); }
double amp(const D3& a) { return std::max(1., a.maxabs()); }
// the slack of the encoded value for a slack in the linear one
bool close_encoded(double got, double lin, double slack)
{
    double lo = ref_encode(lin-slack), hi = ref_encode(lin+slack);
    double r = 3e-6*std::max(1., std::fabs(got));
    // the two branches of the curve meet within 1e-7
    return got>=lo-r && got<=hi+r;
}
}

PROP(rgb_to_xyz, 200000, 4000000, "some component is neither 0 nor 1")
{
    float c[3];
    for(float& v : c)
        v = component(g, 0.04045, true);
    g.note(c[0], " ", c[1], " ", c[2]);
    g.nontrivial((c[0] != 0 && c[0] != 1) || (c[1] != 0 && c[1] != 1) || (c[2] != 0 && c[2] != 1));
    ColorXYZ x = ColorRGB(c[0], c[1], c[2]).to_XYZ();
    D3 lin(decode(c[0]), decode(c[1]), decode(c[2])), e = linear_to_xyz(lin);
    // jump of the published curve at its knee is below 1e-7
    double tol = 4e-6*std::max(lin.maxabs(), 1e-3)+1e-7;
    CHECK(near3(D3(x.r, x.g, x.b), e, tol), "XYZ of sRGB ", D3(c[0], c[1], c[2]), " is ", D3(x.r, x.g, x.b), " instead of ", e);
}

PROP(xyz_to_srgb, 200000, 4000000, "the colour is not black")
{
    D3 lin;
    for(int i = 0; i<3; i++)
        lin[i] = component(g, 0.0031308, true);
    D3 s = g.b()?linear_to_xyz(lin):lin;
    ColorXYZ x = colour(s);
    g.note(x.r, " ", x.g, " ", x.b);
    g.nontrivial(!x.is_black());
    ColorRGB c = x.to_sRGB();
    D3 e = xyz_to_linear(D3(x.r, x.g, x.b));
    double slack = 4e-7*3.3*std::max(1e-3, D3(x.r, x.g, x.b).maxabs());
    double got[3] = {c.r, c.g, c.b};
    for(int i = 0; i<3; i++)
        CHECK(close_encoded(got[i], e[i], slack), "channel ", i, " of XYZ ", D3(x.r, x.g, x.b), " is ", got[i], " instead of ", ref_encode(e[i]));
}

PROP(round_trip, 200000, 4000000, "some component is neither 0 nor 1")
{
    float c[3];
    for(float& v : c)
        v = component(g, 0.04045, true);
    bool wild = c[0]<0 || c[1]<0 || c[2]<0;
    g.note(c[0], " ", c[1], " ", c[2]);
    g.nontrivial((c[0] != 0 && c[0] != 1) || (c[1] != 0 && c[1] != 1) || (c[2] != 0 && c[2] != 1));
    if(wild)
        g.label("negative");
    ColorRGB r = ColorRGB(c[0], c[1], c[2]).to_XYZ().to_sRGB();
    D3 lin(decode(c[0]), decode(c[1]), decode(c[2]));
    double slack = 3e-6*lin.maxabs()+3e-8; // the published matrices have seven digits
    double got[3] = {r.r, r.g, r.b};
    for(int i = 0; i<3; i++)
        CHECK(close_encoded(got[i], lin[i], slack) || std::fabs(got[i]-c[i])<1e-5, "sRGB ", D3(c[0], c[1], c[2]), " comes back as ", D3(got[0], got[1], got[2]));
}

PROP(bytes, 200000, 4000000, "the three bytes differ")
{
    int r = g.i(0, 255), gr = g.i(0, 255), b = g.i(0, 255), a = g.i(0, 255);
    g.note(r, " ", gr, " ", b, " ", a);
    g.nontrivial(r != gr && gr != b);
    ColorRGB c((unsigned char)r, (unsigned char)gr, (unsigned char)b);
    // BGRA texels, from the lowest byte: alpha, red, green, blue
    pixBGRA p = (uint32_t)b << 24|(uint32_t)gr << 16|(uint32_t)r << 8|(uint32_t)a;
    ColorRGB d(p);
    double w[3] = {r/255., gr/255., b/255.}, x[3] = {c.r, c.g, c.b}, y[3] = {d.r, d.g, d.b};
    for(int i = 0; i<3; i++)
    {
        CHECK(pbt::near(x[i], w[i], 1e-6), "byte ", w[i]*255, " read as ", x[i]);
        CHECK(pbt::near(y[i], w[i], 1e-6), "channel ", i, " of the texel ", p, " read as ", y[i], " instead of ", w[i]);
    }
    // linearised and encoded again, a byte survives
    ColorRGB back = c.to_XYZ().to_sRGB();
    double z[3] = {back.r, back.g, back.b};
    for(int i = 0; i<3; i++)
        CHECK((int)std::floor(z[i]*255+0.5) == (int)std::floor(w[i]*255+0.5), "byte ", w[i]*255, " comes back as ", z[i]*255);
}

PROP(monotonic, 200000, 4000000, "the colours differ")
{
    D3 lin;
    for(int i = 0; i<3; i++)
        lin[i] = component(g, 0.0031308, false);
    int ch = (int)g.draw(2);
    D3 hi = lin;
    hi[ch] += g.p(1, 2)?g.unit():g.unit()*1e-3;
    g.note(lin, " ", hi);
    g.nontrivial(hi[ch]>lin[ch]+1e-5);
    // brighter primaries never give smaller tristimulus values, in both directions
    ColorRGB a((float)lin.x, (float)lin.y, (float)lin.z), b((float)hi.x, (float)hi.y, (float)hi.z);
    ColorXYZ xa = a.to_XYZ(), xb = b.to_XYZ();
    CHECK(xa.r<=xb.r && xa.g<=xb.g && xa.b<=xb.b, "raising channel ", ch, " from ", lin[ch], " to ", hi[ch], " lowers XYZ from ", D3(xa.r, xa.g, xa.b), " to ", D3(xb.r, xb.g, xb.b));
    ColorRGB ra = colour(linear_to_xyz(lin)).to_sRGB(), rb = colour(linear_to_xyz(hi)).to_sRGB();
    double va = ch == 0?ra.r:ch == 1?ra.g:ra.b, vb = ch == 0?rb.r:ch == 1?rb.g:rb.b;
    if(hi[ch]>lin[ch]+1e-5)
        CHECK(va<vb, "raising the linear channel ", ch, " from ", lin[ch], " to ", hi[ch], " gives ", va, " then ", vb);
}

// the third column of the second and third row belongs to the matrix for D50
static bool adobe_mixed()
{
    ColorRGB c = ColorXYZ(0, 1, 1).to_AdobeRGB();
    return std::fabs(std::pow((double)c.b, 2.19921875)-(1.34926-0.11836))<1e-3;
}
KNOWN(adobe_blue)
{
    return adobe_mixed()?"ColorXYZ::to_AdobeRGB takes the Z coefficients of green and blue from the D50 matrix (0.03342, 1.34926 instead of 0.04156, 1.01517)":"";
}
PROP(adobe, 100000, 2000000, "the colour is not black")
{
    // inside the gamut: published inverse matrix of Adobe RGB (1998), D65
    D3 l;
    for(int i = 0; i<3; i++)
        l[i] = component(g, 0.01, false);
    D3 xyz(0.57667*l.x+0.18556*l.y+0.18823*l.z, 0.29734*l.x+0.62736*l.y+0.07529*l.z, 0.02703*l.x+0.07069*l.y+0.99134*l.z);
    g.note(xyz);
    g.nontrivial(l.maxabs()>0);
    ColorRGB c = colour(xyz).to_AdobeRGB();
    double got[3] = {c.r, c.g, c.b};
    const double ex = 1/2.19921875;
    for(int i = 0; i<3; i++)
    {
        // the matrices have five digits
        double s = 3e-5*std::max(l.maxabs(), 1e-3), lo = std::pow(std::max(0., l[i]-s), ex), hi = std::pow(l[i]+s, ex);
        if(l[i]<=s)
            continue; // may be just outside the gamut
        if(i>0 && adobe_mixed())
        {
            double w = i == 1?-0.96924*xyz.x+1.87597*xyz.y+0.03342*xyz.z:0.01344*xyz.x-0.11836*xyz.y+1.34926*xyz.z;
            if(w<=s)
                continue;
            if(pbt::near(got[i], std::pow(w, ex), 1e-4))
                continue;
        }
        CHECK(got[i]>=lo-1e-5 && got[i]<=hi+1e-5, "channel ", i, " of ", xyz, " is ", got[i], " instead of ", std::pow(l[i], ex));
    }
}

PROP(arithmetic, 200000, 2000000, "the operands differ in every component")
{
    float a[3], b[3], s = g.f(-10, 10);
    for(int i = 0; i<3; i++)
    {
        a[i] = g.f(-10, 10);
        b[i] = g.f(-10, 10);
    }
    if(g.p(1, 10))
        a[0] = 0;
    if(g.p(1, 10))
        a[1] = 0;
    if(g.p(1, 10))
        a[2] = 0;
    bool divide = b[0] != 0 && b[1] != 0 && b[2] != 0;
    g.note(D3(a[0], a[1], a[2]), " ", D3(b[0], b[1], b[2]), " ", s);
    g.nontrivial(a[0] != b[0] && a[1] != b[1] && a[2] != b[2]);
    Color x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
    CHECK(x.is_black() == (a[0] == 0 && a[1] == 0 && a[2] == 0), "is_black of ", D3(a[0], a[1], a[2]));
    Color k(s);
    CHECK(k.r == s && k.g == s && k.b == s, "a single component gives ", D3(k.r, k.g, k.b));
    auto look = [&](const char* n, const Color& c, double (*f)(double, double), bool scalar) {
        double r[3] = {c.r, c.g, c.b};
        for(int i = 0; i<3; i++)
        {
            double e = f(a[i], scalar?s:b[i]);
            CHECK(pbt::near(r[i], e, 1e-6, 1e-6), n, ": component ", i, " is ", r[i], " instead of ", e);
        }
    };
    auto add = [](double p, double q) { return p+q; };
    auto sub = [](double p, double q) { return p-q; };
    auto mul = [](double p, double q) { return p*q; };
    auto dvd = [](double p, double q) { return p/q; };
    Color c = x;
    look("+", x+y, add, false); c = x; c += y; look("+=", c, add, false);
    look("-", x-y, sub, false); c = x; c -= y; look("-=", c, sub, false);
    look("*", x*y, mul, false); c = x; c *= y; look("*=", c, mul, false);
    look("+ s", x+s, add, true); c = x; c += s; look("+= s", c, add, true);
    look("- s", x-s, sub, true); c = x; c -= s; look("-= s", c, sub, true);
    look("* s", x*s, mul, true); c = x; c *= s; look("*= s", c, mul, true);
    if(divide)
    {
        look("/", x/y, dvd, false); c = x; c /= y; look("/=", c, dvd, false);
    }
    if(s != 0)
    {
        look("/ s", x/s, dvd, true); c = x; c /= s; look("/= s", c, dvd, true);
    }
}
