// flavours: rgb spec rel fastspec
// C02: spectra
#include "film.hpp"
#include <algorithm>
#include "utility/spectrum.hpp"

namespace
{
#ifdef SPECTRAL
const int NW = SPECTRUM_SAMPLES;
const bool SPECTRAL_BUILD = true;
#else
const int NW = 3;
const bool SPECTRAL_BUILD = false;
#endif
// CIE 1931 colour matching functions averaged over 20nm, 400 to 700nm
const double CIE_X[16] = {0.048547909657160444, 0.24864331478873888, 0.33913105790813763, 0.23759311571717262, 0.068513086394717301, 0.0074335845497747266, 0.08596576422452927, 0.30151855826377871, 0.58514208267132439, 0.88403650492429731, 1.0476295638084412, 0.91729557037353515, 0.55824810008207959, 0.24846323480208715, 0.082662385882188882, 0.023565863414357107};
const double CIE_Y[16] = {0.0013634899475922187, 0.010440415943351884, 0.033597446996718648, 0.077808559965342278, 0.16970793592433134, 0.38263264827430249, 0.73335171341896055, 0.95049857179323827, 0.98971243401368458, 0.88304891208807623, 0.67035055945316946, 0.43439004709323248, 0.22639957609275976, 0.093565923050045963, 0.030277141408684354, 0.0085307513410225518};
const double CIE_Z[16] = {0.23185277074575425, 1.2145957302053769, 1.7617404375473658, 1.4557389440139135, 0.66370667571822806, 0.24021451229850452, 0.075098564475774759, 0.020824563254912696, 0.0045391401535986612, 0.0017035374639090151, 0.00090068979518643274, 0.00025727244249234595, 3.9191220954914268E-05, 1.964333174934533E-06, 0., 0.};
const double NORM = 0.17546832144055843; // of a spectrum of ones, Y is 1
D3 reference_xyz(const double* w)
{
    D3 s;
    for(int i = 0; i<16; i++)
        s = s+D3(CIE_X[i], CIE_Y[i], CIE_Z[i])*w[i];
    return s*NORM;
}
D3 xyz_of(const Spectrum& s)
{
    ColorXYZ x = s.to_xyz();
    return D3(x.r, x.g, x.b);
}
Spectrum gen_spectrum(pbt::Gen& g, float* w)
{
    Spectrum s(0);
    int style = (int)g.draw(3);
    for(int i = 0; i<NW; i++)
    {
        w[i] = style == 0?g.f(-10, 10):style == 1?(float)g.unit():style == 2?g.logf(1e-4f, 1e4f):(g.p(1, 3)?0.f:(float)g.unit_plain());
        s.w[i] = w[i];
    }
    return s;
}
float colour_component(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: return 0;
        case 1: return 1;
        case 2: return (float)(g.draw(255)/255.);
        default: return (float)g.unit();
    }
}
// Planck's law at 400+20i nm relative to its largest sample
void planck(double t, double sign, double* w)
{
    const double c2 = 6.62607004e-34*299792458./1.38064852e-23;
    double top = 0;
    for(int i = 0; i<16; i++)
    {
        double l = (400+20*i)*1e-9;
        w[i] = 1e-30/std::pow(l, 5)/(std::exp(c2/(t*l))+sign);
        top = std::max(top, w[i]);
    }
    for(int i = 0; i<16; i++)
        w[i] /= top;
}
bool matches_planck(const Spectrum& s, int t, double sign)
{
    double w[16];
    planck(t, sign, w);
    double tol = 1e-3;
    if(SPECTRAL_BUILD)
    {
        for(int i = 0; i<NW; i++)
            if(!pbt::near(s.w[i], w[i], 1e-5, tol))
                return false;
        return true;
    }
    return near3(xyz_of(s), reference_xyz(w), tol*1.5);
}
bool bose_sign_wrong() { return matches_planck(Spectrum(20000), 20000, 1) && !matches_planck(Spectrum(20000), 20000, -1); }
}

PROP(arithmetic, 150000, 3000000, "the operands differ")
{
    float a[NW], b[NW];
    Spectrum x = gen_spectrum(g, a), y = gen_spectrum(g, b);
    float s = g.p(1, 3)?g.logf(1e-3f, 1e3f):g.f(-10, 10);
    int op = (int)g.draw(7);
    g.note("operation ", op, " scalar ", s);
    if(op == 3 || op == 7)
        for(int i = 0; i<NW; i++)
            if(b[i] == 0)
                y.w[i] = b[i] = 1;
    if(op == 7 && s == 0)
        s = 1;
    bool differ = false;
    for(int i = 0; i<NW; i++)
        differ = differ || a[i] != b[i];
    g.nontrivial(differ);
    Spectrum r(0), c = x;
    switch(op)
    {
        case 0: r = x+y; c += y; break;
        case 1: r = x-y; c -= y; break;
        case 2: r = x*y; c *= y; break;
        case 3: r = x/y; c /= y; break;
        case 4: r = x+s; c += s; break;
        case 5: r = x-s; c -= s; break;
        case 6: r = x*s; c *= s; break;
        default: r = x/s; c /= s; break;
    }
    for(int i = 0; i<NW; i++)
    {
        double p = a[i], q = op<4?b[i]:s, e = 0;
        switch(op%4)
        {
            case 0: e = p+q; break;
            case 1: e = p-q; break;
            case 2: e = p*q; break;
            default: e = p/q; break;
        }
        double tol = 1e-6*std::max(std::fabs(e), op%4<2?std::max(std::fabs(p), std::fabs(q)):0.)+1e-37;
        CHECK(std::fabs(r.w[i]-e)<=tol, "sample ", i, " of ", p, " op ", q, " is ", r.w[i], " instead of ", e);
        CHECK(std::fabs(c.w[i]-e)<=tol, "compound form: sample ", i, " of ", p, " op ", q, " is ", c.w[i], " instead of ", e);
        CHECK(x.w[i] == a[i] && y.w[i] == b[i], "an operand changed");
    }
}

PROP(constants, 100000, 1000000, "the spectrum is not constant")
{
    float v = g.f(-5, 5);
    Spectrum k(v);
    for(int i = 0; i<NW; i++)
        CHECK(k.w[i] == v, "constant ", v, " has sample ", i, " = ", k.w[i]);
    // black is exactly all zero: a single lit sample is not black
    Spectrum z(0);
    CHECK(z.is_black(), "Spectrum(0) is not black");
    int at = (int)g.draw(NW-1);
    float lit = g.f(-5, 5);
    z.w[at] = lit;
    CHECK(z.is_black() == (lit == 0), "only sample ", at, " is ", lit, " and is_black is ", z.is_black());
    CHECK(z.is_valid(), "a finite spectrum is not valid");
    // a spectrum of measured samples
    float w[16];
    for(float& f : w)
        f = (float)g.unit();
    g.note(v, " ", at, " ", lit, " ", w[0], " ", w[15]);
    Spectrum m({w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15]});
    g.nontrivial(w[0] != w[15]);
    double low = 1, high = 0;
    for(int i = 0; i<16; i++)
    {
        low = std::min<double>(low, w[i]);
        high = std::max<double>(high, w[i]);
    }
    for(int i = 0; i<NW; i++)
        if(SPECTRAL_BUILD)
            CHECK(m.w[i] == w[i], "sample ", i, " is ", m.w[i], " instead of ", w[i]);
        else
            CHECK(m.w[i]>=low-1e-6 && m.w[i]<=high+1e-6, "component ", i, " of samples in ", low, " ", high, " is ", m.w[i]);
    if(g.p(1, 3))
    {
        bool inf = g.b();
        Spectrum bad(v);
        bad.w[at] = inf?(g.b()?INFINITY:-INFINITY):NAN;
        CHECK(!bad.is_valid(), "sample ", at, " is ", bad.w[at], " and the spectrum is valid");
    }
}

PROP(tristimulus, 150000, 3000000, "at least two samples are lit")
{
    float a[NW];
    Spectrum s = gen_spectrum(g, a);
    int lit = 0;
    double big = 0;
    for(int i = 0; i<NW; i++)
    {
        lit += a[i] != 0;
        big = std::max<double>(big, std::fabs(a[i]));
    }
    g.note("first sample ", a[0]);
    g.nontrivial(lit>1);
    D3 e(a[0], a[1], a[2]);
    if(SPECTRAL_BUILD)
    {
        double w[16];
        for(int i = 0; i<16; i++)
            w[i] = a[i%NW];
        e = reference_xyz(w);
    }
    CHECK(near3(xyz_of(s), e, 4e-6*big), "XYZ is ", xyz_of(s), " instead of ", e);
    CHECK(pbt::near(s.luminance(), e.y, 4e-6*big), "luminance is ", s.luminance(), " instead of ", e.y);
}

PROP(colour, 150000, 3000000, "the colour is neither black nor white")
{
    float c[3];
    for(float& f : c)
        f = colour_component(g);
    bool light = g.b();
    g.note(D3(c[0], c[1], c[2]), light?" light":" surface");
    g.nontrivial(!(c[0] == c[1] && c[1] == c[2] && (c[0] == 0 || c[0] == 1)));
    Spectrum s = light?Spectrum(ColorRGB(c[0], c[1], c[2]), true):Spectrum(ColorRGB(c[0], c[1], c[2]));
    D3 lin(decode(c[0]), decode(c[1]), decode(c[2]));
    for(int i = 0; i<NW; i++)
        CHECK(s.w[i]>=0 && s.w[i]<=1.1, "sample ", i, " is ", s.w[i]);
    D3 back = xyz_to_linear(xyz_of(s));
    if(!SPECTRAL_BUILD)
    {
        CHECK(near3(xyz_of(s), linear_to_xyz(lin), 4e-6), "XYZ is ", xyz_of(s), " instead of ", linear_to_xyz(lin));
        CHECK(pbt::near(s.luminance(), 0.2126729*lin.x+0.7151522*lin.y+0.0721750*lin.z, 4e-6), "luminance is ", s.luminance());
        return;
    }
    // the colour seen under the light that makes a white surface white, up to the
    // published accuracy of spectra made of seven shapes
    D3 white = xyz_to_linear(xyz_of(Spectrum(ColorRGB(1.f, 1.f, 1.f), light)));
    for(int i = 0; i<3; i++)
    {
        CHECK(white[i]>(light?0.85:0.88) && white[i]<1.22, "white becomes ", white);
        CHECK(std::fabs(back[i]/white[i]-lin[i])<0.075, "linear colour ", lin, " comes back as ", back[0]/white[0], " ", back[1]/white[1], " ", back[2]/white[2]);
    }
    // mixture: white by the smallest component, a secondary by the middle one, a primary by the largest
    double lo = std::min({lin.x, lin.y, lin.z}), hi = std::max({lin.x, lin.y, lin.z});
    double mid = lin.x+lin.y+lin.z-lo-hi;
    int l = lin.x == lo?0:lin.y == lo?1:2, h = -1;
    for(int i = 0; i<3; i++)
        if(i != l && (h<0 || lin[i]>lin[h]))
            h = i;
    float sec[3] = {1, 1, 1}, pri[3] = {0, 0, 0};
    sec[l] = 0;
    pri[h] = 1;
    Spectrum w(ColorRGB(1.f, 1.f, 1.f), light), se(ColorRGB(sec[0], sec[1], sec[2]), light), pr(ColorRGB(pri[0], pri[1], pri[2]), light);
    for(int i = 0; i<NW; i++)
    {
        double e = lo*w.w[i]+(mid-lo)*se.w[i]+(hi-mid)*pr.w[i];
        e = std::min(1., e);
        // the shapes dip a little below zero, where the pure colours are cut off
        CHECK(s.w[i]>=e-0.02 && s.w[i]<=e+2e-3, "sample ", i, " of linear ", lin, " is ", s.w[i], " instead of ", e);
    }
}

PROP(grey, 50000, 500000, "neither black nor white")
{
    // brighter colours make brighter spectra and the luminance follows
    float v = (float)g.unit(), d = (float)(0.01+0.5*g.unit_plain());
    bool light = g.b();
    g.note(v, " ", d);
    g.nontrivial(v>0.001f && v+d<1);
    float hi = std::min(1.f, v+d);
    Spectrum a(ColorRGB(v, v, v), light), b(ColorRGB(hi, hi, hi), light), one(ColorRGB(1.f, 1.f, 1.f), light);
    CHECK(a.luminance()<=b.luminance()+1e-7, "grey ", v, " has luminance ", a.luminance(), ", grey ", hi, " ", b.luminance());
    CHECK(pbt::near(a.luminance()/one.luminance(), decode(v), 2e-5), "grey ", v, " has luminance ", a.luminance(), " where white has ", one.luminance());
    CHECK(pbt::near(a.luminance(), xyz_of(a).y, 1e-6), "luminance differs from Y");
}

KNOWN(planck_sign)
{
    return bose_sign_wrong()?"the radiation of a black body is computed with exp+1 instead of exp-1 in the denominator of Planck's law":"";
}
PROP(blackbody, 20000, 200000, "every case")
{
    int t = g.p(1, 2)?(int)g.size(1000, 40000):(int)g.logf(1000, 40000);
    g.note(t, "K");
    g.nontrivial(true);
    Spectrum s(t);
    if(matches_planck(s, t, -1))
        return;
    if(bose_sign_wrong() && matches_planck(s, t, 1))
        return;
    double w[16];
    planck(t, -1, w);
    std::string got;
    for(int i = 0; i<NW; i++)
        got += pbt::str(s.w[i], " ");
    FAIL("black body at ", t, "K is ", got, ", the first and last sample of Planck's law are ", w[0], " ", w[15]);
}
