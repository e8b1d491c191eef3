// flavours: rgb spec fast
// M02: drawn directions, their value and density
#include "facets.hpp"
#include "setting.hpp"
#include "materials/bsdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/single_brdf.hpp"
#include "textures/texture_library.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/lambertian.hpp"
#include "materials/microfacet.hpp"
#include "materials/oren_nayar.hpp"

#ifdef SPECTRAL
#define NW SPECTRUM_SAMPLES
#else
#define NW 3
#endif
namespace
{
double gen_z(pbt::Gen& g)
{
    switch(g.draw(5))
    {
        case 0: return 1;
        case 1: return 1-std::pow(10., -6*g.d01());
        case 2: return std::pow(10., -3*g.d01());
        default: return 0.01+0.99*g.d01();
    }
}
struct Everything : public Fresnel
{
    Spectrum eval(float) const override { return SPECTRUM_ONE; }
};
enum What { LAMBERT, OREN, ROUGH_R, ROUGH_T };
struct Fn
{
    What what;
    Dist d;
    MicrofacetDist* dist = nullptr;
    float ei = 1, et = 1;
    std::unique_ptr<Bdf> f;
};
void build_fn(pbt::Gen& g, Fn& n, float smallest)
{
    n.what = (What)g.draw(3);
    switch(n.what)
    {
        case LAMBERT: n.f.reset(new Lambertian()); break;
        case OREN: n.f.reset(new OrenNayar(g.f(0, 2))); break;
        case ROUGH_R:
            build(g, n.d, smallest);
            n.dist = n.d.d.release();
            n.f.reset(new MicrofacetR(n.dist, new Everything()));
            break;
        default:
            build(g, n.d, smallest);
            n.dist = n.d.d.release();
            n.ei = g.pick({1.f, 1.33f, 1.5f, 2.f});
            n.et = g.pick({1.5f, 1.f, 1.33f, 2.42f});
            if(n.ei == n.et)
                n.et = n.ei*1.2f;
            n.f.reset(new MicrofacetT(n.dist, Spectrum(n.ei), Spectrum(n.et)));
            g.note("media ", n.ei, " ", n.et);
    }
    static const char* names[] = {"lambert", "oren nayar", "rough reflection", "rough transmission"};
    g.note(names[n.what]);
    g.label(names[n.what]);
}
// the facet that scatters wo into wi, on the side of wo
D3 facet(const Fn& n, const Vec3& wo, const Vec3& wi)
{
    D3 h;
    if(n.what == ROUGH_T)
    {
        double eo = wo.z>0?n.ei:n.et, en = wo.z>0?n.et:n.ei;
        h = D3(wo)*eo+D3(wi)*en;
    }
    else
        h = D3(wo)+D3(wi);
    h = h.norm();
    return h.dot(D3(wo))<0?-h:h;
}
bool back_facets_wrong()
{
    MicrofacetT t(new GGXiso(1.f), Spectrum(1.f), Spectrum(1.5f));
    for(int k = 0; k<16; k++)
    {
        Vec3 wo(0.9949874f, 0, 0.1f), wi, h;
        float pdf = 0;
        GGXiso d(1.f);
        d.sample_wh(&wo, 0.95f, k/16.f, &h);
        t.sample_value(&wo, &wi, 0.95f, k/16.f, &pdf);
        if(D3(h).dot(D3(wo))<-0.05 && pdf>0)
            return true;
    }
    return false;
}
double jac_right(const Fn& n, const Vec3& wo, const D3& h, const Vec3& wi)
{
    double eo = wo.z>0?n.ei:n.et, en = wo.z>0?n.et:n.ei, co = h.dot(D3(wo)), ci = h.dot(D3(wi));
    return en*en*std::fabs(ci)/std::pow(eo*co+en*ci, 2);
}
double jac_listed(const Fn& n, const Vec3& wo, const D3& h, const Vec3& wi)
{
    double eo = wo.z>0?n.ei:n.et, en = wo.z>0?n.et:n.ei, co = h.dot(D3(wo)), ci = h.dot(D3(wi));
    return eo*eo*std::fabs(co)/std::pow(eo*co+en*ci, 2);
}
bool jacobian_wrong()
{
    MicrofacetDist* d = new GGXiso(0.5f);
    Fn n;
    n.what = ROUGH_T;
    n.ei = 1;
    n.et = 1.5f;
    MicrofacetT t(d, Spectrum(1.f), Spectrum(1.5f));
    Vec3 wo(0.6f, 0, 0.8f), wi;
    float pdf;
    t.sample_value(&wo, &wi, 0.3f, 0.1f, &pdf);
    D3 h = facet(n, wo, wi);
    Vec3 hf((float)h.x, (float)h.y, (float)h.z);
    double want = d->pdf(&wo, &hf)*jac_right(n, wo, h, wi);
    return std::fabs(pdf-want)>0.02*want;
}
}
KNOWN(transmission_jacobian)
{
    return jacobian_wrong()?"the density of rough transmission is converted from facets to directions with the indices and cosines of the two sides exchanged":"";
}
KNOWN(back_facets)
{
    return back_facets_wrong()?"rough transmission refracts about facets turned away from the viewer":"";
}
PROP(agreement, 1500000, 20000000, "a reflection or transmission function, an outgoing direction and two random numbers: the drawn direction against value() and pdf() for it; non-trivial: rough, positive density")
{
    Fn n;
    build_fn(g, n, 0.01f);
    Vec3 wo = polar(gen_z(g), g.d01()*2*PI), wi(7, 7, 7);
    if(g.p(1, 3))
        wo = -wo;
    float r0 = std::min(0.99999f, g.unit()), r1 = std::min(0.99999f, g.unit()), pdf = -1;
    if(n.dist && n.d.kind == BLINN) // r0 near zero draws facets at the horizon
        r0 = std::max(1e-4f, r0);
    Spectrum v = n.f->sample_value(&wo, &wi, r0, r1, &pdf);
    g.note("wo ", wo, " numbers ", r0, " ", r1, " drawn ", wi, " density ", pdf, " value ", v.w[0]);
    CHECK(std::isfinite(pdf) && pdf>=0, "density ", pdf);
    for(int k = 0; k<NW; k++)
        CHECK(std::isfinite(v.w[k]) && v.w[k]>=0, "value ", v.w[k]);
    if(pdf == 0)
    {
        // nothing drawn: legitimate only for facets that scatter through the surface, or total internal reflection
        CHECK(n.what == ROUGH_R || n.what == ROUGH_T || std::fabs((double)wi.z)<1e-6, "density 0 drawing from ", n.what);
        return;
    }
    CHECK(std::fabs(D3(wi).len()-1)<1e-4, "drawn direction of length ", D3(wi).len());
    if(std::fabs((double)wi.z)<1e-4) // on the horizon
        return;
    CHECK((wi.z*wo.z<0) == (n.what == ROUGH_T), "drawn to the ", wi.z*wo.z<0?"other":"same", " side");
    if(n.what == LAMBERT || n.what == OREN)
        CHECK(pbt::near(pdf, std::fabs((double)wi.z)/PI, 1e-6, 1e-5), "density ", pdf, ", cosine over pi is ", std::fabs((double)wi.z)/PI);
    static const bool back = back_facets_wrong(), jac = jacobian_wrong();
    if(n.what == ROUGH_T && back)
    {
        Vec3 wh;
        n.dist->sample_wh(&wo, r0, r1, &wh);
        if(D3(wh).dot(D3(wo))<1e-4)
            return;
    }
    double tol = 1e-3;
    if(n.dist)
    {
        D3 h = facet(n, wo, wi);
        Vec3 hf((float)h.x, (float)h.y, (float)h.z), wh;
        n.dist->sample_wh(&wo, r0, r1, &wh);
        D3 s = D3(wh).norm();
        double co = std::fabs(h.dot(D3(wo))), ci = std::fabs(h.dot(D3(wi)));
        if(co<2e-3 || ci<2e-3 || std::fabs((double)wh.z)<2e-3)
            return;
        CHECK((h-s).len()<2e-5/co+2e-5/ci || (h+s).len()<2e-5/co+2e-5/ci, "scatters about the facet ", hf, " instead of the drawn ", wh);
        // conditioning of the facet density
        double D = n.dist->pdf(&wo, &hf), worst = 0, eps = n.what == ROUGH_T?5e-6:1.5e-6;
        if(n.what == ROUGH_R && D3(wo).dot(D3(wi))<-0.3) // the sum of nearly opposite directions cancels
            eps = 1e-5;
        for(int k = 0; k<8; k++)
        {
            Vec3 q = hf;
            float e = (float)((k%2?-1:1)*eps);
            if(k/2<3)
            {
                k/2 == 0?q.x += e:k/2 == 1?q.y += e:q.z += e;
                q.normalize();
            }
            else
                q = q*(1+e);
            worst = std::max(worst, std::fabs((double)n.dist->pdf(&wo, &q)-D));
        }
        if(!(D>0) || worst>0.2*D)
            return;
        tol += 3*worst/D+3e-6/co/ci+(n.what == ROUGH_T?2e-5/std::fabs((n.ei-n.et)*co*ci):0);
        if(tol>0.3)
            return;
        double want;
        if(n.what == ROUGH_R)
            want = D/(4*co);
        else
            want = D*jac_right(n, wo, h, wi);
        bool ok = pbt::near(pdf, want, 1e-6, tol);
        if(!ok && n.what == ROUGH_T && jac)
            ok = pbt::near(pdf, D*jac_listed(n, wo, h, wi), 1e-6, tol);
        CHECK(ok, "density ", pdf, ", the facet gives ", want);
    }
    g.nontrivial(n.dist && pdf>1e-3);
    Spectrum w = n.f->value(&wo, &wi);
    float p = n.f->pdf(&wo, &wi);
    CHECK(pbt::near(p, pdf, 1e-6, 2*tol), "drawn with density ", pdf, ", pdf() gives ", p);
    for(int k = 0; k<NW; k++)
        CHECK(pbt::near(v.w[k], w.w[k], 1e-5, 1e-5), "drawn with value ", v.w[k], ", value() gives ", w.w[k]);
}
PROP(anywhere, 600000, 8000000, "two arbitrary directions: the density is finite, never negative and zero where the function cannot scatter; non-trivial: rough, positive density")
{
    Fn n;
    build_fn(g, n, 0.01f);
    Vec3 wo = polar(gen_z(g), g.d01()*2*PI), wi = polar(gen_z(g), g.d01()*2*PI);
    if(g.b())
        wo = -wo;
    if(g.b())
        wi = -wi;
    if(std::fabs((double)wi.z)<1e-6 || std::fabs((double)wo.z)<1e-6 || (D3(wo)+D3(wi)).len()<1e-3)
        return;
    float p = n.f->pdf(&wo, &wi);
    g.note("wo ", wo, " wi ", wi, " density ", p);
    g.nontrivial(n.dist && p>1e-3);
    CHECK(std::isfinite(p) && p>=0, "density ", p);
    bool across = wo.z*wi.z<0;
    if(across != (n.what == ROUGH_T))
        CHECK(p == 0, "density ", p, " where it cannot scatter");
    else if(!n.dist)
        CHECK(pbt::near(p, std::fabs((double)wi.z)/PI, 1e-6, 1e-5), "density ", p);
}
// the directions drawn from a small square of numbers fill the solid angle the density promises
PROP(mass, 250000, 3000000, "a small square of random numbers: solid angle of the drawn directions times their density against the area of the square; non-trivial: rough")
{
    Fn n;
    build_fn(g, n, 0.1f);
    Vec3 wo = polar(0.1+0.9*g.d01(), g.d01()*2*PI);
    if(g.p(1, 3))
        wo = -wo;
    double d = 4e-3, a = 0.03+0.9*g.d01(), b = 0.02+0.94*g.d01();
    if(std::fabs(b-0.5)<0.02)
        b += 0.04;
    D3 pt[3][3];
    double pdf[3][3], mean = 0, factor = 1;
    static const double W[3] = {1, 4, 1};
    for(int i = 0; i<3; i++)
        for(int j = 0; j<3; j++)
        {
            Vec3 wi(7, 7, 7), wh;
            float p = -1;
            float r0 = (float)(a+(i-1)*d), r1 = (float)(b+(j-1)*d);
            n.f->sample_value(&wo, &wi, r0, r1, &p);
            if(p == 0)
                g.discard();
            if(std::fabs((double)wi.z)<0.02)
                g.discard();
            pt[i][j] = D3(wi);
            pdf[i][j] = p;
            if(n.dist)
            {
                n.dist->sample_wh(&wo, r0, r1, &wh);
                double co = D3(wh).dot(D3(wo));
                if(co<0.02)
                    g.discard();
                if(n.what == ROUGH_T && std::fabs(D3(wi).dot(D3(wh)))<0.1)
                    g.discard();
                // the facet density itself is the subject of M04: take it as drawn
                double real = n.d.kind == BLINN?0:D_of(n.d, wh)*std::fabs((double)wh.z);
                double said = n.dist->pdf(&wo, &wh);
                if(n.d.kind == BLINN)
                {
                    real = (n.d.e+2)/(2*PI)*std::pow(std::fabs((double)wh.z), n.d.e+1);
                    double listed = (n.d.e+1)/(2*PI)*std::pow(std::fabs((double)wh.z), n.d.e);
                    // which of the two is drawn
                    Vec3 probe;
                    n.dist->sample_wh(&wo, 0.5f, 0, &probe);
                    double z = std::fabs((double)probe.z);
                    if(std::fabs(std::pow(z, n.d.e+1)-0.5)<std::fabs(std::pow(z, n.d.e+2)-0.5))
                        real = listed;
                }
                factor = real/said;
                pdf[i][j] *= factor;
                if(n.what == ROUGH_T)
                {
                    static const bool jac = jacobian_wrong();
                    if(jac)
                        pdf[i][j] *= jac_right(n, wo, D3(wh).norm(), wi)/jac_listed(n, wo, D3(wh).norm(), wi);
                }
            }
            mean += pdf[i][j]*W[i]*W[j]/36;
        }
    double area = 0;
    for(int i = 0; i<2; i++)
        for(int j = 0; j<2; j++)
        {
            D3 p = pt[i][j], q = pt[i+1][j], r = pt[i+1][j+1], s = pt[i][j+1];
            area += 0.5*((q-p).cross(r-p).len()+(r-p).cross(s-p).len());
        }
    double lo = 1e300, hi = 0;
    for(auto& row : pdf)
        for(double p : row)
        {
            lo = std::min(lo, p);
            hi = std::max(hi, p);
        }
    g.note("wo ", wo, " numbers about ", a, " ", b, " density ", mean, " solid angle ", area);
    if(hi>1.6*lo || area<1e-8) // too curved or too small to judge
        g.discard();
    g.nontrivial(n.dist != nullptr);
    double mass = mean*area/(4*d*d);
    CHECK(std::fabs(mass-1)<0.06+0.25*(hi/lo-1), "the directions hold ", mass, " times the mass of the square");
}
namespace
{
struct Stuff
{
    std::unique_ptr<Bsdf> b;
    Tint t1{0.3f}, t2{0.7f};
    std::vector<char> mirror, across; // per part
    std::vector<MicrofacetDist*> facets;
    std::vector<char> rough;
    bool flat = true; // every part draws with the cosine
};
void gen_stuff(pbt::Gen& g, Stuff& s, bool flat_only)
{
    bool single = g.p(1, 3);
    int n = single?1:(int)g.size(1, _MAX_BDF_);
    MultiBSDF* m = single?nullptr:new MultiBSDF();
    s.b.reset(m);
    for(int k = 0; k<n; k++)
    {
        Bdf* f;
        bool mir = false, acr = false, rough = false;
        MicrofacetDist* d = nullptr;
        const char* name;
        switch(g.draw(flat_only?1:single?3:5))
        {
            case 0: f = new Lambertian(); name = "lambert"; break;
            case 1: f = new OrenNayar(g.f(0, 1)); name = "oren nayar"; break;
            case 2:
                f = new MicrofacetR(new GGXiso(0.15f+0.8f*g.unit_plain()), new Everything());
                name = "rough reflection";
                s.flat = false;
                rough = true;
                break;
            case 3: f = new DielectricReflection(Spectrum(1.f), Spectrum(1.5f)); mir = true; name = "mirror"; break;
            case 4: f = new Refraction(Spectrum(1.f), Spectrum(1.5f)); mir = acr = true; name = "refraction"; break;
            default:
                d = new GGXiso(0.15f+0.5f*g.unit_plain());
                f = new MicrofacetT(d, Spectrum(1.f), Spectrum(1.5f));
                acr = true;
                name = "rough transmission";
                s.flat = false;
                rough = true;
        }
        g.note(name);
        const Texture* t = g.b()?&s.t1:&s.t2;
        s.mirror.push_back(mir);
        s.across.push_back(acr);
        s.facets.push_back(d);
        s.rough.push_back(rough);
        if(m)
            m->inherit_bdf(f, t);
        else
            s.b.reset(new SingleBRDF(f, t));
    }
}
}
PROP(material, 600000, 8000000, "a material with one or several functions on a flat frame, an outgoing direction, three random numbers, with or without specular scattering: the drawn direction against value() and pdf() of the whole material; non-trivial: a rough direction drawn from several parts")
{
    Stuff s;
    gen_stuff(g, s, false);
    Setting q;
    gen_setting(g, q, 0);
    Vec3 wo, wi(9, 9, 9);
    if(!gen_side(g, q, &wo))
        g.discard();
    float r0 = std::min(0.9999f, g.unit()), r1 = std::min(0.999f, g.unit()), r2 = std::min(0.999f, g.unit()), pdf = -1;
    bool spec = g.b(), matched = g.b();
    Spectrum v = s.b->sample_value(r0, r1, r2, &wo, &q.h, &q.m, &wi, &pdf, spec, &matched);
    g.note(spec?"with":"without", " specular, wo ", wo, " numbers ", r0, " ", r1, " ", r2, " drawn ", wi, " value ", v.w[0], " density ", pdf);
    CHECK(std::isfinite(pdf) && pdf>=0, "density ", pdf);
    for(int k = 0; k<NW; k++)
        CHECK(std::isfinite(v.w[k]) && v.w[k]>=0, "value ", v.w[k]);
    std::vector<int> can;
    for(size_t k = 0; k<s.mirror.size(); k++)
        if(spec || !s.mirror[k])
            can.push_back((int)k);
    if(can.empty())
    {
        CHECK(pdf == 0 && v.is_black(), "nothing can be drawn but density ", pdf);
        return;
    }
    double at = (double)r0*can.size();
    if(std::fabs(at-std::round(at))<1e-5 && at>0.5)
        g.discard();
    int part = can[(size_t)at];
    if(pdf == 0)
    {
        CHECK(!s.flat || s.across[part] || std::fabs((double)wi.dot(q.h.normal_h))<1e-5, "density 0 drawing from a function that always scatters");
        return;
    }
    CHECK(std::fabs(D3(wi).len()-1)<1e-3, "drawn direction of length ", D3(wi).len());
    double zi = D3(wi).dot(q.gn), zo = D3(wo).dot(q.gn);
    if(std::fabs(zi)<1e-2)
        g.discard();
    static const bool back = back_facets_wrong();
    if(back && s.facets[part])
    {
        Vec3 ws = v3(to_s(q, D3(wo))), wh;
        s.facets[part]->sample_wh(&ws, r1, r2, &wh);
        if(D3(wh).dot(D3(ws))<1e-4)
            return;
    }
    // facets may send light across the horizon: then another part has to scatter there
    bool other = false;
    for(int k : can)
        other |= !s.mirror[k] && s.across[k] != s.across[part];
    CHECK((zi*zo<0) == (bool)s.across[part] || (s.rough[part] && other), "drawn to the ", zi*zo<0?"other":"same", " side");
    CHECK(matched == (bool)s.mirror[part], matched?"reported as specular":"not reported as specular");
    if(s.mirror[part])
    {
        CHECK(pbt::near(pdf*can.size(), 1, 1e-4), "a specular direction drawn among ", can.size(), " parts with density ", pdf);
        return;
    }
    g.nontrivial(can.size()>1);
    Spectrum w = s.b->value(&wo, &q.h, &wi, &q.m, false);
    float p = s.b->pdf(&wo, &q.h, &q.m, &wi, spec);
    if(v.w[0]>30 || pdf>30) // sharp peak: the rounding of the direction matters
        return;
    for(int k = 0; k<NW; k++)
        CHECK(pbt::near(v.w[k], w.w[k], 2e-3, 2e-2), "drawn with value ", v.w[k], ", value() gives ", w.w[k]);
    CHECK(pbt::near(pdf, p, 2e-3, 2e-2), "drawn with density ", pdf, ", pdf() gives ", p);
    if(s.flat && !spec)
    {
        int same = 0;
        for(int k : can)
            same += !s.across[k];
        CHECK(pbt::near(pdf, std::fabs(zi)/PI*same/can.size(), 1e-4, 1e-3), "density ", pdf, ", cosine over pi of ", same, " in ", can.size(), " is ", std::fabs(zi)/PI*same/can.size());
    }
}
PROP(total, 4000, 60000, "a material of several diffuse functions, a flat frame and an outgoing direction: the density over all directions adds up to one; non-trivial: several functions")
{
    Stuff s;
    gen_stuff(g, s, true);
    Setting q;
    gen_setting(g, q, 0);
    Vec3 wo;
    if(!gen_side(g, q, &wo))
        g.discard();
    g.nontrivial(s.mirror.size()>1);
    double sum = 0;
    const int NZ = 40, NP = 16;
    bool spec = g.b();
    for(int a = 0; a<2*NZ; a++)
        for(int b = 0; b<NP; b++)
        {
            double z = -1+(a+0.5)/NZ, r = std::sqrt(1-z*z), ph = 2*PI*(b+0.5)/NP;
            D3 w = to_w(q, D3(r*std::cos(ph), r*std::sin(ph), z));
            Vec3 wi = v3(w);
            sum += s.b->pdf(&wo, &q.h, &q.m, &wi, spec);
        }
    sum *= 4*PI/(2*NZ*NP);
    CHECK(pbt::near(sum, 1, 5e-3), "the density adds up to ", sum);
}
