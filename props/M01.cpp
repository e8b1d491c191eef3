// flavours: rgb spec fast
// M01: values of the reflection and transmission functions
#include "facets.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/lambertian.hpp"
#include "materials/metals.hpp"
#include "materials/microfacet.hpp"
#include "materials/oren_nayar.hpp"

#ifdef SPECTRAL
#define NW SPECTRUM_SAMPLES
#else
#define NW 3
#endif
namespace
{
double gen_z(pbt::Gen& g)
{
    switch(g.draw(5))
    {
        case 0: return 1;
        case 1: return 1-std::pow(10., -6*g.d01());
        case 2: return std::pow(10., -3*g.d01());
        default: return 0.001+0.999*g.d01();
    }
}
Vec3 gen_side(pbt::Gen& g, bool below)
{
    double z = gen_z(g);
    double ph = g.draw(3) == 0?g.draw(7)*PI/4:g.d01()*2*PI;
    return polar(below?-z:z, ph);
}
double fresnel(double ei, double et, double c)
{
    c = std::min(1., std::fabs(c));
    double st = ei/et*std::sqrt(std::max(0., 1-c*c));
    if(st>=1)
        return 1;
    double ct = std::sqrt(1-st*st);
    double a = (ei*c-et*ct)/(ei*c+et*ct), b = (et*c-ei*ct)/(et*c+ei*ct);
    return 0.5*(a*a+b*b);
}
double metal(double n, double k, double c)
{
    double t = n*n+k*k;
    double s = (t-2*n*c+c*c)/(t+2*n*c+c*c), p = (t*c*c-2*n*c+1)/(t*c*c+2*n*c+1);
    return 0.5*(s+p);
}
float gen_ior(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: return 1.f;
        case 1: return g.pick({1.33f, 1.5f, 1.52f, 2.42f});
        default: return g.f(1.f, 3.f);
    }
}
// reflects everything
struct Everything : public Fresnel
{
    Spectrum eval(float) const override { return SPECTRUM_ONE; }
};
bool inside_wrong()
{
    MicrofacetR r(new GGXiso(0.5f), new Dielectric(Spectrum(1.f), Spectrum(1.5f)));
    MicrofacetR one(new GGXiso(0.5f), new Everything());
    Vec3 a(0.8f, 0, -0.6f), b(-0.8f, 0, -0.6f);
    return std::fabs(r.value(&a, &b).w[0]-one.value(&a, &b).w[0])>1e-3*one.value(&a, &b).w[0];
}
bool same_side_wrong()
{
    MicrofacetT t(new GGXiso(0.7f), Spectrum(1.f), Spectrum(1.5f));
    Vec3 a(0.9539392f, 0, 0.3f), b(0.9539392f, 0, -0.3f);
    return !t.value(&a, &b).is_black();
}
}
KNOWN(inside_fresnel)
{
    return inside_wrong()?"reflections inside a rough dielectric use the Fresnel term of the outside":"";
}
KNOWN(same_side)
{
    return same_side_wrong()?"rough transmission has a value for two directions on the same side of the facet that would have to refract one into the other":"";
}
PROP(diffuse, 1500000, 20000000, "two directions on any side and a roughness: Lambertian and Oren-Nayar against their models; non-trivial: rough with different, oblique directions")
{
    Vec3 a = gen_side(g, g.p(1, 4)), b = gen_side(g, g.p(1, 4));
    Lambertian l;
    Spectrum v = l.value(&a, &b);
    for(int k = 0; k<NW; k++)
        CHECK(pbt::near(v.w[k], 1/PI, 0, 1e-6), "Lambertian value ", v.w[k]);
    float s = g.pick({0.f, 0.2f, 1.f, 15.f, 100.f});
    if(g.b())
        s = g.f(0, 2);
    OrenNayar o(s);
    v = o.value(&a, &b);
    Spectrum w = o.value(&b, &a);
    double s2 = (double)s*s, A = 1-s2/(2*(s2+0.33)), B = 0.45*s2/(s2+0.09);
    double ta = std::acos(std::min(1., std::fabs((double)a.z))), tb = std::acos(std::min(1., std::fabs((double)b.z)));
    double dphi = std::cos(std::atan2((double)a.y, (double)a.x)-std::atan2((double)b.y, (double)b.x));
    double al = std::max(ta, tb), be = std::min(ta, tb);
    double want = (A+B*std::max(0., dphi)*std::sin(al)*std::tan(be))/PI;
    g.note("sigma ", s, " directions ", a, " ", b, " value ", v.w[0], " model ", want);
    g.nontrivial(s>0 && ta>0.01 && tb>0.01 && dphi>0);
    // close to the pole the azimuth is lost, close to the horizon the tangent
    double tol = 2e-6+1e-6*std::tan(be)/std::max(1e-4, std::cos(be))+0.2*std::min(1e-3, 6e-7/std::max(1e-6, std::sin(be)))+0.2*std::tan(be)*std::min(1., 6e-7/std::max(1e-9, std::sin(be)*std::sin(be)));
    for(int k = 0; k<NW; k++)
    {
        CHECK(std::isfinite(v.w[k]) && v.w[k]>=0, "Oren-Nayar value ", v.w[k]);
        CHECK(std::fabs(v.w[k]-want)<=tol, "Oren-Nayar value ", v.w[k], ", the model gives ", want);
        CHECK(std::fabs(v.w[k]-w.w[k])<=2*tol, "Oren-Nayar value ", v.w[k], " but ", w.w[k], " with the directions exchanged");
    }
}
PROP(rough_reflection, 1200000, 16000000, "a distribution, a Fresnel term and two directions: value against the microfacet model; non-trivial: value above 1e-4, not along the normal")
{
    Dist d;
    build(g, d, 0.01f);
    MicrofacetDist* dist = d.d.release();
    Fresnel* f;
    double ei = gen_ior(g), et = gen_ior(g);
    Spectrum n(g.logf(0.1f, 4.f)), kk(g.logf(0.5f, 8.f));
    int what = (int)g.draw(2);
    if(g.p(1, 3))
    {
        int m = (int)g.draw(sizeof(METALS)/sizeof(METALS[0])-1);
        n = METALS[m].n;
        kk = METALS[m].k;
    }
    if(what == 0)
        f = new Dielectric(Spectrum((float)ei), Spectrum((float)et));
    else if(what == 1)
        f = new Conductor(n, kk);
    else
        f = new Everything();
    MicrofacetR r(dist, f);
    bool below = g.b(), across = g.p(1, 10);
    Vec3 wo = gen_side(g, below), wi = gen_side(g, below != across);
    if(g.p(2, 3) && !across)
    {
        // around the mirror direction of a facet
        Vec3 h;
        dist->sample_wh(&wo, std::min(0.999f, g.unit()), g.unit(), &h);
        D3 m = D3(h).norm(), w = m*(2*m.dot(D3(wo)))-D3(wo);
        wi = Vec3((float)w.x, (float)w.y, (float)w.z);
        wi.normalize();
    }
    Spectrum v = r.value(&wo, &wi), x = r.value(&wi, &wo);
    g.note(what == 0?"dielectric ":what == 1?"conductor ":"all ", ei, " ", et, " wo ", wo, " wi ", wi, " value ", v.w[0]);
    if(wo.z*wi.z<=0)
    {
        CHECK(v.is_black() || wi.z == 0 || wo.z == 0, "value ", v.w[0], " across the surface");
        CHECK(r.pdf(&wo, &wi) == 0 || wi.z == 0 || wo.z == 0, "density ", r.pdf(&wo, &wi), " across the surface");
        return;
    }
    D3 h = D3(wo)+D3(wi);
    if(h.len()<1e-2 || std::fabs((double)wi.z)<1e-3)
        return;
    double full = h.len();
    h = h.norm();
    Vec3 hf((float)h.x, (float)h.y, (float)h.z);
    double c = h.dot(D3(wi)), D = dist->D(&hf), G = dist->G(&wo, &wi);
    double base = D*G/(4*std::fabs((double)wo.z)*std::fabs((double)wi.z));
    // how much rounding of the half vector changes the density
    double rel = 1e-4, worst = 0;
    for(int k = 0; k<6; k++)
    {
        Vec3 q = hf;
        float e = (k%2?-1:1)*1e-6f;
        k/2 == 0?q.x += e:k/2 == 1?q.y += e:q.z += e;
        q.normalize();
        worst = std::max(worst, std::fabs((double)dist->D(&q)-D));
    }
    // the length is rounded too, and kept as it is when close to one
    float le = std::fabs(full*full-1)<1.2e-5?7e-6f:2e-7f;
    for(float e : {-le, le})
    {
        Vec3 q = hf*(1+e);
        worst = std::max(worst, std::fabs((double)dist->D(&q)-D));
    }
    double tolb = base*rel+2*worst*base/std::max(1e-30, D)+1e-7;
    g.nontrivial(v.w[0]>1e-4 && std::fabs((double)wo.z)<0.999);
    static const bool finding = inside_wrong();
    for(int k = 0; k<NW; k++)
    {
        double F = what == 1?metal(n.w[k], kk.w[k], c):what == 2?1:below?fresnel(et, ei, c):fresnel(ei, et, c);
        double fe = 1e-5;
        if(what == 0)
            for(double e : {-2e-6, 2e-6})
            {
                fe = std::max(fe, 2*std::fabs(F-(below?fresnel(et, ei, c+e):fresnel(ei, et, c+e))));
                fe = std::max(fe, 2*std::fabs(F-(below?fresnel(et*(1+e), ei, c):fresnel(ei*(1+e), et, c))));
            }
        CHECK(std::isfinite(v.w[k]) && v.w[k]>=0, "value ", v.w[k]);
        bool ok = std::fabs(v.w[k]-F*base)<=tolb+fe*base;
        if(!ok && what == 0 && below && finding)
        {
            double fx = fresnel(ei, et, c);
            for(double e : {-2e-6, 2e-6})
                fe = std::max(fe, 2*std::max(std::fabs(fx-fresnel(ei, et, c+e)), std::fabs(fx-fresnel(ei*(1+e), et, c))));
            ok = std::fabs(v.w[k]-fx*base)<=tolb+fe*base;
        }
        CHECK(ok, "value ", v.w[k], ", the model gives ", F*base, " (facet ", hf, " density ", D, " shadowing ", G, " Fresnel ", F, ")");
        CHECK(std::fabs(v.w[k]-x.w[k])<=2*tolb+2*fe*base+1e-4*base, "value ", v.w[k], " but ", x.w[k], " with the directions exchanged");
    }
}
PROP(rough_transmission, 1200000, 16000000, "a distribution, two media and two directions: value against the model of Walter et al.; non-trivial: value above 1e-4, different media")
{
    Dist d;
    build(g, d, 0.01f);
    MicrofacetDist* dist = d.d.release();
    double ei = gen_ior(g), et = gen_ior(g);
    MicrofacetT t(dist, Spectrum((float)ei), Spectrum((float)et));
    bool below = g.b(), across = !g.p(1, 10);
    Vec3 wo = gen_side(g, below), wi = gen_side(g, below != across);
    double eo = below?et:ei, en = below?ei:et;
    if(g.p(2, 3) && across)
    {
        Vec3 h;
        dist->sample_wh(&wo, std::min(0.999f, g.unit()), g.unit(), &h);
        D3 m = D3(h).norm();
        double c = m.dot(D3(wo)), s2 = (1-c*c)*eo*eo/(en*en);
        if(s2<1 && c>0)
        {
            D3 w = D3(wo)*(-eo/en)+m*(eo/en*c-std::sqrt(1-s2));
            wi = Vec3((float)w.x, (float)w.y, (float)w.z);
            wi.normalize();
        }
    }
    for(float* c : {&wi.x, &wi.y})
        if(std::fabs(*c)<1e-9f)
            *c = 0;
    Spectrum v = t.value(&wo, &wi);
    g.note("media ", ei, " ", et, " wo ", wo, " wi ", wi, " value ", v.w[0]);
    if(wo.z*wi.z>=0)
    {
        CHECK(v.is_black() || wi.z == 0 || wo.z == 0, "value ", v.w[0], " on the same side of the surface");
        CHECK(t.pdf(&wo, &wi) == 0 || wi.z == 0 || wo.z == 0, "density ", t.pdf(&wo, &wi), " on the same side of the surface");
        return;
    }
    D3 h = D3(wo)*eo+D3(wi)*en;
    double cut = h.len(), full = cut;
    if(cut<3e-2 || std::fabs((double)wi.z)<1e-3 || std::fabs(eo-en)<1e-3)
    {
        // equal media: the facet is not defined
        for(int k = 0; k<NW; k++)
            CHECK(v.w[k]>=0, "value ", v.w[k]);
        return;
    }
    h = h.norm();
    if(h.z<0)
        h = -h;
    Vec3 hf((float)h.x, (float)h.y, (float)h.z);
    double co = h.dot(D3(wo)), ci = h.dot(D3(wi)), D = dist->D(&hf), G = dist->G(&wo, &wi);
    double up = eo*eo*D*G*std::fabs(co*ci), den = eo*co+en*ci;
    double base = up/(den*den*std::fabs((double)wo.z*(double)wi.z));
    double worst = 0, e = 1e-6/cut*(eo+en);
    for(int k = 0; k<6; k++)
    {
        Vec3 q = hf;
        float dd = (float)((k%2?-1:1)*e);
        k/2 == 0?q.x += dd:k/2 == 1?q.y += dd:q.z += dd;
        q.normalize();
        worst = std::max(worst, std::fabs((double)dist->D(&q)-D));
    }
    // the length is rounded too, and kept as it is when close to one
    float le = std::fabs(full*full-1)<1.2e-5?7e-6f:2e-7f;
    for(float e : {-le, le})
    {
        Vec3 q = hf*(1+e);
        worst = std::max(worst, std::fabs((double)dist->D(&q)-D));
    }
    double tol = base*(2e-4+6*e/std::max(1e-4, std::min(std::fabs(co), std::fabs(ci)))+8*e/std::fabs(den))+2*worst*base/std::max(1e-30, D);
    if(up<1.1e-5) // negligible numerators are dropped by the code
        tol += base+1e-6;
    bool same = co*ci>0, unsure = std::fabs(co)<1e-4 || std::fabs(ci)<1e-4 || std::fabs(h.z)<1e-5;
    static const bool finding = same_side_wrong();
    double F = fresnel(ci<0?et:ei, ci<0?ei:et, ci); // seen from the medium wi travels in
    double fe = 1e-4;
    for(double x : {-3*e, 3*e})
    {
        fe = std::max(fe, 2*std::fabs(F-fresnel(ci<0?et:ei, ci<0?ei:et, std::fabs(ci)+x)));
        fe = std::max(fe, 2*std::fabs(F-fresnel((ci<0?et:ei)*(1+x), ci<0?ei:et, ci)));
    }
    g.nontrivial(v.w[0]>1e-4 && !same);
    g.label(same?"no refraction":"refraction");
    for(int k = 0; k<NW; k++)
    {
        CHECK(std::isfinite(v.w[k]) && v.w[k]>=0, "value ", v.w[k]);
        if(unsure)
            continue;
        double want = same?0:(1-F)*base;
        bool ok = std::fabs(v.w[k]-want)<=(same?1e-7:tol+fe*base);
        if(!ok && same && finding)
            ok = std::fabs(v.w[k]-(1-F)*base)<=tol+fe*base;
        CHECK(ok, "value ", v.w[k], ", the model gives ", want, " (facet ", hf, " density ", D, " shadowing ", G, " Fresnel ", F, ")");
    }
}
// a white surface never sends back more than arrives
PROP(energy, 4000, 60000, "a white reflection function and an outgoing direction: quadrature of the reflected share; non-trivial: oblique direction, more than 5% reflected")
{
    Vec3 wo = gen_side(g, g.p(1, 4));
    double total = 0, limit = 1.02;
    if(g.p(1, 3))
    {
        float s = g.f(0, 3);
        std::unique_ptr<Bdf> f;
        if(g.p(1, 5))
            f.reset(new Lambertian());
        else
            f.reset(new OrenNayar(s));
        const int N = 48;
        for(int a = 0; a<N; a++)
            for(int b = 0; b<2*N; b++)
            {
                // cosine weighted
                double u = (a+0.5)/N, c = std::sqrt(1-u);
                Vec3 wi = polar(wo.z<0?-c:c, (b+0.5)*PI/N);
                total += f->value(&wo, &wi).w[0]*PI/(2.*N*N);
            }
        g.note("diffuse, roughness ", s, " wo ", wo, " reflects ", total);
    }
    else
    {
        Dist d;
        build(g, d, 0.05f);
        MicrofacetDist* dist = d.d.release();
        MicrofacetR r(dist, new Everything());
        // Walter's fit of the shadowing is not exact for very rough Blinn surfaces at grazing angles
        if(d.kind == BLINN && d.e<6 && std::fabs((double)wo.z)<0.3)
            g.discard();
        if(d.kind == BLINN || d.kind == BECKMANN)
            limit = 1.1;
        if(std::fabs((double)wo.z)<0.1 || std::max(d.ax, d.ay)/std::min(d.ax, d.ay)>8)
            g.discard();
        const int NT = 120, NP = 96;
        double ax = d.ax, ay = d.ay;
        if(d.kind == BLINN)
            ax = ay = std::sqrt(2/(d.e+2));
        for(int p = 0; p<NP; p++)
            for(int k = 0; k<NT; k++)
            {
                double q = (p+0.37)/NP*2*PI, u = (k+0.5)/NT, w = u/(1-u), x = ax*std::cos(q)*w, y = ay*std::sin(q)*w;
                double t = x*x+y*y, c = 1/std::sqrt(1+t);
                D3 h(x*c, y*c, wo.z<0?-c:c);
                double area = ax*ay*w/((1-u)*(1-u))/NT*(2*PI/NP)*c*c*c, co = h.dot(D3(wo));
                if(co<=0)
                    continue;
                D3 m = h*(2*co)-D3(wo);
                if(m.z*wo.z<=1e-6)
                    continue;
                Vec3 wi((float)m.x, (float)m.y, (float)m.z);
                total += r.value(&wo, &wi).w[0]*std::fabs(m.z)*4*co*area;
            }
        g.note("wo ", wo, " reflects ", total);
    }
    g.nontrivial(total>0.05 && std::fabs((double)wo.z)<0.99);
    CHECK(std::isfinite(total) && total>=0 && total<=limit, "reflects ", total, " of the light");
}
