// flavours: rgb fast
// M04: microfacet distributions
#include "facets.hpp"

namespace
{
bool beckmann_wrong()
{
    Beckmann b(0.5f);
    Vec3 h(0.6f, 0, 0.8f);
    Dist d{BECKMANN, 0.5, 0.5, 0, nullptr};
    return std::fabs(b.D(&h)-D_of(d, h))>1e-3;
}
bool blinn_wrong()
{
    // mass of the cap that holds half of the samples
    Blinn b(0.f);
    Vec3 wo(0, 0, 1), wh;
    b.sample_wh(&wo, 0.5f, 0.25f, &wh);
    Vec3 at(0, 0, 1);
    return std::fabs(b.pdf(&wo, &at)*2*PI*(1-wh.z)-0.5)>0.01 && std::fabs(b.pdf(&wo, &at)*PI*(1-wh.z*wh.z)-0.5)>0.01;
}
bool ggx_wrong()
{
    GGXiso d(0.5f);
    Vec3 a(0.8f, 0, 0.6f), n(0, 0, 1);
    return std::fabs(d.G(&a, &n)-2/(1+std::sqrt(1+0.25*0.64/0.36)))>1e-4;
}
bool aniso_pole_wrong()
{
    GGXaniso d(0.3f, 0.1f);
    Vec3 n(0, 0, 1);
    return std::fabs(d.D(&n)-1/(PI*0.03))>1e-3;
}
bool aniso_lambda_wrong()
{
    GGXaniso d(0.3f, 0.1f);
    Vec3 n(0, 0, 1);
    return std::fabs(d.G(&n, &n)-1)>1e-3;
}
}
KNOWN(beckmann_density)
{
    return beckmann_wrong()?"the Beckmann density multiplies the exponential twice, so it does not integrate to one and is not the density of the sampled facets":"";
}
KNOWN(blinn_sampling)
{
    return blinn_wrong()?"Blinn facets are drawn with exponent n+1 but reported with the density (n+2)/(2 pi) cos^n, which integrates to (n+2)/(n+1)":"";
}
KNOWN(ggx_shadowing)
{
    return ggx_wrong()?"the isotropic GGX shadowing term uses 1-cos^4 for the squared sine":"";
}
KNOWN(aniso_pole)
{
    return aniso_pole_wrong()?"the anisotropic GGX density is 1 exactly along the normal":"";
}
KNOWN(aniso_shadow_pole)
{
    return aniso_lambda_wrong()?"the anisotropic GGX shadowing term drops exactly along the normal":"";
}
static double gen_z(pbt::Gen& g)
{
    switch(g.draw(5))
    {
        case 0: return 1;
        case 1: return 1-std::pow(10., -6*g.d01());
        case 2: return std::pow(10., -3*g.d01());
        default: return 0.001+0.999*g.d01();
    }
}
PROP(formula, 2500000, 30000000, "a distribution, facets and two directions: density and shadowing against the published formulas, range, symmetry and monotony; non-trivial: oblique facet with a density that is not negligible")
{
    Dist d;
    build(g, d);
    double z = gen_z(g), ph = g.d01()*2*PI;
    if(g.b()) // where the density lives
    {
        double t = std::max(d.ax, d.ay)*3*g.d01();
        if(d.kind == BLINN)
            t = 3*g.d01()*std::sqrt(2/(d.e+2));
        z = 1/std::sqrt(1+t*t);
    }
    Vec3 h = polar(g.p(1, 5)?-z:z, ph);
    float D = d.d->D(&h);
    double want = D_of(d, h);
    g.note("facet ", h, " density ", D, " formula ", want);
    // relative rounding of the formula: the float cosine decides
    double t2 = tan2(h), s2 = t2/(1+t2), a2 = std::min(d.ax, d.ay)*std::min(d.ax, d.ay);
    double rel = 1e-5;
    switch(d.kind)
    {
        case BLINN: rel += 3e-7*d.e+4e-7*d.e*std::fabs(std::log((double)z)); break;
        case BECKMANN: rel += 4e-7/a2*(1+t2)+4e-6*t2/a2; break;
        default: rel += 4e-7/a2*(1+t2); break;
    }
    g.nontrivial(s2>1e-6 && want>1e-6 && rel<0.1);
    CHECK(std::isfinite(D) && D>=0, "density ", D);
    bool ok = rel>=0.1 || pbt::near(D, want, 1e-6, 3*rel);
    static const bool fb = beckmann_wrong(), fa = aniso_pole_wrong(), fl = aniso_lambda_wrong(), fg = ggx_wrong(), fp = blinn_wrong();
    if(!ok && d.kind == BECKMANN && fb)
        ok = pbt::near(D, D_listed(d, h), 1e-6, 6*rel);
    if(!ok && d.kind == ANISO && fa && std::fabs((double)h.z)>=1-1e-7)
        ok = D == 1;
    CHECK(ok, "density ", D, ", the formula gives ", want);
    if(std::fabs((double)h.z)<1-1e-7) // the pole aside: mirror images have the same density
    {
        Vec3 o(-h.x, h.y, -h.z);
        CHECK(pbt::near(d.d->D(&o), D, 0, 1e-6), "density ", D, " but ", d.d->D(&o), " for the mirrored facet");
    }
    // reported density of drawing the facet
    double hz = std::fabs((double)h.z);
    Vec3 wo = polar(gen_z(g), g.d01()*2*PI);
    if(g.b())
        wo = -wo;
    float p = d.d->pdf(&wo, &h);
    CHECK(std::isfinite(p) && p>=0, "density of drawing a facet ", p);
    if(d.kind != BLINN)
        CHECK(pbt::near(p, D*hz, 1e-6, 1e-5), "density of drawing a facet ", p, ", projected density ", D*hz);
    else
    {
        double dt = D3(wo).dot(D3(h));
        if(std::fabs(dt)>1e-5 && rel<0.1)
        {
            double q = dt>0?want*hz:0;
            bool good = pbt::near(p, q, 1e-6, 3*rel);
            if(!good && fp)
                good = pbt::near(p, dt>0?want:0, 1e-6, 3*rel);
            CHECK(good, "density of drawing a facet ", p, ", ", q, " expected");
        }
    }
    // shadowing
    Vec3 a = polar(gen_z(g), g.d01()*2*PI), b = polar(gen_z(g), g.d01()*2*PI);
    if(g.p(1, 4))
        a = Vec3(a.x, a.y, -a.z);
    if(g.p(1, 4))
        b = Vec3(b.x, b.y, -b.z);
    float G = d.d->G(&a, &b), G2 = d.d->G(&b, &a);
    g.note("directions ", a, " ", b, " shadowing ", G);
    CHECK(std::isfinite(G) && G>=0 && G<=1.0002, "shadowing ", G);
    CHECK(pbt::near(G, G2, 1e-6, 1e-5), "shadowing ", G, " from one side and ", G2, " from the other");
    double gw = G_of(d, a, b);
    bool pole = std::fabs((double)a.z)>=1-1e-6 || std::fabs((double)b.z)>=1-1e-6;
    ok = pbt::near(G, gw, 1e-6, 2e-4);
    if(!ok && d.kind == GGX && fg)
        ok = pbt::near(G, ggx_g1_listed(d, a)*ggx_g1_listed(d, b), 1e-6, 2e-4);
    if(!ok && d.kind == ANISO && fl && pole)
    {
        double la = std::fabs((double)a.z)>=1-1e-6?1:lambda(d, a), lb = std::fabs((double)b.z)>=1-1e-6?1:lambda(d, b);
        ok = pbt::near(G, 1/(1+la+lb), 1e-6, 2e-4) || pbt::near(G, 1/(1+lb), 1e-6, 2e-4) || pbt::near(G, 1/(1+la), 1e-6, 2e-4);
    }
    CHECK(ok, "shadowing ", G, ", the formula gives ", gw);
    if(!(d.kind == ANISO && fl && pole))
    {
        double lower = std::fabs((double)a.z)*(0.2+0.7*g.d01());
        double pa = std::atan2((double)a.y, (double)a.x);
        Vec3 low = polar(a.z<0?-lower:lower, pa);
        float GL = d.d->G(&low, &b);
        CHECK(GL<=G+2e-4*G+1e-6, "shadowing rises from ", G, " to ", GL, " towards grazing ", low);
    }
}
// mass the distribution of the formula gives to the cap below the polar angle of cosine c
static double cap_mass(const Dist& d, double c)
{
    double t2 = (1-c*c)/(c*c);
    switch(d.kind)
    {
        case BLINN: return 1-std::pow(c, d.e+2);
        case BECKMANN: return 1-std::exp(-t2/(d.ax*d.ax));
        default: return t2/(t2+d.ax*d.ax);
    }
}
PROP(sampling, 2500000, 30000000, "a distribution and random numbers: the drawn facet splits the hemisphere as the numbers split the unit square; non-trivial: facet away from the normal")
{
    Dist d;
    build(g, d);
    float r0 = g.unit(), r1 = g.unit();
    if(r0>=1)
        r0 = 0.99999994f;
    Vec3 wo = polar(gen_z(g), g.d01()*2*PI);
    if(g.b())
        wo = -wo;
    Vec3 h(7, 7, 7);
    d.d->sample_wh(&wo, r0, r1, &h);
    g.note("outgoing ", wo, " numbers ", r0, " ", r1, " facet ", h);
    CHECK(std::isfinite(h.x) && std::isfinite(h.y) && std::isfinite(h.z), "facet ", h);
    CHECK(std::fabs(D3(h).len()-1)<2e-3*(d.kind == ANISO)+1e-5, "facet of length ", D3(h).len());
    CHECK(h.z*wo.z>=0, "facet ", h, " on the other side of the surface");
    double c = std::fabs((double)h.z), s = std::sqrt((double)h.x*h.x+(double)h.y*h.y), t2 = s*s/(c*c);
    if(c<1e-6) // on the horizon: on neither side
        return;
    g.nontrivial(t2>1e-8);
    D3 up = wo.z<0?-D3(h):D3(h);
    double ph = std::atan2(up.y, up.x)/(2*PI);
    if(ph<0)
        ph += 1;
    static const bool fp = blinn_wrong();
    if(d.kind != ANISO)
    {
        // radius
        double u = cap_mass(d, c);
        // the smallest angles are below the resolution of the cosine
        double dc = 4e-7+(d.kind == GGX?1e-7/std::max(1e-7, 1-(double)r0):0), // 1-r0(1-a^2) cancels
                lo = cap_mass(d, std::min(1., c+dc)), hi = cap_mass(d, std::max(1e-9, c-dc));
        double tol = 4*(hi-lo)+2e-5;
        bool ok = std::fabs(u-r0)<=tol || std::fabs(1-u-r0)<=tol;
        if(!ok && d.kind == BLINN && fp)
        {
            double v = std::pow(c, d.e+1), slope = (d.e+1)*std::pow(c, d.e)*8e-7;
            ok = std::fabs(v-r0)<=slope*2+2e-5 || std::fabs(1-v-r0)<=slope*2+2e-5;
        }
        CHECK(ok, "the cap below the facet holds ", u, " of the distribution");
        if(s>1e-4 && r1<1)
        {
            double e = std::fabs(ph-r1);
            CHECK(std::min(e, 1-e)<=1e-6/s*0.2+1e-5, "azimuth ", ph, " of a turn");
        }
        return;
    }
    // elliptical: stretched to the isotropic one, both coordinates are uniform
    double x = up.x/d.ax, y = up.y/d.ay, rr = (x*x+y*y)/(up.z*up.z);
    double u = rr/(1+rr);
    double a = std::min(d.ax, d.ay), dr = 4e-7/(a*a)/(c*c)*(1+t2);
    double ratio = std::max(d.ax, d.ay)/a;
    if(dr>0.2*(1+rr) || ratio>100)
        return;
    CHECK(std::fabs(u-r0)<=dr/(1+rr)+1e-4*ratio*(1-u)*u+1e-4, "the ellipse below the facet holds ", u, " of the distribution");
    if(s>1e-3)
    {
        double q = std::atan2(y, x)/(2*PI);
        // the rotation is free, but the same for every number
        float rr1 = 0.3f;
        Vec3 ref;
        d.d->sample_wh(&wo, 0.5f, rr1, &ref);
        if(wo.z<0)
            ref = -ref;
        double rot = std::atan2(ref.y/d.ay, ref.x/d.ax)/(2*PI)-rr1;
        double e = std::fabs(std::fmod(q-r1-rot+4, 1.));
        e = std::min(e, 1-e);
        double tol = 2e-6*ratio/s+2e-5*ratio;
        // next to the jump of the tangent the branch is decided by rounding
        double edge = std::min(std::fabs((double)r1-0.5), std::min((double)r1, 1.-(double)r1));
        if(edge>1e-5)
            CHECK(e<=tol+1e-5*ratio, "azimuth ", q-rot, " of a turn of the stretched ellipse");
    }
}
// the density of the code integrates to one over the hemisphere
PROP(normalised, 10000, 100000, "a distribution: quadrature of the reported density of drawing a facet, and of the projected facet area; non-trivial: roughness above 0.02")
{
    Dist d;
    build(g, d);
    if(d.kind == ANISO && std::max(d.ax, d.ay)/std::min(d.ax, d.ay)>30)
        g.discard();
    g.nontrivial(std::min(d.ax, d.ay)>0.02);
    static const bool fb = beckmann_wrong(), fp = blinn_wrong();
    double sp = 0, sd = 0;
    const int NT = 240, NP = d.kind == ANISO?192:5;
    double a = d.kind == BLINN?std::sqrt(2/(d.e+2)):std::max(d.ax, d.ay);
    double b = d.kind == ANISO?std::min(d.ax, d.ay):a;
    Vec3 wo(0, 0, 1);
    for(int p = 0; p<NP; p++)
    {
        // uniform on the stretched circle
        double q = (p+0.37)/NP*2*PI, cx = std::cos(q)*(d.kind == ANISO?d.ax:a), cy = std::sin(q)*(d.kind == ANISO?d.ay:a);
        for(int k = 0; k<NT; k++)
        {
            double u = (k+0.5)/NT; // tan = scale*u/(1-u)
            double w = u/(1-u), x = cx*w, y = cy*w;
            double t = x*x+y*y, c = 1/std::sqrt(1+t);
            Vec3 h((float)(x*c), (float)(y*c), (float)c);
            if(h.z<1e-6)
                continue;
            // solid angle: slope plane area times cos^3
            double area = (d.kind == ANISO?d.ax*d.ay:a*b)*w/((1-u)*(1-u))/NT*(2*PI/NP)*c*c*c;
            sp += d.d->pdf(&wo, &h)*area;
            sd += d.d->D(&h)*h.z*area;
        }
    }
    g.note("drawing density integrates to ", sp, ", projected area to ", sd);
    // the float cosine blurs the narrowest lobes
    double tol = 4e-3+2e-7/(b*b);
    bool okp = std::fabs(sp-1)<=tol, okd = std::fabs(sd-1)<=tol;
    if(d.kind == BECKMANN && fb)
    {
        // listed: the squared exponential; erf-free closed form does not exist, exp(-2t/a^2) integrates to one half
        okp = okp || std::fabs(sp-0.5)<=tol;
        okd = okd || std::fabs(sd-0.5)<=tol;
    }
    if(d.kind == BLINN && fp)
        okp = okp || std::fabs(sp-(d.e+2)/(d.e+1))<=tol*2;
    CHECK(okp, "the density of drawing a facet integrates to ", sp);
    CHECK(okd, "the projected area of the facets is ", sd);
}
