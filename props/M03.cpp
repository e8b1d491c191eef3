// flavours: rgb spec fast fastspec
#include "common.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/metals.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"

#ifdef SPECTRAL
#define NW SPECTRUM_SAMPLES
#else
#define NW 3
#endif
// unit direction, the cosine spread from grazing to the pole
static Vec3 dir_any(pbt::Gen& g, bool below)
{
    double z;
    switch(g.draw(4))
    {
        case 0: z = 1; break;
        case 1: z = 1-std::pow(10., -6*g.d01()); break;
        case 2: z = std::pow(10., -3*g.d01()); break;
        default: z = 0.001+0.999*g.d01(); break;
    }
    double ph = g.draw(3) == 0?g.draw(7)*0.7853981633974483:g.d01()*6.283185307179586;
    double s = std::sqrt(std::max(0., 1-z*z));
    return Vec3((float)(s*std::cos(ph)), (float)(s*std::sin(ph)), (float)(below?-z:z));
}
static float gen_ior(pbt::Gen& g)
{
    switch(g.draw(5))
    {
        case 0: return 1.f;
        case 1: return g.pick({1.0003f, 1.33f, 1.5f, 1.52f, 2.42f});
        case 2: return g.f(1.f, 1.01f);
        case 3: return g.f(0.3f, 1.f);
        default: return g.f(1.f, 4.f);
    }
}
// exact Fresnel equations for unpolarised light, from ei into et at cosine c; 1 under total internal reflection
static double fresnel(double ei, double et, double c)
{
    c = std::min(1., std::fabs(c));
    double st = ei/et*std::sqrt(std::max(0., 1-c*c));
    if(st>=1)
        return 1;
    double ct = std::sqrt(1-st*st);
    double a = (ei*c-et*ct)/(ei*c+et*ct), b = (et*c-ei*ct)/(et*c+ei*ct);
    return 0.5*(a*a+b*b);
}
// how far the value may be off when the cosine is off by rounding
static double slack(double ei, double et, double c)
{
    double worst = 0, v = fresnel(ei, et, c);
    for(double e : {-4e-7, 4e-7})
    {
        worst = std::max(worst, std::fabs(fresnel(ei, et, std::min(1., c+e))-v));
        worst = std::max(worst, std::fabs(fresnel(ei*(1+e), et, c)-v));
    }
    return 4*worst+3e-6;
}
static double metal(double n, double k, double c)
{
    double t = n*n+k*k;
    double s = (t-2*n*c+c*c)/(t+2*n*c+c*c), p = (t*c*c-2*n*c+1)/(t*c*c+2*n*c+1);
    return 0.5*(s+p);
}
static Spectrum flat_or_not(pbt::Gen& g, double* mean)
{
    Spectrum s(gen_ior(g));
    if(g.b())
    {
        float spread = g.f(0, 0.2f);
        for(int k = 0; k<NW; k++)
            s.w[k] += spread*g.unit_plain();
    }
    *mean = 0;
#ifdef SPECTRAL
    for(int k = 0; k<NW; k++)
        *mean += s.w[k];
    *mean /= NW;
#else
    *mean = s.w[0];
#endif
    return s;
}
PROP(dielectric, 1500000, 20000000, "two media, a direction on either side: reflection, transmission and the Fresnel term against the exact equations; non-trivial: different media and not along the normal")
{
    double mi, mt;
    Spectrum si = flat_or_not(g, &mi), st = flat_or_not(g, &mt);
    bool below = g.b();
    Vec3 wo = dir_any(g, below);
    double ei = below?mt:mi, et = below?mi:mt, c = std::fabs((double)wo.z);
    if(g.p(1, 4) && ei>et) // around the critical angle
    {
        double sc = et/ei+(g.d01()-0.5)*std::pow(10., -1-5*g.d01());
        sc = std::min(1., std::max(0., sc));
        c = std::max(1e-3, std::sqrt(std::max(0., 1-sc*sc)));
        double s = std::sqrt(1-c*c);
        double ph = g.d01()*6.283;
        wo = Vec3((float)(s*std::cos(ph)), (float)(s*std::sin(ph)), (float)(below?-c:c));
        c = std::fabs((double)wo.z);
    }
    double sint = ei/et*std::sqrt(std::max(0., 1-c*c));
    double F = fresnel(ei, et, c), sl = slack(ei, et, c);
    // the band around the critical angle in which rounding decides
    double band = 1e-6+6e-7*ei*ei/(et*et);
    bool tir = sint>1, unsure = std::fabs(sint*sint-1)<band;
    g.note("eta_i ", mi, " eta_t ", mt, " wo ", wo, " sin of the refracted angle ", sint, " Fresnel ", F);
    g.label(tir?"total internal reflection":unsure?"critical":"refraction");
    g.nontrivial(mi != mt && c<0.999);
    float r0 = g.unit(), r1 = g.unit(), pdf = -1;
    DielectricReflection R(si, st);
    Refraction T(si, st);
    Dielectric fr(si, st);
    CHECK(pbt::near(fr.get_eta_incident(), mi, 0, 1e-6) && pbt::near(fr.get_eta_transmitted(), mt, 0, 1e-6), "indices reported ", fr.get_eta_incident(), " ", fr.get_eta_transmitted());
    Vec3 wi(7, 7, 7);
    Spectrum v = R.sample_value(&wo, &wi, r0, r1, &pdf);
    CHECK(pdf == 1.f, "mirror density ", pdf);
    CHECK(wi.x == -wo.x && wi.y == -wo.y && wi.z == wo.z, "mirrored direction ", wi);
    double refl = 0;
    for(int k = 0; k<NW; k++)
    {
        refl = v.w[k]*c;
        CHECK(std::fabs(refl-F)<=sl || (unsure && refl>=F-0.05 && refl<=1+1e-5), "reflects ", refl);
    }
    Spectrum e = fr.eval(wo.z);
    for(int k = 0; k<NW; k++)
        CHECK(std::fabs(e.w[k]-F)<=sl || (unsure && e.w[k]>=F-0.05 && e.w[k]<=1+1e-6), "Fresnel term ", e.w[k]);
    CHECK(e.w[0]>=0 && e.w[0]<=1+1e-6, "Fresnel term ", e.w[0], " outside [0,1]");
    Vec3 any = dir_any(g, g.b());
    CHECK(R.value(&wo, &any).is_black() && R.pdf(&wo, &any) == 0 && T.value(&wo, &any).is_black() && T.pdf(&wo, &any) == 0, "a mirror or a smooth refraction has a value for an unrelated direction");
    CHECK(R.value(&wo, &wi).is_black() && R.pdf(&wo, &wi) == 0, "a mirror has a finite value");
    pdf = -1;
    wi = Vec3(7, 7, 7);
    v = T.sample_value(&wo, &wi, r0, r1, &pdf);
    if(pdf == 0)
    {
        CHECK(tir || unsure, "reports total internal reflection");
        CHECK(v.is_black(), "value ", v.w[0], " under total internal reflection");
        return;
    }
    CHECK(!tir || unsure, "refracts beyond the critical angle");
    CHECK(pdf == 1.f, "refraction density ", pdf);
    if(unsure)
        return;
    CHECK(wi.z*wo.z<0, "refracted to the same side: ", wi);
    // Snell, in the plane of incidence
    double eta = ei/et, ct = std::sqrt(1-sint*sint);
    CHECK(pbt::near(wi.x, -eta*wo.x, 2e-6, 4e-6) && pbt::near(wi.y, -eta*wo.y, 2e-6, 4e-6), "refracted to ", wi, ", Snell gives ", -eta*wo.x, " ", -eta*wo.y);
    CHECK(std::fabs(std::fabs((double)wi.z)-ct)<=1e-6+2e-6*eta*eta/ct, "refracted cosine ", wi.z, ", Snell gives ", ct);
    // power: what is not reflected is transmitted, radiance scales with the square of the index
    for(int k = 0; k<NW; k++)
    {
        double trans = v.w[k]*std::fabs((double)wi.z)*(et*et)/(ei*ei);
        CHECK(std::fabs(trans-(1-F))<=sl, "transmits ", trans, " of the power, Fresnel gives ", 1-F);
        CHECK(trans+refl<=1+2*sl, "reflected ", refl, " plus transmitted ", trans, " power exceeds the incident");
    }
}
static Spectrum per_wavelength(pbt::Gen& g, float lo, float hi)
{
    Spectrum s(g.logf(lo, hi));
    if(g.b())
        for(int k = 0; k<NW; k++)
            s.w[k] = g.logf(lo, hi);
    return s;
}
static bool conductor_behind_wrong()
{
    ConductorReflection R(Spectrum(0.2f), Spectrum(3.f));
    Vec3 wo(0.6f, 0, -0.8f), wi;
    float pdf;
    return std::fabs(R.sample_value(&wo, &wi, 0, 0, &pdf).w[0]*0.8-metal(0.2, 3, 0.8))>1e-4;
}
KNOWN(metal_seen_from_behind)
{
    return conductor_behind_wrong()?"a metal mirror seen from the back side of its surface reflects more light than arrives: ConductorReflection uses the signed cosine (Material.SingleBRDF_sample_value expects that value)":"";
}
PROP(conductor, 1200000, 16000000, "index and absorption (per wavelength, or those of the named metals), a direction on either side: reflectance against the equations of conductors; non-trivial: not along the normal")
{
    Spectrum n, k;
    if(g.p(1, 3))
    {
        int m = (int)g.draw(sizeof(METALS)/sizeof(METALS[0])-1);
        n = METALS[m].n;
        k = METALS[m].k;
        g.note("metal ", m);
    }
    else
    {
        n = per_wavelength(g, 0.05f, 4.f);
        k = per_wavelength(g, 0.1f, 10.f);
    }
    bool below = g.b();
    Vec3 wo = dir_any(g, below), wi(7, 7, 7);
    double c = std::fabs((double)wo.z);
    g.note("n ", n.w[0], " k ", k.w[0], " wo ", wo);
    g.nontrivial(c<0.999);
    ConductorReflection R(n, k);
    Conductor fr(n, k);
    float pdf = -1;
    Spectrum v = R.sample_value(&wo, &wi, g.unit(), g.unit(), &pdf);
    Spectrum e = fr.eval((float)c);
    CHECK(pdf == 1.f, "mirror density ", pdf);
    CHECK(wi.x == -wo.x && wi.y == -wo.y && wi.z == wo.z, "mirrored direction ", wi);
    CHECK(R.value(&wo, &wi).is_black() && R.pdf(&wo, &wi) == 0, "a mirror has a finite value");
    static const bool finding = conductor_behind_wrong();
    for(int w = 0; w<NW; w++)
    {
        double F = metal(n.w[w], k.w[w], c), got = v.w[w]*c;
        // cancellation at low absorption
        double t = n.w[w]*n.w[w]+k.w[w]*k.w[w];
        double tol = 3e-6*(1+2/(t*c*c+2*n.w[w]*c+1)+2*(t+1)/(t+2*n.w[w]*c+c*c));
        CHECK(std::fabs(e.w[w]-F)<=tol, "component ", w, ": Fresnel term ", e.w[w], ", the equations give ", F);
        if(below && finding) // listed: the signed cosine inverts both ratios
        {
            double x = metal(n.w[w], k.w[w], -c);
            CHECK(std::fabs(got-F)<=tol || std::fabs(got-x)<=1e-3*std::fabs(x)+1e-5 || x>50, "component ", w, ": from behind it reflects ", got, ", the equations give ", F);
            continue;
        }
        CHECK(std::fabs(got-F)<=tol, "component ", w, ": reflects ", got, ", the equations give ", F);
        CHECK(got>=-tol && got<=1+tol, "component ", w, ": reflectance ", got, " outside [0,1]");
    }
}
PROP(vectors, 800000, 8000000, "reflection and refraction of a direction about any unit axis; non-trivial: oblique")
{
    Vec3 n = gen_dir(g), v = gen_dir(g);
    n.normalize();
    v.normalize();
    double d = D3(n).dot(D3(v));
    bool asnormal = g.b();
    Normal nn(n.x, n.y, n.z);
    g.nontrivial(std::fabs(d)<0.999 && std::fabs(d)>1e-3);
    Vec3 r = v;
    bool member = g.b();
    if(member)
        asnormal?r.reflect(nn):r.reflect(n);
    else
        r = asnormal?reflect(v, nn):reflect(v, n);
    g.note("axis ", n, " direction ", v);
    CHECK(near3(D3(r), D3(v)-D3(n)*(2*d), 2e-6), "reflected to ", r);
    if(d<0)
    {
        v = -v;
        d = -d;
    }
    double eta = g.pick({1.f, 1.5f, 0.6666667f, 1.33f, 0.75f, 2.f, 0.5f});
    if(g.b())
        eta = g.f(0.3f, 3.f);
    double s2 = eta*eta*std::max(0., D3(v).dot(D3(v))-d*d);
    Vec3 t = v;
    bool ok = true;
    if(member)
        ok = asnormal?t.refract(nn, (float)eta):t.refract(n, (float)eta);
    else
    {
        t = asnormal?refract(v, nn, (float)eta):refract(v, n, (float)eta);
        ok = t.x != 0 || t.y != 0 || t.z != 0;
    }
    g.note("relative index ", eta);
    if(std::fabs(s2-1)<3e-6*eta*eta)
        return;
    CHECK(ok == (s2<1), s2<1?"not refracted, sine ":"refracted beyond the critical angle, sine ", std::sqrt(s2));
    if(!ok)
    {
        if(member)
            CHECK(t.x == v.x && t.y == v.y && t.z == v.z, "a failed refraction changed the vector");
        return;
    }
    double ct = std::sqrt(1-s2);
    D3 want = D3(v)*(-eta)+D3(n)*(eta*d-ct);
    CHECK(near3(D3(t), want, 4e-6*eta*eta/ct+4e-6*(1+eta)), "refracted to ", t, ", Snell gives ", want);
}
PROP(dispersion, 60000, 500000, "coefficients of the Cauchy and Sellmeier equations; non-trivial: dispersive")
{
    double B = g.f(1.f, 2.5f), C = g.pick({0.f, 0.00354f, 0.00420f, 0.01342f}), D = g.pick({0.f, 0.f, 1e-4f});
    if(g.b())
        C = g.f(0, 0.05f);
    Spectrum s = cauchy((float)B, (float)C, (float)D);
    double b1 = g.f(0.1f, 1.5f), b2 = g.f(0, 0.5f), b3 = g.f(0, 2.f), c1 = g.f(0, 0.02f), c2 = g.f(0, 0.05f), c3 = g.f(50, 150.f);
    Spectrum q = sellmeier((float)b1, (float)b2, (float)b3, (float)c1, (float)c2, (float)c3);
    g.note("cauchy ", B, " ", C, " ", D, " sellmeier ", b1, " ", b2, " ", b3, " ", c1, " ", c2, " ", c3);
    g.nontrivial(C != 0);
    double meanc = 0, means = 0;
    for(int k = 0; k<SPECTRUM_SAMPLES; k++)
    {
        double l = (SPECTRUM_START+k*SPECTRUM_INTERVAL)*1e-3, l2 = l*l;
        double c = (float)B+(float)C/l2+(float)D/(l2*l2);
        double m = std::sqrt(1+(float)b1*l2/(l2-(float)c1)+(float)b2*l2/(l2-(float)c2)+(float)b3*l2/(l2-(float)c3));
        meanc += c/SPECTRUM_SAMPLES;
        means += m/SPECTRUM_SAMPLES;
#ifdef SPECTRAL
        CHECK(pbt::near(s.w[k], c, 0, 1e-5), "wavelength ", l, ": Cauchy ", s.w[k], " instead of ", c);
        CHECK(pbt::near(q.w[k], m, 0, 3e-5), "wavelength ", l, ": Sellmeier ", q.w[k], " instead of ", m);
#endif
    }
#ifndef SPECTRAL
    for(int k = 0; k<3; k++)
    {
        CHECK(pbt::near(s.w[k], meanc, 0, 1e-5), "Cauchy ", s.w[k], " instead of ", meanc);
        CHECK(pbt::near(q.w[k], means, 0, 3e-5), "Sellmeier ", q.w[k], " instead of ", means);
    }
#endif
}
