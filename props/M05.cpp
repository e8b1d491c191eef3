// flavours: rgb spec fast
// M05: materials made of several functions, two-sided materials
#include "common.hpp"
#include "setting.hpp"
#include "materials/bsdf.hpp"
#include "materials/dual.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/lambertian.hpp"
#include "materials/microfacet.hpp"
#include "materials/microfacet_distributions.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/single_brdf.hpp"
#include "textures/texture_library.hpp"
#include "utility/spectrum.hpp"
#include <memory>

#ifdef SPECTRAL
#define NW SPECTRUM_SAMPLES
#else
#define NW 3
#endif
namespace
{
int alive; // functions not yet destroyed
// a scattering function with simple closed forms
struct Lobe : public Bdf
{
    float a, b, c; // value a+b*wo.z*wi.z+c*wo.x*wi.y, density likewise
    bool reflect, spec, nothing;
    static char flags(bool r, bool s) { return (char)((r?FLAG_BRDF:FLAG_BTDF) | (s?FLAG_SPEC:0)); }
    Lobe(bool r, bool s, float x, float y, float z, bool none)
            : Bdf(flags(r, s)), a(x), b(y), c(z), reflect(r), spec(s), nothing(none) { alive++; }
    ~Lobe() override { alive--; }
    double val(const D3& wo, const D3& wi) const { return a+b*std::fabs(wo.z*wi.z)+c*wo.x*wi.y; }
    double den(const D3& wo, const D3& wi) const
    {
        if(spec || (wo.z*wi.z>0) != reflect)
            return 0;
        return 0.1*a+std::fabs(wi.z);
    }
    Spectrum value(const Vec3* wo, const Vec3* wi) const override { return Spectrum((float)val(D3(*wo), D3(*wi))); }
    float pdf(const Vec3* wo, const Vec3* wi) const override { return (float)den(D3(*wo), D3(*wi)); }
    D3 drawn(const D3& wo, float r0, float r1) const
    {
        double z = 0.1+0.85*r0, s = std::sqrt(1-z*z), ph = 6.28*r1+a;
        return D3(s*std::cos(ph), s*std::sin(ph), ((wo.z>0) == reflect)?z:-z);
    }
    Spectrum sample_value(const Vec3* wo, Vec3* wi, float r0, float r1, float* pd) const override
    {
        if(nothing)
        {
            *wi = Vec3(0, 0, 0);
            *pd = 1;
            return SPECTRUM_BLACK;
        }
        D3 w = drawn(D3(*wo), r0, r1);
        *wi = Vec3((float)w.x, (float)w.y, (float)w.z);
        *pd = spec?(float)(a+0.5):(float)den(D3(*wo), D3(*wi));
        return Spectrum(spec?(float)(2+b):(float)val(D3(*wo), D3(*wi)));
    }
};
bool same(const Spectrum& a, double b)
{
    for(int k = 0; k<NW; k++)
        if(!pbt::near(a.w[k], b, 2e-4, 5e-4))
            return false;
    return true;
}
struct Part
{
    Lobe* f;
    float tint;
    std::unique_ptr<Tint> tex;
};
void gen_parts(pbt::Gen& g, std::vector<Part>& parts, MultiBSDF& multi)
{
    int n = (int)g.size(1, _MAX_BDF_);
    for(int k = 0; k<n; k++)
    {
        Part p;
        bool refl = g.b(), spec = g.p(1, 3);
        p.f = new Lobe(refl, spec, 0.1f+g.unit_plain(), g.unit_plain(), 0.1f*g.unit_plain(), g.p(1, 10));
        if(g.p(2, 3))
        {
            p.tint = 0.1f*(float)(1+g.draw(9));
            p.tex.reset(new Tint(p.tint));
        }
        else
            p.tint = -1;
        multi.inherit_bdf(p.f, p.tex.get());
        g.note(refl?"reflecting":"transmitting", spec?" specular":"", p.f->nothing?" drawing nothing":"", " part ", p.f->a, " ", p.f->b, " ", p.f->c, " tint ", p.tint);
        parts.push_back(std::move(p));
    }
}
double tint(const Part& p, const Setting& q) { return p.tint<0?1:(double)(p.tint+q.h.uv.x); }
}
PROP(sum, 600000, 8000000, "one to five functions with textures in one material, a frame (also tilted) and two directions: value and density against the sum and average of the parts; non-trivial: two parts or more")
{
    alive = 0;
    {
        MultiBSDF multi;
        std::vector<Part> parts;
        gen_parts(g, parts, multi);
        Setting q;
        gen_setting(g, q, g.p(1, 2)?0:0.02+0.7*g.d01());
        Vec3 wo, wi;
        if(!gen_side(g, q, &wo) || !gen_side(g, q, &wi))
            g.discard();
        g.note("wo ", wo, " wi ", wi, " frame n ", q.n, " surface ", q.gn);
        bool refl = D3(wo).dot(q.gn)*D3(wi).dot(q.gn)>0;
        D3 o = to_s(q, D3(wo)), i = to_s(q, D3(wi));
        g.nontrivial(parts.size()>1);
        for(int spec = 0; spec<2; spec++)
        {
            double v = 0, d = 0;
            int m = 0;
            for(Part& p : parts)
            {
                if(p.f->spec && !spec)
                    continue;
                if(p.f->reflect == refl)
                    v += p.f->val(o, i)*tint(p, q);
                d += p.f->den(o, i);
                m++;
            }
            if(m>1)
                d /= m;
            Spectrum got = multi.value(&wo, &q.h, &wi, &q.m, spec);
            CHECK(same(got, v), "with", spec?"":"out", " specular parts the value is ", got.w[0], ", the sum of the parts ", v);
            float gd = multi.pdf(&wo, &q.h, &q.m, &wi, spec);
            CHECK(pbt::near(gd, d, 1e-4, 3e-4), "with", spec?"":"out", " specular parts the density is ", gd, ", the average of the parts ", d);
        }
    }
    CHECK(alive == 0, alive, " functions were not destroyed with the material");
}
PROP(draw, 600000, 8000000, "one to five functions with textures in one material, a frame (also tilted): a direction drawn from the material comes from the part the first number selects, with the value and density of the whole material; non-trivial: a part with a positive density was drawn")
{
    MultiBSDF multi;
    std::vector<Part> parts;
    gen_parts(g, parts, multi);
    Setting q;
    bool tilted = g.p(1, 2);
    gen_setting(g, q, tilted?0.02+0.7*g.d01():0);
    Vec3 wo, wi(9, 9, 9);
    if(!gen_side(g, q, &wo))
        g.discard();
    float r0 = g.unit(), r1 = g.unit(), r2 = g.unit(), pdf = -1;
    bool spec = g.b(), matched = true;
    if(r0>=1)
        r0 = 0.99999994f;
    g.note("wo ", wo, " frame n ", q.n, " surface ", q.gn, " numbers ", r0, " ", r1, " ", r2, spec?" specular too":"");
    Spectrum v = multi.sample_value(r0, r1, r2, &wo, &q.h, &q.m, &wi, &pdf, spec, &matched);
    std::vector<Part*> can;
    for(Part& p : parts)
        if(spec || !p.f->spec)
            can.push_back(&p);
    if(can.empty())
    {
        CHECK(pdf == 0 && v.is_black(), "nothing can be drawn but density ", pdf, " value ", v.w[0]);
        return;
    }
    double at = (double)r0*can.size();
    if(std::fabs(at-std::round(at))<1e-5 && at>0.5)
        g.discard();
    Part& c = *can[(size_t)at];
    if(c.f->nothing)
    {
        CHECK(pdf == 0 && v.is_black(), "the selected part draws no direction but density ", pdf, " value ", v.w[0]);
        return;
    }
    D3 o = to_s(q, D3(wo)), i = c.f->drawn(o, r1, r2), w = to_w(q, i);
    CHECK(near3(D3(wi), w, 1e-4), "drawn ", wi, ", the selected part draws ", w);
    CHECK(matched == c.f->spec, matched?"reported as specular but the part is not":"not reported as specular");
    g.nontrivial(pdf>0);
    if(c.f->spec)
    {
        g.label("specular");
        double side = w.dot(q.gn)*D3(wo).dot(q.gn);
        if(std::fabs(w.dot(q.gn))<1e-3)
            g.discard();
        if((side>0) != c.f->reflect) // the frame sends it to the wrong side
        {
            CHECK(pdf == 0 || v.is_black(), "drawn to the wrong side of the surface");
            return;
        }
        double wv = (2+c.f->b)*tint(c, q), wd = (c.f->a+0.5)/can.size();
        CHECK(same(v, wv), "specular value ", v.w[0], " of the part is ", wv);
        CHECK(pbt::near(pdf, wd, 1e-4, 3e-4), "specular density ", pdf, " wants ", wd);
        return;
    }
    if(std::fabs(w.dot(q.gn))<1e-3)
        g.discard();
    Spectrum rv = multi.value(&wo, &q.h, &wi, &q.m, false);
    float rp = multi.pdf(&wo, &q.h, &q.m, &wi, spec);
    CHECK(pbt::near(v.w[0], rv.w[0], 2e-4, 5e-4), "drawn with value ", v.w[0], " but the value for this direction is ", rv.w[0]);
    if((D3(wo).dot(q.gn)*w.dot(q.gn)>0) == (o.z*i.z>0)) // the frame agrees with the surface
        CHECK(pbt::near(pdf, rp, 2e-4, 5e-4), "drawn with density ", pdf, " but the density of this direction is ", rp);
}
PROP(leak, 600000, 8000000, "single and layered materials made of the real functions, in straight and tilted frames: drawn directions agree with value and density, purely reflecting materials never send light through the surface, nothing is negative; non-trivial: positive value in a tilted frame")
{
    std::unique_ptr<Bsdf> b;
    bool through = false;
    auto real = [&](bool allow_t) -> Bdf*
    {
        switch(g.draw(allow_t?3:2))
        {
            case 0: return new Lambertian();
            case 1: return new OrenNayar(g.f(0, 1));
            case 2: return new MicrofacetR(new GGXiso(0.05f+0.9f*g.unit_plain()), new Dielectric(Spectrum(1.f), Spectrum(1.5f)));
            default: through = true; return new MicrofacetT(new GGXiso(0.05f+0.5f*g.unit_plain()), Spectrum(1.f), Spectrum(1.5f));
        }
    };
    Tint t1(0.3f), t2(0.7f);
    if(g.b())
        b.reset(new SingleBRDF(real(false), g.b()?&t1:nullptr));
    else
    {
        MultiBSDF* m = new MultiBSDF();
        b.reset(m);
        int n = (int)g.size(1, _MAX_BDF_);
        for(int k = 0; k<n; k++)
        {
            Bdf* f = real(true);
            m->inherit_bdf(f, g.b()?&t1:&t2);
        }
    }
    Setting q;
    bool tilted = g.b();
    gen_setting(g, q, tilted?0.02+1.2*g.d01():0);
    Vec3 wo, wi(9, 9, 9);
    if(!gen_side(g, q, &wo))
        g.discard();
    float r0 = g.unit_plain(), r1 = g.unit_plain(), r2 = g.unit_plain(), pdf = -1;
    bool matched = true, spec = g.b();
    Spectrum v = b->sample_value(r0, r1, r2, &wo, &q.h, &q.m, &wi, &pdf, spec, &matched);
    g.note("wo ", wo, " drawn ", wi, " value ", v.w[0], " density ", pdf, " frame n ", q.n, " surface ", q.gn);
    CHECK(pdf>=0 && std::isfinite(pdf), "density ", pdf);
    for(int k = 0; k<NW; k++)
        CHECK(v.w[k]>=0 && std::isfinite(v.w[k]), "value ", v.w[k]);
    if(pdf == 0)
        return;
    double side = D3(wi).dot(q.gn)*D3(wo).dot(q.gn);
    if(std::fabs(D3(wi).dot(q.gn))<1e-3 || std::fabs(D3(wi).dot(q.n))<1e-2)
        g.discard();
    g.nontrivial(tilted && !v.is_black());
    CHECK(through || side>0 || v.is_black(), "a reflecting material sends light through the surface");
    Spectrum rv = b->value(&wo, &q.h, &wi, &q.m, spec);
    float rp = b->pdf(&wo, &q.h, &q.m, &wi, spec);
    if(v.w[0]>30) // sharp peak: the rounding of the direction matters
        return;
    CHECK(pbt::near(v.w[0], rv.w[0], 2e-3, 2e-2), "drawn with value ", v.w[0], " but the value for this direction is ", rv.w[0]);
    if(!rv.is_black() && pdf<30)
        CHECK(pbt::near(pdf, rp, 2e-3, 2e-2), "drawn with density ", pdf, " but the density of this direction is ", rp);
}
PROP(specular_single, 200000, 2000000, "a material with one mirror: drawn only when specular scattering is asked for; non-trivial: drawn")
{
    Tint t1(0.3f);
    SingleBRDF b(new DielectricReflection(Spectrum(1.f), Spectrum(1.5f)), &t1);
    Setting q;
    bool tilted = g.b();
    gen_setting(g, q, tilted?0.02+1.2*g.d01():0);
    Vec3 wo, wi(9, 9, 9);
    if(!gen_side(g, q, &wo))
        g.discard();
    bool spec = g.b(), matched = false;
    float pdf = -1;
    Spectrum v = b.sample_value(g.unit(), g.unit(), g.unit(), &wo, &q.h, &q.m, &wi, &pdf, spec, &matched);
    CHECK(matched, "a mirror is not reported as specular");
    if(!spec)
    {
        CHECK(pdf == 0 && v.is_black(), "drawn although specular scattering was not asked for");
        return;
    }
    D3 o = to_s(q, D3(wo)), w = to_w(q, D3(-o.x, -o.y, o.z));
    if(std::fabs(w.dot(q.gn))<1e-3)
        g.discard();
    if(w.dot(q.gn)*D3(wo).dot(q.gn)<0)
    {
        CHECK(pdf == 0 || v.is_black(), "a mirror reflects light through the surface");
        return;
    }
    g.nontrivial();
    CHECK(near3(D3(wi), w, 1e-4), "drawn ", wi, " wants ", w);
    CHECK(pdf == 1 && !v.is_black(), "density ", pdf, " value ", v.w[0]);
    CHECK(b.pdf(&wo, &q.h, &q.m, &wi, false) == 0, "density without specular scattering is not zero");
    Spectrum none = b.value(&wo, &q.h, &wi, &q.m, false);
    CHECK(none.is_black(), "value without specular scattering is not black");
}
PROP(specular_layered, 300000, 3000000, "glass (a mirror part and a refracting part) in a straight or tilted frame: each part draws only towards the side of the surface it serves; non-trivial: positive value in a tilted frame")
{
    Tint t1(0.3f), t2(0.6f);
    MultiBSDF m;
    bool swap = g.b();
    for(int k = 0; k<2; k++)
        if((k == 0) != swap)
            m.inherit_bdf(new DielectricReflection(Spectrum(1.f), Spectrum(1.5f)), &t1);
        else
            m.inherit_bdf(new Refraction(Spectrum(1.f), Spectrum(1.5f)), &t2);
    Setting q;
    bool tilted = g.b();
    gen_setting(g, q, tilted?0.02+1.2*g.d01():0);
    Vec3 wo, wi(9, 9, 9);
    if(!gen_side(g, q, &wo))
        g.discard();
    bool second = g.b(), matched = false, mirror = second == swap;
    float pdf = -1;
    Spectrum v = m.sample_value(second?0.75f:0.25f, g.unit(), g.unit(), &wo, &q.h, &q.m, &wi, &pdf, true, &matched);
    if(pdf == 0 || v.is_black())
        return;
    g.nontrivial(tilted);
    g.note(mirror?"mirror":"refraction", " wo ", wo, " drawn ", wi, " frame n ", q.n, " surface ", q.gn);
    CHECK(matched, "glass is not reported as specular");
    double side = D3(wi).dot(q.gn)*D3(wo).dot(q.gn);
    if(std::fabs(D3(wi).dot(q.gn))<1e-3)
        g.discard();
    CHECK((side>0) == mirror, mirror?"the mirror part sends light through the surface":"the refracting part sends light back");
}
namespace
{
// a material that records how it was asked
struct Probe : public Bsdf
{
    mutable int values = 0, draws = 0, dens = 0, frames = 0;
    mutable const HitPoint* seen = nullptr;
    float k;
    explicit Probe(float f) : k(f) { }
    Spectrum value(const Vec3* wo, const HitPoint* h, const Vec3* wi, const ShadingSpace* m, bool s) const override
    {
        values++; seen = h;
        return Spectrum(k+wo->x*0.1f+wi->y*0.01f+m->n.x*0.001f+(s?5:0));
    }
    Spectrum sample_value(float r0, float r1, float r2, const Vec3* wo, const HitPoint* h, const ShadingSpace* m, Vec3* wi, float* pdf, bool s, bool* ms) const override
    {
        draws++; seen = h;
        *wi = Vec3(r0, r1, r2);
        *pdf = k+wo->z;
        *ms = k>0.5f;
        return Spectrum(k+(s?5:0)+m->n.y);
    }
    float pdf(const Vec3* wo, const HitPoint* h, const ShadingSpace* m, const Vec3* wi, bool s) const override
    {
        dens++; seen = h;
        return k+wo->y+wi->x+m->n.z+(s?5:0);
    }
    void gen_shading_matrix(const HitPoint* h, ShadingSpace* m, Normal* n) const override
    {
        frames++; seen = h;
        m->n = Normal(k, 1, 2);
        *n = Normal(3, k, 4);
    }
};
}
PROP(dual, 400000, 4000000, "two materials behind a mask image: every question about a point is answered by the one the mask selects there; non-trivial: the mask selects the second")
{
    int side = (int)g.pick({1u, 2u, 4u, 8u});
    std::vector<uint32_t> px(side*side);
    for(auto& p : px)
        p = (uint32_t)g.draw(0xffffffffu);
    ImageMapUnfiltered map(px.data(), (uint16_t)side);
    Vec2 shift(g.p(1, 2)?0:g.f(-1, 1), g.p(1, 2)?0:g.f(-1, 1)), scale(1, 1);
    TextureImage tex(&map, shift, scale, true);
    ImageChannel ch = (ImageChannel)g.draw(3);
    bool inv = g.b(), none = g.p(1, 10);
    MaskBoolean mask;
    if(!none)
        mask = MaskBoolean(&tex, ch, inv);
    Probe a(0.2f), b(0.8f);
    DualBsdf d(&a, &b, mask);
    Setting q;
    gen_setting(g, q, 0);
    int queries = (int)g.size(1, 8);
    for(int k = 0; k<queries; k++)
    {
        q.h.uv = Point2(g.f(-2, 2), g.f(-2, 2));
        double tu = (q.h.uv.x+shift.x)*side, tv = (q.h.uv.y+shift.y)*side;
        if(std::fabs(tu-std::round(tu))<1e-3 || std::fabs(tv-std::round(tv))<1e-3)
            continue;
        bool first = none;
        if(!none)
        {
            Texel t = tex.map_value(&q.h).bgra_texel;
            uint8_t c = ch == ALPHA?t.a:(ch == RED?t.r:(ch == GREEN?t.g:t.b));
            first = (c>=128) != inv;
        }
        Probe &want = first?a:b, &other = first?b:a;
        g.nontrivial(!first);
        Vec3 wo = gen_dir(g), wi = gen_dir(g);
        bool s = g.b();
        want.values = want.draws = want.dens = want.frames = 0;
        other.values = other.draws = other.dens = other.frames = 0;
        Spectrum v = d.value(&wo, &q.h, &wi, &q.m, s), v2 = want.value(&wo, &q.h, &wi, &q.m, s);
        CHECK(v.w[0] == v2.w[0], "value ", v.w[0], " the selected material says ", v2.w[0]);
        Vec3 w1, w2;
        float p1, p2;
        bool m1, m2;
        float r0 = g.unit(), r1 = g.unit(), r2 = g.unit();
        v = d.sample_value(r0, r1, r2, &wo, &q.h, &q.m, &w1, &p1, s, &m1);
        v2 = want.sample_value(r0, r1, r2, &wo, &q.h, &q.m, &w2, &p2, s, &m2);
        CHECK(v.w[0] == v2.w[0] && p1 == p2 && m1 == m2 && w1 == w2, "drawing differs from the selected material");
        CHECK(d.pdf(&wo, &q.h, &q.m, &wi, s) == want.pdf(&wo, &q.h, &q.m, &wi, s), "the density is not the one of the selected material");
        ShadingSpace f1, f2;
        Normal n1, n2;
        d.gen_shading_matrix(&q.h, &f1, &n1);
        want.gen_shading_matrix(&q.h, &f2, &n2);
        CHECK(D3(f1.n).x == D3(f2.n).x && D3(n1).y == D3(n2).y, "the frame is not the one of the selected material");
        CHECK(other.values+other.draws+other.dens+other.frames == 0, "the other material was asked");
    }
}
PROP(refused, 20000, 200000, "a transmitting function handed to a purely reflecting material: refused, destroyed, replaced by a diffuse one; non-trivial: always")
{
    alive = 0;
    g.nontrivial();
    {
        Tint t(0.3f);
        bool tr = g.b();
        SingleBRDF b(new Lobe(!tr, g.b(), 1, 1, 0, false), &t);
        CHECK(alive == (tr?0:1), "functions alive: ", alive);
        if(tr)
        {
            Setting q;
            gen_setting(g, q, 0);
            Vec3 wo, wi;
            if(!gen_side(g, q, &wo) || !gen_side(g, q, &wi))
                g.discard();
            Spectrum v = b.value(&wo, &q.h, &wi, &q.m, false);
            double want = D3(wo).dot(q.gn)*D3(wi).dot(q.gn)>0?(0.3+q.h.uv.x)/3.14159265358979:0;
            CHECK(same(v, want), "value ", v.w[0], " wants ", want);
        }
    }
    CHECK(alive == 0, alive, " functions were not destroyed with the material");
}
