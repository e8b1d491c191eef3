// flavours: rgb fast
// L03: radiance against known solutions
#include "lamp.hpp"
#include "integrators/path_tracer.hpp"
#include "materials/bsdf.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/lambertian.hpp"
#include "materials/metals.hpp"
#include "materials/microfacet.hpp"
#include "materials/microfacet_distributions.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/single_brdf.hpp"
#include "primitives/box.hpp"
#include "samplers/sampler_random.hpp"
#include "textures/texture_uniform.hpp"
#include "utility/occlusion_tester.hpp"
#include <cstring>

namespace
{
const int NW = 3;
struct Rgb
{
    double v[3] = {0, 0, 0};
    Rgb() { }
    Rgb(const Spectrum& s)
    {
        for(int k = 0; k<NW; k++)
            v[k] = s.w[k];
    }
    Rgb operator*(double f) const
    {
        Rgb r = *this;
        for(double& x : r.v)
            x *= f;
        return r;
    }
    Rgb operator*(const Rgb& o) const
    {
        Rgb r;
        for(int k = 0; k<NW; k++)
            r.v[k] = v[k]*o.v[k];
        return r;
    }
    Rgb operator+(const Rgb& o) const
    {
        Rgb r;
        for(int k = 0; k<NW; k++)
            r.v[k] = v[k]+o.v[k];
        return r;
    }
};
std::ostream& operator<<(std::ostream& o, const Rgb& c) { return o << "(" << c.v[0] << " " << c.v[1] << " " << c.v[2] << ")"; }
Spectrum spectrum(double r, double g, double b)
{
    Spectrum s(0.f);
    s.w[0] = (float)r;
    s.w[1] = (float)g;
    s.w[2] = (float)b;
    return s;
}
Spectrum gen_spectrum(pbt::Gen& g, float lo, float hi)
{
    double a = g.f(lo, hi), b = g.f(lo, hi), c = g.f(lo, hi);
    return spectrum(a, b, c);
}
struct Stage
{
    Scene scene;
    std::vector<std::unique_ptr<Bsdf>> mats;
    std::vector<std::unique_ptr<Texture>> texs;
    std::vector<const Asset*> assets;
    std::vector<const Bsdf*> of;
    const Texture* uniform(const Spectrum& s)
    {
        texs.emplace_back(new TextureUniform(s));
        return texs.back().get();
    }
    const Bsdf* keep(Bsdf* b)
    {
        b->inherit_bump(new Bump());
        mats.emplace_back(b);
        return b;
    }
    const Bsdf* diffuse(const Spectrum& albedo) { return keep(new SingleBRDF(new Lambertian(), uniform(albedo))); }
    const Bsdf* black() { return diffuse(SPECTRUM_BLACK); }
    void add(const Shape* sh, const Matrix4& m, const Bsdf* mat, const Spectrum* light)
    {
        std::vector<unsigned char> idx((size_t)sh->get_faces_number(), 0);
        if(light)
        {
            AreaLight* a = new AreaLight(sh, m, *light);
            a->set_materials(&mat, 1, idx.data());
            scene.inherit_light(a);
            assets.push_back(a);
        }
        else
        {
            Asset* a = new Asset(sh, m, 1);
            a->set_materials(&mat, 1, idx.data());
            scene.inherit_asset(a);
            assets.push_back(a);
        }
        of.push_back(mat);
    }
    void ready() { scene.k.buildTree(); }
    // nearest by trying all
    int nearest(const Ray& r, float* t, HitPoint* h, bool* tie = NULL) const
    {
        int who = -1;
        *t = FLT_MAX;
        std::vector<float> all;
        for(size_t k = 0; k<assets.size(); k++)
        {
            HitPoint q;
            memset((void*)&q, 0, sizeof q);
            float d = FLT_MAX;
            bool hit = assets[k]->intersect(&r, &d, &q);
            if(hit)
                all.push_back(d);
            if(hit && d<*t)
            {
                *t = d;
                *h = q;
                h->asset_h = assets[k];
                who = (int)k;
            }
        }
        int same = 0;
        for(float d : all)
            same += std::fabs(d-*t)<1e-3f+1e-4f**t;
        if(tie)
            *tie = same>1;
        return who;
    }
};
struct Dice
{
    unsigned int seed[32];
    explicit Dice(uint64_t s)
    {
        uint64_t x = s*0x9e3779b97f4a7c15ull+0x1234567;
        for(unsigned int& v : seed)
        {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v = (unsigned int)(x >> 16);
        }
    }
};
// radiance is private in the path tracer, public in its base
Spectrum estimate(const Stage& s, const Ray& r, const HitPoint& h, Sampler* dice, OcclusionTester* ot)
{
    static const PathTracer tracer;
    const LightIntegrator* i = &tracer;
    HitPoint q = h;
    q.differentials = false;
    Spectrum v = i->radiance(&s.scene, &q, &r, dice, ot);
    for(int k = 0; k<NW; k++)
    {
        CHECK(std::isfinite(v.w[k]), "an estimate is not finite");
        CHECK(v.w[k]>=0, "an estimate is negative: ", v.w[k]);
    }
    return v;
}
struct Average
{
    double n = 0, s[3] = {0, 0, 0}, q[3] = {0, 0, 0};
    void add(const Spectrum& v)
    {
        n++;
        for(int k = 0; k<NW; k++)
        {
            s[k] += v.w[k];
            q[k] += (double)v.w[k]*v.w[k];
        }
    }
    double mean(int k) const { return s[k]/n; }
    double error(int k) const { return std::sqrt(std::max(0., q[k]/n-mean(k)*mean(k))/n); }
    bool close(const Rgb& want, double rel, double abs) const
    {
        for(int k = 0; k<NW; k++)
            if(std::fabs(mean(k)-want.v[k])>7*error(k)+rel*want.v[k]+abs)
                return false;
        return true;
    }
};
std::ostream& operator<<(std::ostream& o, const Average& a)
{
    return o << "(" << a.mean(0) << " " << a.mean(1) << " " << a.mean(2) << ") +- " << a.error(1);
}
Ray ray(const D3& o, const D3& d)
{
    D3 n = d.norm();
    return Ray(Point3((float)o.x, (float)o.y, (float)o.z), Vec3((float)n.x, (float)n.y, (float)n.z));
}
Matrix4 place(const D3& pos, const D3& scale, const D3& rot = D3())
{
    Placement p;
    p.pos = pos;
    p.scale = scale;
    p.rot = rot;
    return p.m();
}
// a square of side 1 around the origin facing +z
const Shape* square()
{
    Mesh* mesh = new Mesh(2);
    Vertex v[4];
    for(int k = 0; k<4; k++)
    {
        v[k].p = Point3(k == 1 || k == 2?0.5f:-0.5f, k>=2?0.5f:-0.5f, 0);
        v[k].n = Normal(0, 0, 1);
        v[k].t = Point2(v[k].p.x+0.5f, v[k].p.y+0.5f);
    }
    mesh->add_triangle(&v[0], &v[1], &v[2]);
    mesh->add_triangle(&v[0], &v[2], &v[3]);
    mesh->finalize();
    return mesh;
}
// a box with normals to the inside or outside
const Shape* room(bool inward)
{
    Mesh* mesh = new Mesh(12);
    for(int axis = 0; axis<3; axis++)
        for(int side = -1; side<=1; side += 2)
        {
            Vertex v[4];
            for(int k = 0; k<4; k++)
            {
                D3 q, n;
                q[axis] = side*0.5;
                q[(axis+1)%3] = k == 1 || k == 2?0.5:-0.5;
                q[(axis+2)%3] = k>=2?0.5:-0.5;
                n[axis] = inward?-side:side;
                v[k].p = Point3((float)q.x, (float)q.y, (float)q.z);
                v[k].n = Normal((float)n.x, (float)n.y, (float)n.z);
                v[k].t = Point2((float)(k == 1 || k == 2), (float)(k>=2));
            }
            mesh->add_triangle(&v[0], &v[1], &v[2]);
            mesh->add_triangle(&v[0], &v[2], &v[3]);
        }
    mesh->finalize();
    return mesh;
}
const double BIG = 0.02; // of a length: how far rays are moved aside to see whether they are decided
}

PROP(emitters, 100000, 2000000, "scenes of black surfaces and black emitters of any colour (spheres, squares, boxes) under any placement: every estimate along a ray is exactly the emission when the front of an emitter is nearest, and zero otherwise; non-trivial: an emitter is hit")
{
    Stage s;
    std::vector<const Shape*> shapes = {new Sphere(), square(), room(false), new Box()};
    for(const Shape* x : shapes)
        s.scene.inherit_shape(x);
    int n = (int)g.size(1, 10);
    std::vector<D3> at;
    std::vector<Spectrum> glow(n, SPECTRUM_BLACK);
    for(int k = 0; k<n; k++)
    {
        int what = (int)g.draw(3);
        bool lit = what != 3 && g.p(2, 3);
        double z = g.logf(0.3f, 3);
        D3 pos(g.f(-6, 6), g.f(-6, 6), g.f(-6, 6));
        glow[k] = gen_spectrum(g, 0, g.pick({1.f, 40.f}));
        s.add(shapes[what], place(pos, D3(z, z, z), what == 3?D3():D3(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3))), s.black(), lit?&glow[k]:NULL);
        if(!lit)
            glow[k] = SPECTRUM_BLACK;
        at.push_back(pos);
        g.note(what == 0?"sphere":what == 1?"square":what == 2?"room":"box", " at ", pos, " size ", z, lit?" emits ":" ", Rgb(glow[k]));
    }
    s.ready();
    Dice d(g.draw(1u << 20));
    SamplerRandom dice(0, 1, 0, 1, 1, d.seed);
    OcclusionTester ot(&s.scene);
    for(int q = 0; q<6; q++)
    {
        float e[3];
        g.dir(e, e+1, e+2);
        D3 dir(e[0], e[1], e[2]), o = at[g.draw(n-1)]+D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))-dir*15.;
        Ray r = ray(o, dir);
        HitPoint h;
        memset((void*)&h, 0, sizeof h);
        if(!s.scene.k.intersect(&r, &h))
            continue;
        int who = -1;
        for(int k = 0; k<n; k++)
            if(s.assets[k] == h.asset_h)
                who = k;
        double c = -D3(h.normal_h).dot(D3(r.direction));
        if(who<0 || std::fabs(c)<1e-3)
            continue;
        Rgb want = c>0?Rgb(glow[who]):Rgb();
        g.nontrivial(want.v[0]+want.v[1]+want.v[2]>0);
        Rgb got(estimate(s, r, h, &dice, &ot));
        for(int k = 0; k<NW; k++)
            CHECK(pbt::near(got.v[k], want.v[k], 1e-6, 1e-5), "the ray from ", o, " towards ", dir, " hits instance ", who, ", its radiance is ", got, " instead of ", want);
    }
}

PROP(mirrors, 12000, 200000, "mirrors of any metal (spheres, boxes) between black emitters and black surfaces: rays followed by the law of reflection in the test have the emission they end on times the reflectances, exactly for up to four mirrors and on average for more; non-trivial: light seen in at least one mirror")
{
    Stage s;
    std::vector<const Shape*> shapes = {new Sphere(), square(), room(false), room(true)};
    for(const Shape* x : shapes)
        s.scene.inherit_shape(x);
    int n = (int)g.size(1, 5);
    struct Thing
    {
        bool mirror;
        Spectrum glow, eta, k;
    };
    std::vector<Thing> things;
    std::vector<D3> at;
    Spectrum one = gen_spectrum(g, 0.2f, 3);
    bool enclosed = g.b(); // in a room that glows or reflects
    double room_size = g.pick({1.f, 0.4f, 0.4f});
    if(enclosed)
    {
        Thing t;
        t.mirror = g.p(1, 3);
        t.glow = one;
        const metal_t m[] = {METAL_SILVER, METAL_GOLD, METAL_COPPER, METAL_IRON};
        int w = (int)g.draw(3);
        t.eta = Spectrum(METALS[m[w]].n);
        t.k = Spectrum(METALS[m[w]].k);
        things.push_back(t);
        s.add(shapes[3], place(D3(), D3(40, 36, 44)*room_size), t.mirror?s.keep(new SingleBRDF(new ConductorReflection(t.eta, t.k))):s.black(), t.mirror?NULL:&t.glow);
        at.push_back(D3());
        g.note("room ", t.mirror?"mirror":"glowing");
    }
    for(int k = 0; k<n; k++)
    {
        Thing t;
        int what = (int)g.draw(2);
        bool echo = enclosed && things[0].mirror; // long paths: more ends
        t.mirror = what != 1 && (echo?g.p(1, 3):g.p(3, 4));
        bool lit = !t.mirror && g.p(2, 3);
        t.glow = gen_spectrum(g, 0.1f, 5);
        const metal_t m[] = {METAL_SILVER, METAL_GOLD, METAL_COPPER, METAL_ALUMINIUM, METAL_IRON, METAL_TUNGSTEN};
        int w = (int)g.draw(5);
        t.eta = Spectrum(METALS[m[w]].n);
        t.k = Spectrum(METALS[m[w]].k);
        double z = echo?g.f(2.f, 6.f):g.f(0.8f, 3);
        D3 pos = D3(g.f(-6, 6), g.f(-6, 6), g.f(-6, 6))*(echo?room_size:1.), rot(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3));
        s.add(shapes[what], place(pos, D3(z, z, z), rot), t.mirror?s.keep(new SingleBRDF(new ConductorReflection(t.eta, t.k))):s.black(), lit?&t.glow:NULL);
        if(!lit)
            t.glow = SPECTRUM_BLACK;
        things.push_back(t);
        at.push_back(pos);
        g.note(what == 0?"sphere":what == 1?"square":"box", " at ", pos, " size ", z, t.mirror?" mirror":lit?" emits":" black");
    }
    if(things[0].mirror && enclosed)
        things[0].glow = SPECTRUM_BLACK;
    s.ready();
    Dice d(g.draw(1u << 20));
    SamplerRandom dice(0, 1, 0, 1, 1, d.seed);
    OcclusionTester ot(&s.scene);
    for(int q = 0; q<4; q++)
    {
        float e[3];
        g.dir(e, e+1, e+2);
        D3 dir(e[0], e[1], e[2]);
        if(g.p(3, 4)) // nothing special
            dir = D3(g.unit_plain()-0.5, g.unit_plain()-0.5, g.unit_plain()-0.47).norm();
        D3 o = at[g.draw(at.size()-1)]+D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))-dir*7.;
        if(enclosed && g.b()) // from anywhere
            o = D3(g.unit_plain()-0.5, g.unit_plain()-0.5, g.unit_plain()-0.5)*(34*room_size);
        if(enclosed && o.maxabs()>17*room_size)
            continue;
        // follow the ray and some beside it
        std::vector<int> path;
        Rgb want;
        bool vague = false;
        for(int k = 0; k<5 && !vague; k++)
        {
            std::vector<int> p;
            D3 u = dir.cross(std::fabs(dir.x)<0.6?D3(1, 0, 0):D3(0, 1, 0)).norm(), v = dir.cross(u);
            D3 at0 = o+(k == 0?D3():(k<3?u:v)*(k%2?1e-4:-1e-4)), dd = dir;
            Rgb power;
            power.v[0] = power.v[1] = power.v[2] = 1;
            Rgb end;
            for(int b = 0; b<=DEFAULT_BOUNCES; b++)
            {
                Ray r = ray(at0, dd);
                HitPoint h;
                float t;
                bool tie;
                int who = s.nearest(r, &t, &h, &tie);
                p.push_back(who);
                vague = vague || tie;
                if(who<0)
                    break;
                if(t<0.05)
                    vague = true;
                D3 nn = D3(h.normal_h).norm();
                double c = -nn.dot(dd.norm());
                if(std::fabs(c)<0.02)
                    vague = true;
                if(!things[who].mirror)
                {
                    if(c>0)
                        end = power*Rgb(things[who].glow);
                    break;
                }
                if(c<0)
                {
                    vague = true; // the back of metal
                    break;
                }
                Conductor f(things[who].eta, things[who].k);
                power = power*Rgb(f.eval((float)c));
                dd = (dd.norm()+nn*(2*c)).norm();
                at0 = D3(h.point_h);
            }
            if(k == 0)
            {
                path = p;
                want = end;
            }
            else if(p != path)
                vague = true;
        }
        if(vague || path.empty() || path[0]<0)
            continue;
        g.nontrivial(path.size()>=2 && want.v[0]+want.v[1]+want.v[2]>0);
        g.label(pbt::str("path of ", path.size()));
        Ray r = ray(o, dir);
        HitPoint h;
        memset((void*)&h, 0, sizeof h);
        if(!s.scene.k.intersect(&r, &h))
            continue;
        if(path.size()<=5)
        {
            Rgb got(estimate(s, r, h, &dice, &ot));
            for(int k = 0; k<NW; k++)
                CHECK(pbt::near(got.v[k], want.v[k], 1e-5, 3e-3), "the ray from ", o, " towards ", dir, " reaches instance ", path.back(), " over ", path.size()-1, " mirrors, its radiance is ", got, " instead of ", want);
        }
        else
        {
            // the longest paths may end early at random, or may not exist
            Average a;
            bool ok = false, dark = want.v[0]+want.v[1]+want.v[2] == 0;
            for(int round = 0; round<5 && (!ok || (round<3 && !dark)); round++)
            {
                for(int k = 0; k<(dark?100:500 << (2*round)); k++)
                    a.add(estimate(s, r, h, &dice, &ot));
                ok = a.close(want, 0.004, 1e-5);
            }
            CHECK(ok, "the ray from ", o, " towards ", dir, " reaches instance ", path.back(), " over ", path.size()-1, " mirrors, its radiance is ", a, " instead of ", want);
        }
    }
}

namespace
{
const Bsdf* gen_receiver(pbt::Gen& g, Stage& s)
{
    Spectrum a = gen_spectrum(g, 0.05f, 1);
    switch(g.draw(3))
    {
        case 0:
        case 1: return s.diffuse(a);
        case 2: return s.keep(new SingleBRDF(new OrenNayar(g.f(1, 90)), s.uniform(a)));
        default:
        {
            MultiBSDF* b = new MultiBSDF();
            b->inherit_bdf(new Lambertian(), s.uniform(a));
            b->inherit_bdf(new MicrofacetR(new GGXiso(g.f(0.3f, 1)), new Dielectric(cauchy(1.f, 0), cauchy(1.5f, 0))), s.uniform(SPECTRUM_ONE));
            return s.keep(b);
        }
    }
}
}

PROP(direct, 1500, 40000, "a reflecting square (matte, rough matte, glossy) lit by up to 4 black emitters (squares, triangles, sometimes one sphere) with black spheres and boxes in between, seen directly or in a small mirror: the mean of independent estimates along a ray to the square is the integral of material, emission, cosines and visibility over the surfaces of the emitters, computed by quadrature; non-trivial: some light arrives")
{
    static const bool kept = hidden_points_kept();
    Stage s;
    const Shape* sq = square(), *sp = new Sphere(), *bx = new Box();
    s.scene.inherit_shape(sq);
    s.scene.inherit_shape(sp);
    s.scene.inherit_shape(bx);
    const Bsdf* mat = gen_receiver(g, s);
    s.add(sq, place(D3(), D3(60, 60, 1)), mat, NULL);
    int nl = (int)g.size(1, 4);
    std::vector<Lamp> lamps;
    std::vector<Spectrum> glow;
    Placement before;
    bool closed = false;
    for(int k = 0; k<nl; k++)
    {
        Placement p;
        double z = g.logf(0.8f, 5);
        int kind = g.p(1, 4)?L_SPHERE:L_QUAD;
        closed = closed || kind == L_SPHERE;
        p.scale = kind == L_SPHERE?D3(z, z, z)*0.5:D3(z, z*g.f(0.5f, 2), z);
        p.rot = D3(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3));
        p.pos = D3(g.f(-6, 6), g.f(-6, 6), g.f(3, 10));
        glow.push_back(gen_spectrum(g, 0.2f, 20));
        if(kind == L_QUAD && g.b()) // over the square, parallel to it
        {
            p.pos = D3(g.f(-3, 3), g.f(-3, 3), g.f(2, 6));
            p.scale = D3(1, 1, 1)*g.logf(2, 12);
            p.rot = D3(g.f(-0.2f, 0.2f), g.f(-0.2f, 0.2f), g.f(-3, 3));
            if(!lamps.empty() && g.p(2, 3)) // behind another one
            {
                p.pos = before.pos+D3(g.f(-1, 1), g.f(-1, 1), g.f(0.8f, 3));
                p.scale = D3(1, 1, 1)*(before.scale.maxabs()*g.f(0.8f, 1.5f));
                glow.back() = glow.back()*g.logf(1, 20);
                g.label("one behind another");
            }
        }
        before = p;
        Lamp l = gen_lamp(g, kind, p, glow.back());
        // never through the square
        double low = 1e9;
        for(const Facet& f : l.facets)
            for(const D3& x : f.p)
                low = std::min(low, x.z);
        if(l.ball)
            low = p.pos.z-z/2;
        if(low<1)
            g.discard();
        lamps.push_back(l);
        g.note(kind == L_SPHERE?"sphere ":"square ", p, " emits ", Rgb(glow.back()));
    }
    for(int k = 0; k<nl; k++)
        s.add(lamps[k].shape.get(), lamps[k].matrix, s.black(), &glow[k]);
    // lights hide each other, things too
    int blockers = (int)g.size(0, 3);
    for(int k = 0; k<blockers; k++)
    {
        bool ball = g.b();
        D3 pos(g.f(-5, 5), g.f(-5, 5), g.f(1.5f, 8));
        double z = g.f(0.3f, 1.2f);
        s.add(ball?sp:bx, place(pos, D3(z, z, z)), s.black(), NULL);
        g.note(ball?"black sphere at ":"black box at ", pos, " size ", z);
    }
    D3 x(g.f(-4, 4), g.f(-4, 4), 0);
    float e[3];
    g.dir(e, e+1, e+2);
    D3 view = D3(e[0], e[1], std::fabs(e[2])+0.3).norm();
    // sometimes seen in a mirror, too small to matter to the light
    bool mirrored = g.p(1, 4);
    D3 facing, coming;
    const Bsdf* metal = NULL;
    if(mirrored)
    {
        float q[3];
        g.dir(q, q+1, q+2);
        facing = D3(q[0], q[1], q[2])-view*0.5;
        if(facing.len()<0.1 || facing.norm().dot(-view)<0.3)
            g.discard();
        facing = facing.norm();
        coming = facing*(2*facing.dot(view))-view; // towards the mirror
        Mesh* m = new Mesh(1);
        D3 c = x+view*0.7, u = facing.cross(std::fabs(facing.x)<0.6?D3(1, 0, 0):D3(0, 1, 0)).norm(), v = facing.cross(u);
        auto corner = [&](double a, double b) { D3 p = c+u*a+v*b; return Point3((float)p.x, (float)p.y, (float)p.z); };
        m->add_triangle(corner(0.003, 0), corner(-0.002, 0.003), corner(-0.002, -0.003), Normal((float)facing.x, (float)facing.y, (float)facing.z));
        m->finalize();
        s.scene.inherit_shape(m);
        const metal_t ms[] = {METAL_SILVER, METAL_GOLD, METAL_COPPER, METAL_IRON};
        int w = (int)g.draw(3);
        metal = s.keep(new SingleBRDF(new ConductorReflection(Spectrum(METALS[ms[w]].n), Spectrum(METALS[ms[w]].k))));
        s.add(m, place(D3(), D3(1, 1, 1)), metal, NULL);
        g.label("seen in a mirror");
    }
    s.ready();
    Ray r = ray(x+view*(mirrored?0.69:0.7), -view), first = r;
    HitPoint seen_first;
    Rgb share = Rgb(SPECTRUM_ONE);
    if(mirrored)
    {
        first = ray(x+view*0.7-coming*0.4, coming);
        memset((void*)&seen_first, 0, sizeof seen_first);
        if(!s.scene.k.intersect(&first, &seen_first) || seen_first.asset_h != s.assets.back())
            g.discard();
        ShadingSpace ms;
        Normal mn;
        metal->gen_shading_matrix(&seen_first, &ms, &mn);
        Vec3 back = -first.direction, out;
        float p;
        bool spec;
        Spectrum f = metal->sample_value(0.5f, 0.5f, 0.5f, &back, &seen_first, &ms, &out, &p, true, &spec);
        if(!(p>0))
            g.discard();
        // its reflectance is checked with the mirrors above and in M03
        share = Rgb(f)*(std::fabs(D3(out).dot(facing))/p);
        r = Ray(seen_first.point_h, out);
    }
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    if(!s.scene.k.intersect(&r, &h) || h.asset_h != s.assets[0])
        g.discard();
    x = D3(h.point_h);
    g.note("seen at ", x, " from ", view);
    ShadingSpace mt;
    Normal nn;
    mat->gen_shading_matrix(&h, &mt, &nn);
    Vec3 wo = -r.direction;
    Rgb want, wrong;
    int ties = 0, probes = 0;
    for(int k = 0; k<nl; k++)
    {
        const Lamp& l = lamps[k];
        for(const Patch& a : patches(l, l.ball?24:28))
        {
            D3 to = a.p-x, d = to.norm();
            double dist = to.len(), cr = d.z, cl = -a.flat.dot(d);
            if(dist<3*a.edge)
                g.discard();
            if(cr<=0)
                continue;
            Vec3 wi((float)d.x, (float)d.y, (float)d.z);
            Rgb f(mat->value(&wo, &h, &wi, &mt, false));
            Ray probe(h.point_h, wi);
            HitPoint hh;
            float t;
            bool tie;
            int who = s.nearest(probe, &t, &hh, &tie);
            ties += tie;
            probes++;
            bool mine = who == 1+k, seen = mine && cl>0 && (l.ball || std::fabs(t-dist)<1e-2*dist);
            Rgb piece = f*Rgb(glow[k])*(cr*a.da/(dist*dist));
            if(seen)
                want = want+piece*cl;
            if(!mine || !l.ball)
            {
                if(seen)
                    wrong = wrong+piece*cl;
                continue;
            }
            // the listed finding: hidden points stand for the visible one in front as well
            double cf = std::fabs(D3(hh.normal_h).norm().dot(d)), pl = (double)t*t/(cf*l.area), pb = mat->pdf(&wo, &h, &mt, &wi, false);
            double wl = pl*pl/(pl*pl+pb*pb);
            wrong = wrong+f*Rgb(glow[k])*(cr*wl/pl*a.da/l.area);
            if(seen)
                wrong = wrong+piece*(cl*(1-wl));
        }
    }
    if(ties>probes/200)
        g.discard(); // coincident surfaces
    want = want*share;
    wrong = wrong*share;
    if(!mirrored)
        seen_first = h;
    g.nontrivial(want.v[0]+want.v[1]+want.v[2]>0.001);
    g.label(closed?"with a sphere":"squares only");
    Dice dd(g.draw(1u << 20));
    SamplerRandom dice(0, 1, 0, 1, 1, dd.seed);
    OcclusionTester ot(&s.scene);
    Average a;
    bool ok = false;
    for(int round = 0; round<5 && !ok; round++) // more when in doubt
    {
        for(int k = 0; k<(1500 << round); k++)
            a.add(estimate(s, mirrored?first:r, seen_first, &dice, &ot));
        ok = a.close(want, 0.03, 1e-4) || (kept && closed && a.close(wrong, 0.03, 1e-4));
    }
    CHECK(ok, "the radiance is ", a, " instead of ", want, closed?pbt::str(" (or ", wrong, " with hidden points)"):std::string());
}

PROP(enclosure, 600, 15000, "inside of a glowing box: with walls of any colour that also reflect, alone, the radiance is emission/(1-reflectance) up to the light of paths beyond the longest allowed; with black walls and one convex object of any size and material it is emission times what the material reflects of uniform light; non-trivial: light is reflected")
{
    Stage s;
    const Shape* in = room(true);
    s.scene.inherit_shape(in);
    Spectrum glow = gen_spectrum(g, 0.1f, 4);
    D3 size(g.f(20, 60), g.f(20, 60), g.f(20, 60)), rot(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3)), pos(g.f(-9, 9), g.f(-9, 9), g.f(-9, 9));
    bool alone = g.b();
    Spectrum albedo = alone?gen_spectrum(g, 0.05f, g.b()?0.6f:0.75f):SPECTRUM_BLACK;
    s.add(in, place(pos, size, rot), s.diffuse(albedo), &glow);
    const Bsdf* mat = NULL;
    if(!alone)
    {
        const Shape* sp = new Sphere(), *bx = room(false);
        s.scene.inherit_shape(sp);
        s.scene.inherit_shape(bx);
        bool ball = g.b();
        mat = gen_receiver(g, s);
        double z = g.f(1, 4);
        s.add(ball?sp:bx, place(pos, D3(z, z, z), rot), mat, NULL);
        g.note(ball?"a sphere":"a box", " of size ", z);
    }
    s.ready();
    g.note("room ", size, " emits ", Rgb(glow), " reflects ", Rgb(albedo));
    float e[3];
    g.dir(e, e+1, e+2);
    D3 d(e[0], e[1], e[2]), o = pos-d*(alone?1.:6.);
    if(alone)
        g.dir(e, e+1, e+2), d = D3(e[0], e[1], e[2]);
    Ray r = ray(o, d);
    HitPoint h;
    memset((void*)&h, 0, sizeof h);
    CHECK(s.scene.k.intersect(&r, &h), "the ray leaves the room");
    Rgb want, least;
    g.nontrivial(true);
    if(alone)
    {
        double near = 1e9; // edges of the room are not judged
        D3 p = D3(h.point_h);
        DM inv;
        DM(place(pos, size, rot)).affine_inverse(&inv);
        D3 q = inv.point(p);
        int sides = 0;
        for(int k = 0; k<3; k++)
            if(std::fabs(std::fabs(q[k])-0.5)*size[k]<1)
                sides++;
        (void)near;
        if(sides>1)
            g.discard();
        for(int k = 0; k<NW; k++)
        {
            double sum = 0, term = glow.w[k];
            for(int b = 0; b<=DEFAULT_BOUNCES+1; b++, term *= albedo.w[k])
                sum += term;
            least.v[k] = sum;
            want.v[k] = glow.w[k]/(1-albedo.w[k]);
        }
    }
    else
    {
        if(h.asset_h != s.assets[1])
            g.discard();
        ShadingSpace mt;
        Normal nn;
        mat->gen_shading_matrix(&h, &mt, &nn);
        Vec3 wo = -r.direction;
        D3 n = D3(nn).norm(), u = n.cross(std::fabs(n.x)<0.6?D3(1, 0, 0):D3(0, 1, 0)).norm(), v = n.cross(u);
        if(n.dot(D3(wo))<0.1)
            g.discard();
        const int N = 60;
        for(int i = 0; i<N; i++)
            for(int k = 0; k<4*N; k++)
            {
                double z2 = (i+0.5)/N, z = std::sqrt(z2), rr = std::sqrt(1-z2), ph = (k+0.5)*2*M_PI/(4*N);
                D3 w = u*(rr*std::cos(ph))+v*(rr*std::sin(ph))+n*z;
                Vec3 wi((float)w.x, (float)w.y, (float)w.z);
                want = want+Rgb(mat->value(&wo, &h, &wi, &mt, false))*Rgb(glow)*(M_PI/(4*N*N));
            }
        least = want;
    }
    Dice dd(g.draw(1u << 20));
    SamplerRandom dice(0, 1, 0, 1, 1, dd.seed);
    OcclusionTester ot(&s.scene);
    Average a;
    bool ok = false;
    for(int round = 0; round<6 && !ok; round++)
    {
        for(int k = 0; k<(1000 << round); k++)
            a.add(estimate(s, r, h, &dice, &ot));
        ok = true;
        for(int k = 0; k<NW; k++)
        {
            double slack = 7*a.error(k)+(alone?0.003:0.02)*want.v[k];
            ok = ok && a.mean(k)<=want.v[k]+slack && a.mean(k)>=least.v[k]-slack;
        }
    }
    CHECK(ok, "the radiance is ", a, " instead of ", want);
}

PROP(linear, 12000, 240000, "any scene with materials of all kinds: with the same random numbers, emission times 2 gives exactly twice every estimate, which is never negative or infinite, and no light gives none; non-trivial: the estimate is not zero")
{
    int n = (int)g.size(1, 7);
    uint64_t seed = g.draw(1u << 20);
    std::vector<uint64_t> kinds;
    Stage s[3];
    Spectrum one = gen_spectrum(g, 0.1f, 5);
    struct Thing
    {
        int what, mat;
        bool lit;
        D3 pos, rot;
        double z, rough, ior;
        Spectrum a, glow;
    };
    std::vector<Thing> v;
    for(int k = 0; k<n; k++)
    {
        Thing t;
        t.what = (int)g.draw(2);
        t.mat = (int)g.draw(5);
        t.lit = t.what != 2 && g.p(1, 3);
        t.pos = D3(g.f(-4, 4), g.f(-4, 4), g.f(-4, 4));
        t.rot = D3(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3));
        t.z = g.f(0.5f, 3);
        t.rough = g.f(0.1f, 1);
        t.ior = g.f(1.1f, 2);
        t.a = gen_spectrum(g, 0, 1);
        t.glow = gen_spectrum(g, 0, 6);
        v.push_back(t);
        g.note("thing ", t.what, " material ", t.mat, t.lit?" emits":"", " at ", t.pos);
    }
    for(int q = 0; q<3; q++)
    {
        const Shape* shapes[] = {new Sphere(), square(), room(true)};
        for(const Shape* x : shapes)
            s[q].scene.inherit_shape(x);
        for(const Thing& t : v)
        {
            const Bsdf* m;
            Spectrum air = cauchy(1.f, 0), ior = cauchy((float)t.ior, 0);
            if(t.mat == 0)
                m = s[q].diffuse(t.a);
            else if(t.mat == 1)
                m = s[q].keep(new SingleBRDF(new OrenNayar((float)t.rough*90), s[q].uniform(t.a)));
            else if(t.mat == 2)
                m = s[q].keep(new SingleBRDF(new ConductorReflection(Spectrum(METALS[METAL_GOLD].n), Spectrum(METALS[METAL_GOLD].k))));
            else if(t.mat == 3)
            {
                MultiBSDF* b = new MultiBSDF();
                b->inherit_bdf(new Refraction(air, ior), s[q].uniform(SPECTRUM_ONE));
                b->inherit_bdf(new DielectricReflection(air, ior), s[q].uniform(SPECTRUM_ONE));
                m = s[q].keep(b);
            }
            else if(t.mat == 4)
            {
                MultiBSDF* b = new MultiBSDF();
                b->inherit_bdf(new Lambertian(), s[q].uniform(t.a));
                b->inherit_bdf(new MicrofacetR(new GGXiso((float)t.rough), new Dielectric(air, ior)), s[q].uniform(SPECTRUM_ONE));
                m = s[q].keep(b);
            }
            else
                m = s[q].keep(new SingleBRDF(new MicrofacetR(new GGXiso((float)t.rough), new Conductor(Spectrum(METALS[METAL_IRON].n), Spectrum(METALS[METAL_IRON].k)))));
            Spectrum c = q == 1?t.glow*2.f:t.glow;
            bool lit = t.lit && q<2;
            s[q].add(shapes[t.what], place(t.pos, D3(t.z, t.z, t.z)*(t.what == 2?6.:1.), t.rot), m, lit?&c:NULL);
        }
        s[q].ready();
    }
    Dice d(seed);
    OcclusionTester ot[3] = {OcclusionTester(&s[0].scene), OcclusionTester(&s[1].scene), OcclusionTester(&s[2].scene)};
    SamplerRandom dice[3] = {SamplerRandom(0, 1, 0, 1, 1, d.seed), SamplerRandom(0, 1, 0, 1, 1, d.seed), SamplerRandom(0, 1, 0, 1, 1, d.seed)};
    double most = 0;
    for(int q = 0; q<12; q++)
    {
        float e[3];
        g.dir(e, e+1, e+2);
        D3 dir(e[0], e[1], e[2]), o = D3(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3))-dir*(g.b()?12.:2.);
        Rgb val[3];
        for(int k = 0; k<3; k++)
        {
            Ray r = ray(o, dir);
            HitPoint h;
            memset((void*)&h, 0, sizeof h);
            if(s[k].scene.k.intersect(&r, &h))
                val[k] = Rgb(estimate(s[k], r, h, &dice[k], &ot[k]));
        }
        for(int k = 0; k<NW; k++)
        {
            most = std::max(most, val[0].v[k]);
            CHECK(pbt::near(val[1].v[k], 2*val[0].v[k], 1e-9, 1e-4), "with twice the emission the estimate is ", val[1], " instead of twice ", val[0]);
            CHECK(val[2].v[k] == 0, "without light the estimate is ", val[2]);
        }
    }
    g.nontrivial(most>0);
}
