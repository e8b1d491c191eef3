// flavours: rgb rel
// T02: normal maps and height maps
#include "common.hpp"
#include "materials/bump.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/lambertian.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/shading_space.hpp"
#include "materials/single_brdf.hpp"
#include "primitives/asset.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_height.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_normal.hpp"
#include "textures/texture_uniform.hpp"
#include <memory>

namespace
{
Vec3 v3(const D3& d) { return Vec3((float)d.x, (float)d.y, (float)d.z); }
uint32_t pack(int r, int g, int b, int a) { return (uint32_t)r << 8|(uint32_t)g << 16|(uint32_t)b << 24|(uint32_t)a; }
int chan(const TexelUnion& t, int c) { return (int)((t.bgra_value >> (8*c))&255); } // ALPHA RED GREEN BLUE
// a point of a surface: generated, or found on a shape
struct Spot
{
    HitPoint h;
    D3 n, du, dv; // du and dv as given
    D3 s, up;     // the frame without map; up lies in the surface, against dpdv
    bool good = false;
};
void finish(Spot& q)
{
    q.n = D3(q.h.normal_h).norm();
    q.du = D3(q.h.dpdu);
    q.dv = D3(q.h.dpdv);
    D3 s = q.du-q.n*q.n.dot(q.du);
    if(!(s.len()>0.1*q.du.len()) || !(q.dv.len()>0))
        return;
    q.s = s.norm();
    D3 t = q.n.cross(q.s);
    double a = t.dot(q.dv)/q.dv.len();
    if(std::fabs(a)<0.02)
        return;
    q.up = a>0?-t:t;
    q.good = true;
}
// garbage where nothing is promised
void blank(HitPoint& h)
{
    memset((void*)&h, 0x7f, sizeof h);
    h.differentials = false;
    h.asset_h = NULL;
    h.index = 0;
}
void made(pbt::Gen& g, Spot& q)
{
    blank(q.h);
    D3 n = D3(gen_dir(g)).norm(), d = D3(gen_dir(g));
    d = d-n*n.dot(d);
    if(d.len()<1e-2)
        d = std::fabs(n.x)<0.6?D3(1, 0, 0)-n*n.x:D3(0, 1, 0)-n*n.y;
    d = d.norm();
    D3 e = n.cross(d)*(g.b()?1:-1);
    if(g.p(1, 3)) // slanted texture coordinates
        e = e+d*(double)g.f(-2, 2);
    if(g.p(1, 3)) // the normal is interpolated
    {
        d = d+n*(double)g.f(-0.7f, 0.7f);
        e = e+n*(double)g.f(-0.7f, 0.7f);
        g.label("interpolated");
    }
    d = d*(double)(g.b()?1.f:g.logf(0.01f, 100));
    e = e*(double)(g.b()?1.f:g.logf(0.01f, 100));
    q.h.point_h = Point3(0, 0, 0);
    q.h.normal_h = Normal((float)n.x, (float)n.y, (float)n.z);
    q.h.dpdu = v3(d);
    q.h.dpdv = v3(e);
    q.h.uv = Point2(g.f(0, 1), g.f(0, 1));
    finish(q);
}
void found(pbt::Gen& g, Spot& q)
{
    blank(q.h);
    Placement p = gen_placement(g, 0.2f, 5, 10);
    Matrix4 m = p.m();
    std::unique_ptr<Shape> sh;
    switch(g.draw(2))
    {
        case 0: g.label("sphere"); sh.reset(new Sphere()); break;
        case 1: g.label("box"); sh.reset(new Box()); break;
        default:
        {
            g.label("smooth triangle");
            Mesh* mesh = new Mesh(1);
            Vertex v[3];
            for(int k = 0; k<3; k++)
            {
                v[k].p = Point3(k == 1?1.f:-1.f, k == 2?1.f:-1.f, 0);
                D3 n = D3(g.f(-0.6f, 0.6f), g.f(-0.6f, 0.6f), 1).norm();
                v[k].n = Normal((float)n.x, (float)n.y, (float)n.z);
            }
            int turn = (int)g.draw(2), flip = (int)g.draw(1);
            float uv[3][2] = {{0, 0}, {1, 0}, {flip?0.f:1.f, 1}};
            for(int k = 0; k<3; k++)
                v[k].t = Point2(uv[(k+turn)%3][0], uv[(k+turn)%3][1]);
            if(g.b())
                std::swap(v[1].t, v[2].t);
            mesh->add_triangle(&v[0], &v[1], &v[2]);
            mesh->finalize();
            sh.reset(mesh);
        }
    }
    Asset a(sh.get(), m, 1);
    D3 aim(g.f(-0.6f, 0.2f), g.f(-0.6f, 0.2f), 0), from = aim+D3(gen_dir(g)).norm()*4.;
    Point3 o = m*Point3((float)from.x, (float)from.y, (float)from.z), t = m*Point3((float)aim.x, (float)aim.y, (float)aim.z);
    Vec3 d = t-o;
    if(!(d.length()>1e-6f))
        g.discard();
    d.normalize();
    Ray r(o, d);
    float dist = FLT_MAX;
    if(!a.intersect(&r, &dist, &q.h))
        g.discard();
    finish(q);
}
struct Map
{
    std::vector<uint32_t> px;
    std::unique_ptr<ImageMap> map;
    std::unique_ptr<TextureImage> tex;
};
uint32_t gen_texel(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: return pack(128, 128, 255, 255);
        case 1: return pack((int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(128, 255), (int)g.i(0, 255));
        case 2: return pack((int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255));
        case 3: return pack((int)g.pick({0, 127, 128, 255}), (int)g.pick({0, 127, 128, 255}), (int)g.pick({0, 127, 128, 255}), 255);
        default: return pack((int)g.i(118, 138), (int)g.i(118, 138), (int)g.i(240, 255), 255);
    }
}
void gen_map(pbt::Gen& g, Map* m, bool uniform)
{
    int side = 1 << (int)g.draw(3);
    uint32_t one = gen_texel(g);
    for(int k = 0; k<side*side; k++)
        m->px.push_back(uniform?one:gen_texel(g));
    std::vector<uint32_t> copy = m->px;
    int kind = (int)g.draw(2);
    if(kind == 0)
        m->map.reset(new ImageMapUnfiltered(copy.data(), side));
    else if(kind == 1)
        m->map.reset(new ImageMapTrilinear(copy.data(), side));
    else
        m->map.reset(new ImageMapEWA(copy.data(), side));
    Vec2 shift(g.b()?0:g.f(-1, 1), g.b()?0:g.f(-1, 1)), scale(g.b()?1:g.f(0.3f, 4), g.b()?1:g.f(0.3f, 4));
    m->tex.reset(new TextureImage(m->map.get(), shift, scale, kind == 0));
}
void gen_footprint(pbt::Gen& g, HitPoint& h)
{
    h.differentials = g.b();
    if(!h.differentials)
        return;
    h.du = Vec2(g.b()?0:g.f(-0.3f, 0.3f), g.b()?0:g.f(-0.3f, 0.3f));
    h.dv = Vec2(g.b()?0:g.f(-0.3f, 0.3f), g.b()?0:g.f(-0.3f, 0.3f));
}
// three orthogonal unit vectors, the last one being the reported normal on the side of the surface
void check_frame(const Spot& q, const ShadingSpace& m, const Normal& reported)
{
    D3 s(m.s), t(m.t), n(m.n);
    CHECK(std::fabs(s.len()-1)<2e-4 && std::fabs(t.len()-1)<2e-4 && std::fabs(n.len()-1)<2e-4, "lengths ", s.len(), " ", t.len(), " ", n.len());
    double tilt = std::max(1e-3, std::fabs(q.du.norm().cross(n).len()));
    double tol = 2e-4+2e-6/tilt;
    CHECK(std::fabs(s.dot(t))<tol && std::fabs(s.dot(n))<tol && std::fabs(t.dot(n))<tol, "the frame is not orthogonal: ", s, " ", t, " ", n);
    CHECK(near3(n, D3(reported), 1e-5), "the frame has the normal ", n, " but ", D3(reported), " is reported");
    CHECK(n.dot(q.n)>-1e-4, "the normal ", n, " of the frame is on the other side of the surface with normal ", q.n);
}
}

PROP(normal_map, 400000, 6000000, "any normal map (unfiltered or filtered, shifted, scaled, texels of all colours) at a generated point (slanted and mirrored texture coordinates, interpolated normals) or on a placed sphere, box or smooth triangle: the normal is the decoded texel in the frame of the surface, on its side; the frame is orthonormal and starts with dpdu; non-trivial: the map tilts the normal by 3 degrees or more")
{
    Spot q;
    bool real = g.p(1, 3);
    if(real)
        found(g, q);
    else
        made(g, q);
    Map m;
    gen_map(g, &m, g.b());
    gen_footprint(g, q.h);
    if(!q.good)
        g.discard();
    TextureNormal tn(m.tex.get());
    ShadingSpace f;
    Normal n(9, 9, 9);
    HitPoint before = q.h;
    tn.bump(&q.h, &f, &n);
    CHECK(memcmp((void*)&before.uv, (void*)&q.h.uv, sizeof before.uv) == 0, "the hit was changed");
    TexelUnion t = m.tex->map_value(&q.h);
    double x = 2*chan(t, 1)/255.-1, y = 2*chan(t, 2)/255.-1, z = 2*chan(t, 3)/255.-1;
    D3 want = (q.s*x+q.up*y+q.n*z).norm();
    double c = want.dot(q.n);
    g.nontrivial(std::fabs(c)<std::cos(3*M_PI/180));
    g.note("texel ", chan(t, 1), " ", chan(t, 2), " ", chan(t, 3), " normal ", q.n, " dpdu ", q.du, " dpdv ", q.dv, " gives ", D3(n));
    if(c<0)
        want = -want;
    // a texel is not longer than its rounding in the middle of the cube
    double tol = 3e-4+1e-6/std::sqrt(x*x+y*y+z*z);
    CHECK(near3(D3(n), want, tol) || (std::fabs(c)<1e-3 && near3(D3(n), -want, tol)), "the normal is ", D3(n), ", the map prescribes ", want);
    check_frame(q, f, n);
    D3 s = q.du-want*want.dot(q.du);
    double p = s.len()/q.du.len();
    if(p>0.05)
        CHECK(near3(D3(f.s), s.norm(), 3e-4/p+tol), "the tangent is ", D3(f.s), " instead of ", s.norm());
}
PROP(flat, 200000, 3000000, "flat normal maps (128 128 255) and height maps of one colour: the same frame as without map, up to the rounding of the map and the sign of the second tangent; non-trivial: always")
{
    Spot q;
    if(g.p(1, 3))
        found(g, q);
    else
        made(g, q);
    gen_footprint(g, q.h);
    bool height = g.b();
    int side = 1 << (int)g.draw(3);
    uint32_t one = height?pack((int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255)):pack((int)g.i(127, 128), (int)g.i(127, 128), 255, (int)g.i(0, 255));
    std::vector<uint32_t> px((size_t)side*side, one);
    ImageMapUnfiltered map(px.data(), side);
    Vec2 shift(0, 0), scale(1, 1);
    TextureImage img(&map, shift, scale, true);
    if(!q.good)
        g.discard();
    g.nontrivial();
    ShadingSpace a, b;
    Normal na, nb;
    Bump none;
    none.bump(&q.h, &a, &na);
    if(height)
        TextureHeight(&img, (ImageChannel)g.draw(3)).bump(&q.h, &b, &nb);
    else
        TextureNormal(&img).bump(&q.h, &b, &nb);
    double tol = height?3e-4:6e-3;
    CHECK(near3(D3(na), q.n, 1e-4) && near3(D3(a.n), q.n, 1e-4) && near3(D3(a.s), q.s, 1e-3), "without a map the frame is ", D3(a.s), " ", D3(a.n));
    CHECK(near3(D3(nb), q.n, tol) && near3(D3(b.n), q.n, tol), "a flat ", height?"height":"normal", " map turns the normal ", q.n, " to ", D3(nb), " and ", D3(b.n));
    D3 tb(b.t);
    // the tangent of a height map keeps the texture directions, which may be slanted out of the frame
    CHECK(near3(D3(b.s), q.s, 10*tol), "a flat map turns the tangent ", q.s, " to ", D3(b.s));
    CHECK(near3(tb, q.up, 10*tol) || near3(tb, -q.up, 10*tol), "a flat map turns the second tangent ", q.up, " to ", tb);
    check_frame(q, b, nb);
}
PROP(height_map, 300000, 5000000, "any height map and channel: the normal is orthogonal to both texture directions, unit and raised by the difference of height one step further (half of the footprint, or 0.01 without one), on the side of the surface; the frame is orthonormal; non-trivial: a slope above 0.05")
{
    Spot q;
    if(g.p(1, 3))
        found(g, q);
    else
        made(g, q);
    Map m;
    gen_map(g, &m, g.p(1, 10));
    gen_footprint(g, q.h);
    if(!q.good)
        g.discard();
    int ch = (int)g.draw(3);
    TextureHeight th(m.tex.get(), (ImageChannel)ch);
    ShadingSpace f;
    Normal n(9, 9, 9);
    th.bump(&q.h, &f, &n);
    float eu = 0, ev = 0;
    if(q.h.differentials)
    {
        eu = 0.5f*(std::fabs(q.h.du.x)+std::fabs(q.h.du.y));
        ev = 0.5f*(std::fabs(q.h.dv.x)+std::fabs(q.h.dv.y));
    }
    if(eu == 0)
        eu = 0.01f;
    if(ev == 0)
        ev = 0.01f;
    int h0 = chan(m.tex->map_value(&q.h), ch);
    HitPoint k = q.h;
    k.uv.x += eu;
    int hu = chan(m.tex->map_value(&k), ch);
    k = q.h;
    k.uv.y += ev;
    int hv = chan(m.tex->map_value(&k), ch);
    double u = (hu-h0)/255./eu, v = (hv-h0)/255./ev;
    D3 a = q.du.norm(), b = q.dv.norm();
    a = a+q.n*(u-q.n.dot(a));
    b = b+q.n*(v-q.n.dot(b));
    D3 want = a.cross(b);
    double size = want.len()/(a.len()*b.len());
    if(size<1e-2 || std::max(std::fabs(u), std::fabs(v))>1e3)
        g.discard(); // both directions nearly the same
    want = want.norm();
    if(want.dot(q.n)<0)
        want = -want;
    g.nontrivial(std::fabs(u)+std::fabs(v)>0.05);
    g.note("slopes ", u, " ", v, " normal ", q.n, " dpdu ", q.du, " dpdv ", q.dv, " gives ", D3(n));
    double tol = 3e-4+2e-5*(std::fabs(u)+std::fabs(v)+1)/size, side = want.dot(q.n);
    CHECK(near3(D3(n), want, tol) || (side<tol && near3(D3(n), -want, tol)), "the normal is ", D3(n), ", the slopes prescribe ", want);
    check_frame(q, f, n);
}
PROP(transport, 200000, 3000000, "materials with a normal map: reflecting ones never carry light through the surface, whether asked for a value or drawing a direction; glass reflects to the side the light comes from and refracts to the other one, entering where the light enters the surface; non-trivial: positive value under a tilt of 3 degrees or more")
{
    Spot q;
    if(g.p(1, 3))
        found(g, q);
    else
        made(g, q);
    bool flat = g.p(1, 4);
    int side = 1;
    uint32_t one = flat?pack(128, 128, 255, 255):pack((int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(160, 255), 255);
    ImageMapUnfiltered map(&one, side);
    Vec2 shift(0, 0), scale(1, 1);
    TextureImage img(&map, shift, scale, true);
    if(!q.good)
        g.discard();
    static TextureUniform white(SPECTRUM_ONE);
    int kind = (int)g.draw(4);
    std::unique_ptr<Bsdf> b;
    float ior = 1.5f;
    switch(kind)
    {
        case 0: b.reset(new SingleBRDF(new Lambertian(), &white)); break;
        case 1: b.reset(new SingleBRDF(new OrenNayar(20.f), &white)); break;
        case 2: b.reset(new SingleBRDF(new DielectricReflection(Spectrum(1.f), Spectrum(ior)), &white)); break;
        default:
        {
            MultiBSDF* m = new MultiBSDF();
            m->inherit_bdf(new DielectricReflection(Spectrum(1.f), Spectrum(ior)), &white);
            m->inherit_bdf(new Refraction(Spectrum(1.f), Spectrum(ior)), &white);
            b.reset(m);
        }
    }
    b->inherit_bump(new TextureNormal(&img));
    ShadingSpace f;
    Normal n;
    b->gen_shading_matrix(&q.h, &f, &n);
    bool tilted = D3(n).dot(q.n)<std::cos(3*M_PI/180);
    Vec3 wo = gen_dir(g), wi = gen_dir(g);
    double co = D3(wo).dot(q.n), fo = D3(wo).dot(D3(n));
    if(std::fabs(co)<1e-2 || std::fabs(fo)<1e-2)
        g.discard();
    if(kind<2)
    {
        double ci = D3(wi).dot(q.n);
        if(std::fabs(ci)<1e-3)
            g.discard();
        Spectrum v = b->value(&wo, &q.h, &wi, &f, false);
        if(ci*co<0)
            CHECK(v.is_black(), "light passes the surface with normal ", q.n, " from ", wi, " to ", wo, ": ", v.w[0]);
        else if(v.w[0]>0)
            g.nontrivial(tilted);
    }
    float pdf = -1;
    bool matched = false;
    float pick = g.unit();
    Spectrum v = b->sample_value(pick, g.unit(), g.unit(), &wo, &q.h, &f, &wi, &pdf, true, &matched);
    if(pdf == 0 || v.is_black())
        return;
    double ci = D3(wi).dot(q.n);
    if(std::fabs(ci)<1e-3)
        g.discard();
    g.nontrivial(tilted);
    if(kind<3)
        CHECK(ci*co>0, "a reflecting material draws ", wi, " through the surface with normal ", q.n, " for ", wo);
    else if(co*fo>0) // seen from the same side of the surface and of the tilted one
    {
        bool inside = co<0;
        D3 fn = D3(n)*(fo>0?1:-1);
        double a = D3(wo).dot(fn), eta = inside?ior:1/ior, k = 1-eta*eta*(1-a*a);
        if(ci*co>0)
            CHECK(near3(D3(wi), fn*(2*a)-D3(wo), 2e-3), "glass reflects ", wo, " to ", wi, " with the normal ", fn);
        else
        {
            CHECK(k>-1e-3, "glass refracts light that is reflected totally");
            D3 want = fn*(eta*a-std::sqrt(std::max(0., k)))-D3(wo)*eta;
            CHECK(near3(D3(wi), want, k<0.01?0.1:5e-3), "glass refracts ", wo, " to ", wi, " instead of ", want, inside?", leaving":", entering");
        }
    }
}
