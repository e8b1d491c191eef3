// flavours: rgb rel
// G10: opacity masks
#include "common.hpp"
#include "accelerators/kdtree.hpp"
#include "primitives/asset.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "textures/image_map.hpp"
#include "textures/mask_boolean.hpp"
#include "textures/texture_image.hpp"
#include "utility/occlusion_tester.hpp"
#include "utility/scene.hpp"
#include <algorithm>
#include <memory>

namespace
{
// a mask together with its definition
struct Mask
{
    int side = 1;
    std::vector<uint32_t> px;
    ImageChannel channel = RED;
    bool inverted = false, smooth = false, none = false;
    Vec2 shift{0, 0}, scale{1, 1};
    std::unique_ptr<ImageMap> map;
    std::unique_ptr<TextureImage> tex;
    MaskBoolean m;

    bool at(double u, double v, int margin = 0) const
    {
        if(none)
            return true;
        int val;
        if(!smooth)
        {
            double x = (u*scale.x+shift.x), y = (v*scale.y+shift.y);
            x -= floor(x);
            y -= floor(y);
            int i = std::min((int)(x*side), side-1), j = std::min((int)(y*side), side-1);
            uint32_t p = px[j*side+i];
            // bytes from the lowest: alpha, red, green, blue
            int sh = channel == ALPHA?0:channel == RED?8:channel == GREEN?16:24;
            val = (p >> sh)&255;
        }
        else
        {
            HitPoint h;
            memset((void*)&h, 0, sizeof(h));
            h.uv = Point2((float)u, (float)v);
            Texel t = tex->map_value(&h).bgra_texel;
            val = channel == ALPHA?t.a:channel == RED?t.r:channel == GREEN?t.g:t.b;
            val += margin;
        }
        return (val>=128) != inverted;
    }
    // 1 visible, 0 hidden, -1 too close to a border of the pattern
    int look(double u, double v, double e) const
    {
        bool c = at(u, v);
        e += 1e-6*(fabs(u)+fabs(v)+(fabs(shift.x)+fabs(shift.y))/std::max(0.1, (double)std::min(fabs(scale.x), fabs(scale.y))));
        if(side>1 && e*side*std::max(fabs(scale.x), fabs(scale.y))>0.4)
            return -1; // neighbouring texels could be jumped over
        for(int k = 0; k<8; k++)
        {
            static const int dx[8] = {1, 1, 1, 0, 0, -1, -1, -1}, dy[8] = {-1, 0, 1, -1, 1, -1, 0, 1};
            if(at(u+dx[k]*e, v+dy[k]*e, 3) != c || at(u+dx[k]*e, v+dy[k]*e, -3) != c)
                return -1;
        }
        return c;
    }
};
std::unique_ptr<Mask> gen_mask(pbt::Gen& g)
{
    std::unique_ptr<Mask> k(new Mask());
    if(g.p(1, 10))
    {
        k->none = true;
        return k;
    }
    k->side = 1 << g.i(0, 4);
    k->px.resize(k->side*k->side);
    bool binary = g.b();
    uint64_t s = g.draw(0xFFFFFFFFull)*2+1;
    for(auto& p:k->px)
    {
        s = s*6364136223846793005ull+1442695040888963407ull;
        p = (uint32_t)(s >> 32);
        if(binary)
        {
            uint32_t q = 0;
            for(int c = 0; c<4; c++)
                q |= ((p >> (8*c))&64?(p&(1u << c)?255u:128u):(p&(1u << c)?0u:127u)) << (8*c);
            p = q;
        }
    }
    k->channel = (ImageChannel)g.draw(3);
    k->inverted = g.b();
    k->smooth = g.p(1, 4);
    if(g.b())
        k->scale = Vec2(g.f(0.2f, 6.f), g.f(0.2f, 6.f));
    if(g.b())
        k->shift = Vec2(g.f(-3.f, 3.f), g.f(-3.f, 3.f));
    if(k->smooth)
    {
        if(g.b())
            k->map.reset(new ImageMapTrilinear(k->px.data(), (uint16_t)k->side));
        else
            k->map.reset(new ImageMapEWA(k->px.data(), (uint16_t)k->side));
    }
    else
        k->map.reset(new ImageMapUnfiltered(k->px.data(), (uint16_t)k->side));
    k->tex.reset(new TextureImage(k->map.get(), k->shift, k->scale, !k->smooth));
    k->m = MaskBoolean(k->tex.get(), k->channel, k->inverted);
    g.note("mask side ", k->side, " channel ", (int)k->channel, " inverted ", k->inverted, " smooth ", k->smooth, " shift ",
           k->shift, " scale ", k->scale);
    return k;
}
HitPoint blank()
{
    HitPoint h;
    memset((void*)&h, 0, sizeof(h));
    h.index = 424242;
    return h;
}
// one crossing of a ray with a surface
struct Crossing
{
    double t, u, v;
    int vis;      // see Mask::look
    bool doubtful; // rounding may decide whether the surface is crossed here
    double e = 0, r = 1, terr = 0; // error of the coordinates, distance from the axis of a sphere
};
// crossings of a ray (object space, any direction length) with the unit sphere
void sphere_crossings(const Mask& m, const D3& o, const D3& d, std::vector<Crossing>& out)
{
    double a = d.dot(d), b = o.dot(d), c = o.dot(o)-1;
    double q = b*b-a*c;
    double impact2 = o.dot(o)-b*b/a;
    double noise = 2e-6*o.dot(o)+3e-4;
    if(impact2>1+noise)
        return;
    bool doubt = impact2>1-10*noise-1e-2;
    if(q<0)
    {
        out.push_back(Crossing{-b/a, 0, 0, -1, true, 0, 1, 0});
        return;
    }
    double s = sqrt(q);
    for(double t:{(-b-s)/a, (-b+s)/a})
    {
        D3 p = o+d*t;
        double phi = atan2(p.y, p.x);
        if(phi<0)
            phi += 2*M_PI;
        double th = acos(std::max(-1.0, std::min(1.0, p.z)));
        double u = phi/(2*M_PI), v = (M_PI-th)/M_PI;
        double r = sqrt(p.x*p.x+p.y*p.y);
        double perr = 1e-6*(1+o.dot(o))/std::max(0.05, s/sqrt(a))+1e-6;
        double e = perr/std::max(r, sqrt(perr))+1e-6;
        int vis = m.none?1:(u<e || u>1-e || r<3*sqrt(perr))?-1:m.look(u, v, e);
        out.push_back(Crossing{t, u, v, vis, doubt, e, r, 3*perr/sqrt(a)});
    }
}
struct Soup
{
    std::vector<Triangle> tris;
    std::unique_ptr<Mesh> mesh;
};
std::unique_ptr<Soup> gen_soup(pbt::Gen& g, int maxn)
{
    std::unique_ptr<Soup> s(new Soup());
    int n = (int)g.size(1, maxn);
    s->mesh.reset(new Mesh(n));
    int family = (int)g.draw(2);
    for(int k = 0; k<n; k++)
    {
        Vertex v[3];
        D3 c(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
        for(int q = 0; q<3; q++)
        {
            if(family == 0) // parallel sheets, each masked differently
                v[q].p = Point3(q == 1?3.f:-1.f, q == 2?3.f:-1.f, (float)k*0.1f);
            else
                v[q].p = Point3((float)c.x+g.f(-0.8f, 0.8f), (float)c.y+g.f(-0.8f, 0.8f), (float)c.z+g.f(-0.8f, 0.8f));
            v[q].t = Point2(g.f(-1.f, 2.f), g.f(-1.f, 2.f));
            v[q].n = Normal(0, 0, 1);
        }
        s->tris.emplace_back(v[0], v[1], v[2]);
        s->mesh->add_triangle(&v[0], &v[1], &v[2]);
    }
    s->mesh->finalize();
    return s;
}
void soup_crossings(const Mask& m, const Soup& s, const Ray& r, std::vector<Crossing>& out)
{
    for(auto& t:s.tris)
    {
        D3 a(t.a.p), b(t.b.p), c(t.c.p), o(r.origin), d(r.direction);
        D3 ba = b-a, ca = c-a, n = ba.cross(ca);
        double det = -d.dot(n);
        D3 mid = (a+b+c)*(1/3.0), om = mid-o;
        double rad = std::max((a-mid).len(), std::max((b-mid).len(), (c-mid).len()))*1.01+1e-3;
        double away = om.dot(om)-om.dot(d)*om.dot(d)/d.dot(d);
        if(away>rad*rad)
            continue;
        double thin0 = n.len()/std::max(ba.dot(ba), std::max(ca.dot(ca), (c-b).dot(c-b)));
        if(!(thin0>=0.01) || !(fabs(det)>=0.02*n.len()*d.len()))
        { // edge on or a sliver: rounding decides
            out.push_back(Crossing{SELF_INTERSECT_ERROR, 0, 0, -1, true, 0, 1, 0});
            continue;
        }
        D3 tv = o-a;
        D3 pv = d.cross(ca);
        double u = pv.dot(tv)/pv.dot(ba), v = d.dot(tv.cross(ba))/pv.dot(ba), w = 1-u-v;
        double dist = ca.dot(tv.cross(ba))/pv.dot(ba);
        double cosine = fabs(d.dot(n))/(n.len()*d.len());
        double edge = std::min(u, std::min(v, w));
        // thickness of the triangle in the plane
        double thin = n.len()/std::max(ba.dot(ba), std::max(ca.dot(ca), (c-b).dot(c-b)));
        double e = 1e-5*(1+o.len())/(std::max(cosine, 1e-6)*std::max(thin, 1e-6));
        if(edge<-e)
            continue;
        Crossing x;
        x.t = dist;
        x.doubtful = edge<e || cosine<0.02 || thin<0.01;
        x.u = w*t.a.t.x+u*t.b.t.x+v*t.c.t.x;
        x.v = w*t.a.t.y+u*t.b.t.y+v*t.c.t.y;
        x.vis = m.none?1:m.look(x.u, x.v, 4*e+1e-5);
        out.push_back(x);
    }
}
// 1 hit expected (index in *who), 0 miss expected, -1 undecided
int decide(std::vector<Crossing>& xs, double limit, double err0, int* who)
{
    std::sort(xs.begin(), xs.end(), [](const Crossing& a, const Crossing& b) { return a.t<b.t; });
    for(size_t k = 0; k<xs.size(); k++)
    {
        const Crossing& x = xs[k];
        double err = std::max(err0, x.terr);
        if(x.t<SELF_INTERSECT_ERROR-err-1e-4*SELF_INTERSECT_ERROR)
            continue;
        if(x.t>limit+err)
            break;
        if(x.vis == 0)
            continue; // hidden, whether it is crossed or not
        if(x.doubtful || x.vis == -1 || fabs(x.t-SELF_INTERSECT_ERROR)<err+1e-6 || fabs(x.t-limit)<err)
            return -1;
        // another crossing at the same place that may win
        if(k+1<xs.size() && xs[k+1].t-x.t<err && (xs[k+1].vis != 0))
            return -1;
        *who = (int)k;
        return 1;
    }
    return 0;
}
}

void pbt::suite_init() { }

PROP(sphere, 1500000, 20000000, "the nearest crossing is masked out")
{
    std::unique_ptr<Mask> m = gen_mask(g);
    Sphere s;
    D3 target(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
    D3 dir(gen_dir(g));
    D3 p = target-dir*(double)(g.p(1, 3)?g.f(0, 1):g.logf(0.5f, 40.f));
    Point3 o((float)p.x, (float)p.y, (float)p.z);
    float len = g.p(1, 4)?g.logf(0.1f, 10.f):1.f;
    Vec3 d((float)dir.x*len, (float)dir.y*len, (float)dir.z*len);
    Ray r(o, d);
    float limit = g.p(1, 2)?FLT_MAX:g.f(0.02f, 45.f);
    std::vector<Crossing> xs;
    sphere_crossings(*m, D3(o), D3(d), xs);
    int who = -1;
    double err = 2e-5*(1+D3(o).len())/std::min(1.f, len);
    int want = decide(xs, limit, err, &who);
    if(want == -1)
        g.discard();
    HitPoint h = blank(), keep = h;
    float dist = limit;
    bool res = s.intersect(&r, &dist, &h, &m->m);
    g.nontrivial(!m->none && (want == 0?!xs.empty():who>0));
    g.label(want == 0?(xs.empty()?"misses the sphere":"hidden everywhere"):(who == 0?"front":"back"));
    CHECK(res == (want == 1), r, " limit ", limit, ": ", res?"hit":"missed", " but should ", want == 1?"hit":"miss");
    if(!res)
    {
        CHECK(dist == limit && memcmp((void*)&h, (void*)&keep, sizeof(h)) == 0, "a miss changed the record");
        return;
    }
    CHECK(pbt::near(dist, xs[who].t, err+xs[who].terr, 1e-5), "distance ", dist, " expected ", xs[who].t);
    double turn = fabs(h.uv.x-xs[who].u); // the seam, and the poles
    turn = std::min(turn, 1-turn);
    double utol = 1e-3+3*xs[who].e/std::max(xs[who].r, 1e-9);
    CHECK(turn<=utol && pbt::near(h.uv.y, xs[who].v, 1e-3+3*xs[who].e), "uv ", h.uv, " expected ", xs[who].u, " ", xs[who].v);
    // the visible part is as it would be without the mask
    MaskBoolean all;
    HitPoint h2 = blank();
    float d2 = limit;
    if(s.intersect(&r, &d2, &h2, &all) && d2 == dist)
        CHECK(memcmp((void*)&h, (void*)&h2, offsetof(HitPoint, differentials)) == 0, "the mask changed the record of a visible point");
    // tracing up to just before a visible crossing finds nothing in front of it
    HitPoint h3 = blank();
    float d3 = (float)(xs[who].t-2*(err+xs[who].terr));
    if(d3>2*SELF_INTERSECT_ERROR)
        CHECK(!s.intersect(&r, &d3, &h3, &m->m), "something masked out was hit at ", d3);
}
PROP(mesh, 120000, 1500000, "a masked out triangle lies in front of the hit, or hides the only crossing")
{
    std::unique_ptr<Mask> m = gen_mask(g);
    std::unique_ptr<Soup> s = gen_soup(g, 40);
    for(int q = 0; q<12; q++)
    {
        D3 target(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
        if(g.p(3, 4))
        {
            const Triangle& t = s->tris[g.draw(s->tris.size()-1)];
            double e = g.d01(), f = g.d01()*(1-e);
            target = D3(t.a.p)*(1-e-f)+D3(t.b.p)*e+D3(t.c.p)*f;
        }
        D3 dir(gen_dir(g));
        D3 p = target-dir*(double)g.f(0, 6);
        Point3 o((float)p.x, (float)p.y, (float)p.z);
        Ray r(o, Vec3((float)dir.x, (float)dir.y, (float)dir.z));
        float limit = g.p(2, 3)?FLT_MAX:g.f(0.02f, 6.f);
        std::vector<Crossing> xs;
        soup_crossings(*m, *s, r, xs);
        int who = -1;
        int want = decide(xs, limit, 2e-4, &who);
        if(want == -1)
            continue;
        HitPoint h = blank();
        float dist = limit;
        bool res = s->mesh->intersect(&r, &dist, &h, &m->m);
        bool hidden = false;
        for(auto& x:xs)
            hidden = hidden || (x.vis == 0 && x.t>0.02 && x.t<(want == 1?xs[who].t:limit));
        g.nontrivial(hidden);
        g.label(want == 0?(hidden?"hidden everywhere":"nothing there"):(hidden?"through masked triangles":"front"));
        CHECK(res == (want == 1), r, " limit ", limit, ": ", res?"hit":"missed", " but should ", want == 1?"hit":"miss");
        if(res)
        {
            CHECK(pbt::near(dist, xs[who].t, 2e-4, 1e-4), "distance ", dist, " expected ", xs[who].t);
            CHECK(pbt::near(h.uv.x, xs[who].u, 1e-2) && pbt::near(h.uv.y, xs[who].v, 1e-2), "uv ", h.uv, " expected ", xs[who].u,
                  " ", xs[who].v);
        }
        else
            CHECK(dist == limit, "a miss changed the distance");
        HitPoint h2 = blank();
        float d2 = limit;
        MaskBoolean all;
        if(res && s->mesh->intersect(&r, &d2, &h2, &all) && d2 == dist)
            CHECK(h.uv == h2.uv && h.point_h == h2.point_h && h.normal_h == h2.normal_h && h.index == h2.index,
                  "the mask changed the record of a visible point");
    }
}
// scenes of instances with masks of their own: camera rays and shadow rays
PROP(scene, 60000, 800000, "a masked out surface lies in front of what is visible, and an occlusion query was decided")
{
    Sphere sphere;
    std::unique_ptr<Soup> soup = gen_soup(g, 12);
    struct Inst
    {
        std::unique_ptr<Mask> m;
        std::unique_ptr<Asset> a;
        DM inv;
        bool ball;
        double scale;
    };
    std::vector<Inst> is;
    int n = (int)g.i(1, 6);
    Scene scene;
    for(int k = 0; k<n; k++)
    {
        Inst x;
        x.m = gen_mask(g);
        x.ball = g.b();
        Placement p = gen_placement(g, 0.4f, 2.5f, 2.f);
        if(x.ball)
            p.scale = D3(1, 1, 1)*fabs(p.scale.x);
        x.scale = std::min(fabs(p.scale.x), std::min(fabs(p.scale.y), fabs(p.scale.z)));
        Matrix4 mm = p.m();
        DM md(mm);
        md.affine_inverse(&x.inv);
        x.a.reset(new Asset(x.ball?(const Shape*)&sphere:(const Shape*)soup->mesh.get(), mm, 1));
        x.a->set_mask(x.m->m);
        scene.k.addAsset(x.a.get());
        g.note("instance ", k, x.ball?" sphere ":" mesh ", p);
        is.push_back(std::move(x));
    }
    scene.k.buildTree();
    OcclusionTester ot(&scene);
    bool hidden_seen = false, shadow_seen = false;
    for(int q = 0; q<10; q++)
    {
        D3 target(g.f(-2, 2), g.f(-2, 2), g.f(-2, 2));
        D3 dir(gen_dir(g));
        dir = dir.norm();
        D3 p = target-dir*(double)g.f(0, 8);
        Point3 o((float)p.x, (float)p.y, (float)p.z);
        Vec3 dd((float)dir.x, (float)dir.y, (float)dir.z);
        Ray r(o, dd);
        r.ricochet = (unsigned char)g.draw(4);
        std::vector<Crossing> xs;
        for(auto& x:is)
        {
            D3 oo = x.inv.point(D3(o)), od = x.inv.vec(D3(dd));
            if(x.ball)
                sphere_crossings(*x.m, oo, od, xs);
            else
            {
                Ray ro(Point3((float)oo.x, (float)oo.y, (float)oo.z), Vec3((float)od.x, (float)od.y, (float)od.z));
                soup_crossings(*x.m, *soup, ro, xs);
            }
        }
        int who = -1;
        int want = decide(xs, FLT_MAX, 1e-3, &who);
        if(want == -1)
            continue;
        for(auto& x:xs)
            hidden_seen = hidden_seen || (x.vis == 0 && x.t>0.02 && (want == 0 || x.t<xs[who].t));
        HitPoint h = blank();
        bool res = scene.k.intersect(&r, &h);
        CHECK(res == (want == 1), r, ": ", res?"hit":"missed", " but should ", want == 1?"hit":"miss");
        if(res)
        {
            double t = (D3(h.point_h)-D3(o)).len();
            CHECK(pbt::near(t, xs[who].t, 2e-3, 1e-4), r, ": hit at ", t, " expected ", xs[who].t);
        }
        // a shadow ray towards a point at some distance
        double far = want == 1?xs[who].t*(g.b()?0.5:1.5):(double)g.f(0.5f, 20.f);
        bool occ = ot.is_occluded(&r, (float)far);
        bool expect = want == 1 && xs[who].t<far;
        if(want == 1 && fabs(xs[who].t-far)<0.02)
            continue;
        shadow_seen = true;
        CHECK(occ == expect, r, " towards a point at ", far, ": ", occ?"occluded":"free", ", nearest visible crossing ",
              want == 1?xs[who].t:-1.0);
    }
    g.nontrivial(hidden_seen && shadow_seen);
}
