// flavours: rgb
#include "common.hpp"
#include "lights/area_light.hpp"
#include "materials/lambertian.hpp"
#include "materials/single_brdf.hpp"
#include "primitives/asset.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include <algorithm>
#include <memory>

static std::vector<Triangle> faces; // of the mesh generated last

static Mesh* gen_mesh(pbt::Gen& g, int n)
{
    Mesh* m = new Mesh(n);
    float s = g.logf(0.2f, 4.f);
    faces.clear();
    for(int k = 0; k<n; k++)
    {
        Vertex v[3];
        for(int q = 0; q<3; q++)
        {
            v[q].p = Point3(g.f(-1, 1)*s, g.f(-1, 1)*s, g.f(-1, 1)*s);
            Vec3 d = gen_dir(g);
            v[q].n = Normal(d.x, d.y, d.z);
            v[q].t = Point2(g.f(0, 1), g.f(0, 1));
        }
        D3 e1 = D3(v[1].p)-D3(v[0].p), e2 = D3(v[2].p)-D3(v[0].p);
        if(e1.cross(e2).len()<=0.1*s*std::max(e1.len(), e2.len())) // sliver
        {
            v[0].p = Point3(-s, -s*0.5f, k*0.1f*s);
            v[1].p = Point3(s, -s*0.5f, k*0.1f*s);
            v[2].p = Point3(0, s, k*0.1f*s);
        }
        g.note("triangle ", v[0].p, v[1].p, v[2].p);
        m->add_triangle(&v[0], &v[1], &v[2]);
        faces.push_back(Triangle(v[0], v[1], v[2]));
    }
    m->finalize();
    return m;
}
static Shape* gen_shape(pbt::Gen& g)
{
    switch(g.draw(2))
    {
        case 0: return new Sphere();
        case 1: return new Box();
        default: return gen_mesh(g, (int)g.size(1, 8));
    }
}
static HitPoint sentinel()
{
    HitPoint h;
    memset((void*)&h, 0, sizeof(h));
    h.point_h = Point3(7, 8, 9);
    h.normal_h = Normal(4, 5, 6);
    h.index = 77;
    h.uv = Point2(0.3f, 0.7f);
    return h;
}
struct Ref
{
    bool res;
    double t;
    D3 p, n, du, dv;
    Point2 uv;
    unsigned idx;
    double facing; // cosine in object space
};
// the shape hit in object space, brought to the world in double precision
static Ref reference(const Shape* s, const DM& M, const DM& I, const D3& o, const D3& d, float limit)
{
    D3 oo = I.point(o), od = I.vec(d);
    Ray r(Point3((float)oo.x, (float)oo.y, (float)oo.z), Vec3((float)od.x, (float)od.y, (float)od.z));
    HitPoint h = sentinel();
    MaskBoolean none;
    float t = limit;
    Ref f;
    f.res = s->intersect(&r, &t, &h, &none);
    f.t = t;
    if(f.res)
    {
        f.p = M.point(D3(h.point_h));
        f.n = I.vec_transposed(D3(h.normal_h)).norm();
        f.du = M.vec(D3(h.dpdu));
        f.dv = M.vec(D3(h.dpdv));
        f.uv = h.uv;
        f.idx = h.index;
        f.facing = std::fabs(D3(h.dpdu).cross(D3(h.dpdv)).norm().dot(od.norm()));
    }
    return f;
}
static void gen_ray(pbt::Gen& g, const DM& M, const AABB& b, Point3* o, Vec3* d)
{
    D3 t(b.bounds[0].x+(b.bounds[1].x-b.bounds[0].x)*g.d01(), b.bounds[0].y+(b.bounds[1].y-b.bounds[0].y)*g.d01(), b.bounds[0].z+(b.bounds[1].z-b.bounds[0].z)*g.d01());
    t = M.point(t);
    D3 dir(gen_dir(g));
    double ext = (D3(b.bounds[1])-D3(b.bounds[0])).len();
    D3 sc(M.vec(D3(1, 0, 0)).len(), M.vec(D3(0, 1, 0)).len(), M.vec(D3(0, 0, 1)).len());
    double back = ext*sc.maxabs()*g.logf(0.01f, 10.f);
    D3 p = t-dir*back;
    *o = Point3((float)p.x, (float)p.y, (float)p.z);
    *d = Vec3((float)dir.x, (float)dir.y, (float)dir.z);
}
static double max_scale(const DM& M)
{
    return std::max(M.vec(D3(1, 0, 0)).len(), std::max(M.vec(D3(0, 1, 0)).len(), M.vec(D3(0, 0, 1)).len()));
}
// returns whether a certain hit was compared
static bool compare(pbt::Gen& g, const Asset& a, const Shape* s, const DM& M, const DM& I, const Point3& o, const Vec3& d, float limit, bool isbox)
{
    Ray r(o, d);
    float dist = limit;
    HitPoint h = sentinel();
    bool res = a.intersect(&r, &dist, &h);
    if(g.verbose())
    {
        D3 oo = I.point(D3(o)), od = I.vec(D3(d));
        g.note("in object space o=", oo, " d=", od);
    }
    g.note(r, " limit ", limit, res?" hits at ":" misses, limit now ", dist);
    CHECK(r.origin == o && r.direction == d, "the ray was changed");
    if(!res)
        CHECK(dist == limit && h.point_h == sentinel().point_h && h.normal_h == sentinel().normal_h && h.uv == sentinel().uv && h.index == 77, "a miss changed the record or the distance");
    else
    {
        CHECK(dist<=limit, "distance ", dist, " beyond the limit ", limit);
        CHECK(std::fabs(D3(h.normal_h).len()-1)<1e-5, "normal ", h.normal_h, " is not a unit vector");
    }
    Ref f = reference(s, M, I, D3(o), D3(d), limit);
    bool sphere = dynamic_cast<const Sphere*>(s) != nullptr;
    double far = I.point(D3(o)).len();
    if(dynamic_cast<const Sphere*>(s)) // cancellation blurs the silhouette
    {
        D3 oo = I.point(D3(o)), od = I.vec(D3(d)).norm();
        double b = oo.cross(od).len();
        if(std::fabs(b*b-1)<1e-2+4e-6*oo.dot(oo))
            return false;
    }
    // the same ray displaced and tilted by the rounding of the transformation
    D3 O(o), D(d);
    D3 P = O+D*(res?(double)dist:(f.res?f.t:1.));
    double inv = I.abs().vec(D3(1, 1, 1)).maxabs();
    double tt = res?dist:(f.res?f.t:1.);
    D3 T(M.m[0][3], M.m[1][3], M.m[2][3]);
    double need = 1e-5*(O.maxabs()+P.maxabs()+T.maxabs()+tt)+1e-6*max_scale(M);
    // badly conditioned placements lose digits on the way to object space
    need *= 1+0.1*inv*max_scale(M);
    D3 u = D.cross(std::fabs(D.x)<0.6?D3(1, 0, 0):D3(0, 1, 0)).norm(), v = D.cross(u).norm();
    double lo = f.t, hi = f.t, spread = 0, dspread = 0;
    for(int k = 0; k<6; k++)
    {
        D3 q = k<2?u*(k%2?need:-need):k<4?v*(k%2?need:-need):D*(k%2?need:-need);
        Ref n = reference(s, M, I, O+q, D, limit);
        if(n.res != f.res)
            return false;
        if(!f.res)
            continue;
        if(n.idx != f.idx)
            return false;
        lo = std::min(lo, n.t);
        hi = std::max(hi, n.t);
        spread = std::max(spread, (n.n-f.n).len());
        dspread = std::max(dspread, (n.du-f.du).len()+(n.dv-f.dv).len());
    }
    if(f.res && !(f.facing>0.02))
        return false; // seen edge-on
    D3 od = I.vec(D);
    if(res && !(std::fabs(I.vec(D3(h.dpdu)).cross(I.vec(D3(h.dpdv))).norm().dot(od.norm()))>0.02))
        return false;
    if(res && !f.res) // a corner is hit by none of the displaced rays
        for(int k = 0; k<4; k++)
        {
            D3 q = O+(k<2?u:v)*(k%2?need:-need);
            Ray r2(Point3((float)q.x, (float)q.y, (float)q.z), d);
            float d2 = limit;
            HitPoint h2 = sentinel();
            if(!a.intersect(&r2, &d2, &h2) || h2.index != h.index)
                return false;
        }
    if(sphere && far>40)
        return false; // roots lose too many digits
    if(hi-lo>0.05*std::max(f.t, max_scale(M)) || spread>0.3)
        return false;
    double slack = 2*(hi-lo)+need+1e-5*f.t;
    if(f.res && (f.t+slack>=limit || f.t<0.01+slack))
        return false;
    CHECK(res == f.res, "the transformed shape is ", f.res?pbt::str("hit at ", f.t, " point ", f.p):pbt::str("missed"), ", the instance is ", res?pbt::str("hit at ", dist):pbt::str("missed"));
    if(!res)
        return false;
    CHECK(std::fabs(dist-f.t)<=slack, "distance ", dist, " expected ", f.t, " within ", slack);
    if(!(h.point_h.x != h.point_h.x) && dynamic_cast<const Sphere*>(s))
        slack += 0.0101*max_scale(M)*((std::fabs(I.point(f.p).x)<0.02 && std::fabs(I.point(f.p).y)<0.02)?1:0);
    CHECK(near3(D3(h.point_h), f.p, 2*slack), "point ", h.point_h, " expected ", f.p, " within ", slack);
    CHECK(near3(D3(h.point_h), O+D*(double)dist, 2*slack), "point ", h.point_h, " is not on the ray");
    CHECK(dynamic_cast<const Mesh*>(s)?h.index<faces.size():h.index == 0, "face index ", h.index);
    if(h.index != f.idx) // an edge or two faces at the same distance; G06 checks the choice
        return false;
    CHECK(near3(D3(h.normal_h), f.n, 2*spread+(1e-4+(sphere?1e-4+2e-6*far*far:0))*(1+inv*max_scale(M)*0.1)), "normal ", h.normal_h, " expected ", f.n, " within ", 2*spread);
    if(dspread<0.2*(f.du.len()+f.dv.len()))
    {
        double tol = 3*dspread+(1e-4+(sphere?1e-3+5e-6*far*far:0))*(f.du.len()+f.dv.len())+1e-6;
        CHECK(near3(D3(h.dpdu), f.du, tol) && near3(D3(h.dpdv), f.dv, tol), "derivatives ", h.dpdu, h.dpdv, " expected ", f.du, f.dv, " spread ", dspread, " uv ", h.uv);
    }
    float e0, e1;
    RayProperties rp(r);
    CHECK(a.intersect_AABB(&r, &rp, &e0, &e1), "the bounding box of the instance is missed, the instance is hit at ", dist);
    CHECK(e0<=dist+slack && e1>=dist-slack, "the bounding box spans ", e0, " to ", e1, ", the hit is at ", dist);
    return true;
}
PROP(placed, 1000000, 6000000, "a sphere, box or random mesh under a random placement (also mirrored), 6 rays aimed at it, against the shape intersected in object space with double precision transformations; non-trivial: a hit that rounding cannot turn into a miss was compared")
{
    std::unique_ptr<Shape> s(gen_shape(g));
    Placement p = gen_placement(g);
    Matrix4 m = p.m();
    DM M(m), I;
    if(!M.affine_inverse(&I))
        return;
    g.note(p, " faces ", s->get_faces_number());
    std::unique_ptr<Asset> a;
    if(g.p(1, 4))
        a.reset(new AreaLight(s.get(), m, SPECTRUM_WHITE));
    else
        a.reset(new Asset(s.get(), m, 1));
    CHECK(a->is_light() == (dynamic_cast<AreaLight*>(a.get()) != nullptr), "is_light");
    for(int k = 0; k<6; k++)
    {
        Point3 o;
        Vec3 d;
        gen_ray(g, M, s->compute_AABB(), &o, &d);
        float limit = g.p(2, 3)?FLT_MAX:g.logf(0.02f, 300.f);
        if(compare(g, *a, s.get(), M, I, o, d, limit, false))
            g.nontrivial();
    }
}
PROP(bounds, 1500000, 6000000, "a sphere, box or random mesh under a random placement: transformed surface points lie inside the bounding box, which is no larger than that of the transformed box of the shape; non-trivial: the placement is rotated or mirrored")
{
    std::unique_ptr<Shape> s(gen_shape(g));
    Placement p = gen_placement(g);
    Matrix4 m = p.m();
    DM M(m);
    Asset a(s.get(), m, 1);
    AABB local = s->compute_AABB();
    const AABB* w = a.get_AABB();
    D3 lo(INFINITY, INFINITY, INFINITY), hi(-INFINITY, -INFINITY, -INFINITY);
    double mag = 0;
    for(int k = 0; k<8; k++)
    {
        D3 c((k&1?local.bounds[1]:local.bounds[0]).x, (k&2?local.bounds[1]:local.bounds[0]).y, (k&4?local.bounds[1]:local.bounds[0]).z);
        mag = std::max(mag, M.abs().point(D3(std::fabs(c.x), std::fabs(c.y), std::fabs(c.z))).maxabs());
        c = M.point(c);
        for(int q = 0; q<3; q++)
        {
            lo[q] = std::min(lo[q], c[q]);
            hi[q] = std::max(hi[q], c[q]);
        }
    }
    double tol = 2e-6*mag+1e-9;
    g.note(p, " world bounds ", w->bounds[0], w->bounds[1], " corners ", lo, hi);
    for(int q = 0; q<3; q++)
        CHECK(w->bounds[0][q]>=lo[q]-tol && w->bounds[1][q]<=hi[q]+tol, "the bounds ", w->bounds[0], w->bounds[1], " exceed those of the transformed box ", lo, hi);
    std::vector<float> cd(s->get_faces_number());
    s->get_densities_array(&m, cd.data());
    for(int k = 0; k<10; k++)
    {
        Point3 q;
        Normal n;
        s->sample_point(g.unit(), g.unit(), cd.data(), &q, &n);
        D3 P = M.point(D3(q));
        for(int c = 0; c<3; c++)
            CHECK(P[c]>=w->bounds[0][c]-tol && P[c]<=w->bounds[1][c]+tol, "surface point ", P, " outside the bounds ", w->bounds[0], w->bounds[1]);
    }
    g.nontrivial(p.rot.maxabs()>0.1 || p.scale.x<0);
}
PROP(shared, 800000, 2000000, "histories over 2 to 5 instances of one shape: rays, material and mask changes in any order; every instance answers as a lone instance with its own placement, material and mask would; non-trivial: an instance was hit after another was changed")
{
    std::unique_ptr<Shape> s(gen_shape(g));
    int n = (int)g.i(2, 5);
    std::vector<std::unique_ptr<Asset>> as;
    std::vector<Placement> ps;
    std::vector<Matrix4> ms;
    static std::vector<std::unique_ptr<SingleBRDF>> mats;
    while(mats.size()<4)
        mats.emplace_back(new SingleBRDF(new Lambertian()));
    int nfaces = s->get_faces_number();
    std::vector<std::vector<const Bsdf*>> expect;
    for(int k = 0; k<n; k++)
    {
        Placement p = gen_placement(g, 0.3f, 3.f, 5.f);
        ps.push_back(p);
        ms.push_back(p.m());
        as.emplace_back(new Asset(s.get(), ms.back(), 1));
        expect.emplace_back();
        for(int q = 0; q<k; q++)
            CHECK(as[q]->get_id() != as[k]->get_id(), "two instances share the id ", as[k]->get_id());
    }
    bool changed = false;
    int steps = (int)g.size(1, 20);
    for(int q = 0; q<steps; q++)
    {
        int k = (int)g.draw(n-1);
        switch(g.draw(2))
        {
            case 0:
            {
                Point3 o;
                Vec3 d;
                gen_ray(g, DM(ms[k]), s->compute_AABB(), &o, &d);
                Asset lone(s.get(), ms[k], 1);
                Ray r(o, d);
                float d1 = FLT_MAX, d2 = FLT_MAX;
                HitPoint h1 = sentinel(), h2 = sentinel();
                bool a = as[k]->intersect(&r, &d1, &h1), b = lone.intersect(&r, &d2, &h2);
                CHECK(a == b && d1 == d2 && h1.point_h == h2.point_h && h1.normal_h == h2.normal_h && h1.uv == h2.uv && h1.index == h2.index, "instance ", k, " answers differently than a lone one");
                if(a && changed)
                    g.nontrivial();
                break;
            }
            case 1: // new materials
            {
                int c = (int)g.i(1, 4);
                const Bsdf* list[4];
                for(int w = 0; w<c; w++)
                    list[w] = mats[g.draw(3)].get();
                std::vector<unsigned char> idx(nfaces);
                expect[k].clear();
                for(int w = 0; w<nfaces; w++)
                {
                    idx[w] = (unsigned char)g.draw(c-1);
                    expect[k].push_back(list[idx[w]]);
                }
                as[k]->set_materials(list, (unsigned char)c, idx.data());
                changed = true;
                break;
            }
            case 2: // materials of every instance
                for(int j = 0; j<n; j++)
                    for(size_t w = 0; w<expect[j].size(); w++)
                        CHECK(as[j]->get_material((unsigned)w) == expect[j][w], "instance ", j, " face ", w, " has the wrong material");
                break;
        }
    }
}
