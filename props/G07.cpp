// flavours: rgb fast
#include "common.hpp"
#include "accelerators/kdtree.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "textures/mask_boolean.hpp"
#include <algorithm>
#include <memory>

static Mesh* make_quad()
{
    Mesh* m = new Mesh(2);
    Vertex v[4];
    for(int k = 0; k<4; k++)
    {
        v[k].p = Point3(k == 1 || k == 2?0.5f:-0.5f, k>=2?0.5f:-0.5f, 0);
        v[k].n = Normal(0, 0, 1);
        v[k].t = Point2(v[k].p.x+0.5f, v[k].p.y+0.5f);
    }
    m->add_triangle(&v[0], &v[1], &v[2]);
    m->add_triangle(&v[0], &v[2], &v[3]);
    m->finalize();
    return m;
}
static Mesh* make_tetra()
{
    Mesh* m = new Mesh(4);
    Point3 p[4] = {Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0), Point3(0, 0, 1)};
    for(int k = 0; k<4; k++)
    {
        Vertex v[3];
        for(int q = 0; q<3; q++)
        {
            v[q].p = p[(k+q)%4];
            v[q].n = Normal(0, 1, 0);
            v[q].t = Point2((float)(q%2), (float)(q/2));
        }
        m->add_triangle(&v[0], &v[1], &v[2]);
    }
    m->finalize();
    return m;
}
struct World
{
    std::vector<std::unique_ptr<Shape>> shapes;
    std::vector<std::unique_ptr<Asset>> assets;
    std::vector<D3> centres;
    std::vector<int> kinds;
    std::vector<double> sizes;
    void build(pbt::Gen& g, int n);
};
void World::build(pbt::Gen& g, int n)
{
    shapes.emplace_back(new Sphere());
    shapes.emplace_back(new Box());
    shapes.emplace_back(make_quad());
    shapes.emplace_back(make_tetra());
    int kind = (int)g.draw(9), only = (int)g.draw(5);
    g.label(pbt::str("family ", kind));
    float span = g.logf(1.f, 60.f), size = g.logf(0.1f, 6.f);
    D3 centre(g.f(-5, 5), g.f(-5, 5), g.f(-5, 5));
    double growth = 1.02+0.03*(double)g.draw(6);
    for(int k = 0; k<n; k++)
    {
        int what = only<4?only:(int)g.draw(3);
        D3 pos;
        double s = size;
        double rx = 0, ry = 0, rz = 0;
        switch(kind)
        {
            case 0: // spread
                pos = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*span;
                break;
            case 1: // lattice: sides of the boxes coincide
                pos = D3(k%5, (k/5)%5, k/25)*s;
                break;
            case 2: // concentric
                pos = centre;
                s = 0.1*std::pow(growth, k%45);
                break;
            case 3: // stacked on the same planes
                pos = D3((double)g.draw(3), (double)g.draw(3), (double)g.draw(2));
                s = 1;
                break;
            case 4: // flat pieces on a few planes
                pos = D3((double)g.draw(8), (double)g.draw(8), (double)g.draw(2))*0.5;
                what = 2;
                s = 0.5*(1+(double)g.draw(2));
                if(g.p(1, 2))
                    rx = 1.5707963267948966;
                else if(g.p(1, 2))
                    ry = 1.5707963267948966;
                break;
            case 5: // one huge, many small
                pos = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*span;
                s = k == n/2?span*3:size*0.2;
                break;
            case 6: // a line
                pos = D3(0, 0, k*(double)size);
                s = 0.45*size;
                break;
            case 7: // clusters far apart
                pos = D3((double)g.draw(1), (double)g.draw(1), (double)g.draw(1))*(span*10.)+D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
                s = span*0.02;
                break;
            case 8: // copies of a few
                pos = D3(k%3, k%2, 0)*(double)size;
                break;
            case 9: // anything
                pos = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*span;
                rx = g.d01()*6.28;
                ry = g.d01()*6.28;
                rz = g.d01()*6.28;
                s = g.logf(0.05f, 10.f);
                break;
        }
        D3 sc(s, s, s);
        if(kind == 9 && what != 0)
            sc = D3(s*g.logf(0.2f, 5.f), s, s*g.logf(0.2f, 5.f));
        Placement p;
        p.scale = sc;
        p.rot = D3(rx, ry, rz);
        p.pos = pos;
        Matrix4 m = p.m();
        assets.emplace_back(new Asset(shapes[what].get(), m, 1));
        centres.push_back(pos);
        kinds.push_back(what);
        sizes.push_back(s);
        if(n<=24)
            g.note("instance ", k, ": ", what == 0?"sphere":what == 1?"box":what == 2?"quad":"tetrahedron", " ", p);
    }
}
// The distance by which the hit is certain: rays displaced by a rounding error
// in every direction hit the instance too, the farthest of them there.
static double certain(const Asset* a, const Ray& r, double td, double sphere)
{
    D3 d(r.direction);
    D3 P = D3(r.origin)+d*td;
    double need = 2e-5*(D3(r.origin).maxabs()+P.maxabs()+td)+1e-5;
    if(sphere>0) // cancellation in the quadratic: the silhouette is blurred
    {
        double D = (D3(r.origin)-P).len()+2*sphere;
        need += std::min(1e-6*D*D/sphere, 1e-3*D);
    }
    D3 u = d.cross(std::fabs(d.x)<0.6?D3(1, 0, 0):D3(0, 1, 0)).norm(), v = d.cross(u).norm();
    double far = td;
    for(int k = 0; k<4; k++)
    {
        D3 o = D3(r.origin)+(k<2?u:v)*(k%2?need:-need);
        Ray q(Point3((float)o.x, (float)o.y, (float)o.z), r.direction);
        float t2 = FLT_MAX;
        HitPoint h;
        memset((void*)&h, 0, sizeof(h));
        if(!a->intersect(&q, &t2, &h))
            return INFINITY;
        far = std::max(far, (double)t2);
    }
    return far;
}
static void run(pbt::Gen& g, int n, int rays)
{
    World w;
    w.build(g, n);
    KdTree tree;
    std::vector<int> order(n);
    for(int k = 0; k<n; k++)
        order[k] = k;
    if(g.b())
        for(int k = n-1; k>0; k--)
            std::swap(order[k], order[g.draw(k)]);
    for(int k : order)
        tree.addAsset(w.assets[k].get());
    tree.buildTree();
    int hits = 0;
    for(int q = 0; q<rays; q++)
    {
        Point3 o;
        Vec3 d;
        D3 target = n>0?w.centres[g.draw(n-1)]:D3(0, 0, 0);
        target = target+D3(g.f(-0.5f, 0.5f), g.f(-0.5f, 0.5f), g.f(-0.5f, 0.5f));
        switch(g.draw(3))
        {
            case 0:
            {
                D3 dir(gen_dir(g));
                D3 p = target-dir*(double)g.logf(0.05f, 300.f);
                o = Point3((float)p.x, (float)p.y, (float)p.z);
                d = Vec3((float)dir.x, (float)dir.y, (float)dir.z);
                break;
            }
            case 1: // from one instance to another
            {
                D3 from = n>0?w.centres[g.draw(n-1)]:D3(3, 0, 0);
                D3 v = target-from;
                if(v.len()<1e-6)
                    v = D3(0, 1, 0);
                v = v.norm();
                o = Point3((float)from.x, (float)from.y, (float)from.z);
                d = Vec3((float)v.x, (float)v.y, (float)v.z);
                break;
            }
            case 2:
                o = gen_point(g, 100.f);
                d = gen_dir(g);
                break;
            case 3: // along the planes of a lattice
                o = Point3((float)((int)g.draw(40)-20)*0.5f, (float)((int)g.draw(40)-20)*0.5f, (float)((int)g.draw(40)-20)*0.5f);
                d = gen_dir(g);
                break;
        }
        Ray r(o, d);
        // beyond that the square of the distance swallows the radius in single precision
        bool swallowed = false;
        for(int k = 0; k<n && !swallowed; k++)
            swallowed = w.kinds[k] == 0 && (D3(o)-w.centres[k]).len()>1500*w.sizes[k];
        if(swallowed)
            continue;
        HitPoint h;
        memset((void*)&h, 0, sizeof(h));
        h.index = 424242;
        bool res = tree.intersect(&r, &h);
        double nearest = INFINITY, sure = INFINITY;
        int who = -1;
        for(int k = 0; k<n; k++)
        {
            float td = FLT_MAX;
            HitPoint th;
            memset((void*)&th, 0, sizeof(th));
            if(!w.assets[k]->intersect(&r, &td, &th))
                continue;
            if(td<nearest)
            {
                nearest = td;
                who = k;
            }
            if(td<sure)
                sure = std::min(sure, certain(w.assets[k].get(), r, td, w.kinds[k] == 0?w.sizes[k]:0));
        }
        g.note(r, res?" hits":" misses", ", nearest by trying all: ", nearest, " instance ", who);
        if(!res)
        {
            CHECK(!std::isfinite(sure), "instance ", who, " is hit at ", sure, " but the scene is missed");
            continue;
        }
        hits++;
        int idx = -1;
        for(int k = 0; k<n; k++)
            if(w.assets[k].get() == h.asset_h)
                idx = k;
        CHECK(idx != -1, "the reported instance is not part of the scene");
        float td = FLT_MAX;
        HitPoint bh;
        memset((void*)&bh, 0, sizeof(bh));
        CHECK(w.assets[idx]->intersect(&r, &td, &bh), "the reported instance ", idx, " is not hit");
        double slack = 1e-5*td+1e-5*D3(o).maxabs();
        CHECK(td<=sure+slack, "instance ", who, " is hit at ", sure, ", the scene reports instance ", idx, " at ", td);
        // a record stays as the nearest hit left it (boxes carry no texture coordinates)
        if(w.kinds[idx] == 1)
            h.uv = bh.uv;
        CHECK(h.point_h == bh.point_h && h.normal_h == bh.normal_h && h.uv == bh.uv && h.index == bh.index && memcmp(&h.dpdu, &bh.dpdu, sizeof(Vec3)) == 0, "record point ", h.point_h, " normal ", h.normal_h, " uv ", h.uv, " of the scene, point ", bh.point_h, " normal ", bh.normal_h, " uv ", bh.uv, " of instance ", idx);
    }
    g.nontrivial(n>=4 && hits>0);
}
#ifdef FLAVOUR_rgb
PROP(small, 300000, 3000000, "scenes of 0 to 40 instances of ten families, 12 rays each, against every instance tried in turn; non-trivial: 4 or more instances (the tree may split) and at least one hit")
{
    run(g, (int)g.size(0, 40), 12);
}
PROP_CPU(large, 9000, 60000, "scenes of 40 to 600 instances of ten families, 20 rays each, against every instance tried in turn; non-trivial: at least one hit", 40)
{
    run(g, (int)g.size(40, 600), 20);
}
PROP_CPU(limit, 150, 600, "scenes around the maximum number of instances (3000 to 4096), 20 rays each, against every instance tried in turn; non-trivial: at least one hit", 40)
{
    run(g, (int)g.size(3000, 4096), 20);
}
#else
PROP_CPU(large_fast, 30000, 200000, "optimised build: scenes of up to 1500 instances, 30 rays each, against every instance tried in turn; non-trivial: at least one hit", 40)
{
    run(g, (int)g.size(4, 1500), 30);
}
#endif
