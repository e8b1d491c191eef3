// flavours: rgb
#include "common.hpp"
#include "geometry/AABB.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include <algorithm>

static const int N = 3000;
// pair k of N evenly spread ones
static void pair_at(int k, double jx, double jy, float* r0, float* r1)
{
    *r0 = std::min(0.99999994f, (float)((k+jx)/N));
    *r1 = std::min(0.99999994f, (float)std::fmod(k*0.6180339887498949+jy, 1.));
}
static float gen_r(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: return 0.f;
        case 1: return 0.99999994f;
        default: return g.unit_plain();
    }
}
struct Range
{
    D3 lo, hi;
    void add(const D3& p)
    {
        for(int k = 0; k<3; k++)
        {
            lo[k] = std::min(lo[k], p[k]);
            hi[k] = std::max(hi[k], p[k]);
        }
    }
    Range() : lo(INFINITY, INFINITY, INFINITY), hi(-INFINITY, -INFINITY, -INFINITY) { }
};
static void check_contains(const AABB& b, const D3& p, double tol, const char* what)
{
    for(int k = 0; k<3; k++)
        CHECK(p[k]>=D3(b.bounds[0])[k]-tol && p[k]<=D3(b.bounds[1])[k]+tol, what, ": ", p, " is outside the bounding box ", b.bounds[0], " - ", b.bounds[1]);
}
// exact: the box must be r; otherwise only not larger than r
static void check_box(const AABB& b, const Range& r, double tol, bool exact, const char* what)
{
    for(int k = 0; k<3; k++)
    {
        double lo = D3(b.bounds[0])[k], hi = D3(b.bounds[1])[k];
        CHECK(lo>=r.lo[k]-tol && hi<=r.hi[k]+tol, what, ": bounding box ", b.bounds[0], " - ", b.bounds[1], " is larger than ", r.lo, " - ", r.hi);
        if(exact)
            CHECK(std::fabs(lo-r.lo[k])<=tol && std::fabs(hi-r.hi[k])<=tol, what, ": bounding box ", b.bounds[0], " - ", b.bounds[1], " expected ", r.lo, " - ", r.hi);
    }
}
static double reach(const Placement& p, double object_size)
{
    return p.scale.maxabs()*object_size+p.pos.maxabs();
}

PROP(sphere, 10000, 200000, "evenly spread pairs of random numbers: every sample on the unit sphere with its radius as normal, caps hit in proportion to their area; area and bounding boxes under placements; non-trivial: the cap is neither empty nor full")
{
    Sphere s;
    Vec3 a = gen_dir(g);
    double c = g.f(-0.95f, 0.95f), jx = 0.1+0.8*g.d01(), jy = 0.1+0.8*g.d01();
    int in = 0;
    Placement pl = gen_placement(g);
    Matrix4 m = pl.m();
    AABB wb = s.compute_AABB(&m), ob = s.compute_AABB();
    double tol = 1e-5*reach(pl, 2);
    g.note("cap around ", a, " cosine ", c, " jitter ", jx, " ", jy, " placement ", pl);
    for(int k = 0; k<N; k++)
    {
        float r0, r1;
        pair_at(k, jx, jy, &r0, &r1);
        Point3 p;
        Normal n;
        s.sample_point(r0, r1, NULL, &p, &n);
        D3 P(p);
        CHECK(std::fabs(P.len()-1)<1e-5, "sample ", p, " of ", r0, " ", r1, " is not on the sphere");
        CHECK(near3(D3(n), P, 1e-5), "normal ", n, " at ", p);
        in += P.dot(D3(a))>c;
        check_contains(wb, pl.d().point(P), tol, "placed sphere");
    }
    double f = in/(double)(N), e = (1-c)/2;
    CHECK(std::fabs(f-e)<0.012, "a cap of area share ", e, " received ", f, " of the samples");
    g.nontrivial(true);
    Point3 p;
    Normal n;
    float r0 = gen_r(g), r1 = gen_r(g);
    s.sample_point(r0, r1, NULL, &p, &n);
    CHECK(std::fabs(D3(p).len()-1)<1e-5 && near3(D3(n), D3(p), 1e-5), "sample ", p, " normal ", n, " of ", r0, " ", r1);
    // bounding boxes
    Range cube, unit;
    for(int k = 0; k<8; k++)
    {
        D3 q(k & 1?1:-1, k & 2?1:-1, k & 4?1:-1);
        cube.add(pl.d().point(q));
        unit.add(q);
    }
    check_box(ob, unit, 1e-6, true, "sphere");
    check_box(wb, cube, tol, false, "placed sphere");
    CHECK(pbt::near(s.surface(), 4*M_PI, 0, 1e-5), "area ", s.surface());
    Placement u = pl;
    double k = std::fabs(pl.scale.x);
    u.scale = D3(k, k, k);
    Matrix4 um = u.m();
    CHECK(pbt::near(s.surface(&um), 4*M_PI*k*k, 0, 1e-4), "area ", s.surface(&um), " of a sphere of radius ", k);
}

PROP(box, 10000, 200000, "evenly spread samples of placed boxes: on a face with its normal, sub-boxes receive the share of the surface inside them; non-trivial: edges of different length")
{
    Box b;
    Placement pl = gen_placement(g, 0.05f, 20.f);
    Matrix4 m = pl.m();
    D3 s(std::fabs(pl.scale.x), std::fabs(pl.scale.y), std::fabs(pl.scale.z));
    g.nontrivial(std::fabs(s.x-s.y)>0.1*s.x || std::fabs(s.x-s.z)>0.1*s.x);
    double total = 2*(s.x*s.y+s.y*s.z+s.x*s.z);
    CHECK(b.get_faces_number() == 6, "faces");
    float dens[6];
    b.get_densities_array(&m, dens);
    CHECK(pbt::near(b.surface(&m), total, 0, 1e-4), "area ", b.surface(&m), " expected ", total);
    CHECK(pbt::near(dens[5], total, 0, 1e-4), "total of the densities ", dens[5], " expected ", total);
    CHECK(b.surface() == 6, "area of the unit box");
    D3 lo, hi;
    for(int k = 0; k<3; k++)
    {
        double x = 0.02+0.96*g.d01(), y = 0.02+0.96*g.d01();
        lo[k] = std::min(x, y);
        hi[k] = std::max(x, y);
        if(g.b())
            lo[k] = -1;
        if(g.b())
            hi[k] = 2;
    }
    double expect = 0;
    for(int k = 0; k<3; k++)
    {
        int i = (k+1)%3, j = (k+2)%3;
        double part = s[i]*s[j]*(std::min(hi[i], 1.)-std::max(lo[i], 0.))*(std::min(hi[j], 1.)-std::max(lo[j], 0.));
        if(lo[k]<0)
            expect += part;
        if(hi[k]>1)
            expect += part;
    }
    expect /= total;
    double jx = 0.1+0.8*g.d01(), jy = 0.1+0.8*g.d01();
    g.note("placement ", pl, " region ", lo, " - ", hi, " jitter ", jx, " ", jy);
    AABB wb = b.compute_AABB(&m);
    double tol = 1e-5*reach(pl, 2);
    int in = 0;
    for(int k = 0; k<N; k++)
    {
        float r0, r1;
        pair_at(k, jx, jy, &r0, &r1);
        if(k == 0)
        {
            r0 = gen_r(g);
            r1 = gen_r(g);
        }
        Point3 p;
        Normal n;
        b.sample_point(r0, r1, dens, &p, &n);
        D3 P(p), O(n);
        int ax = O.x != 0?0:(O.y != 0?1:2);
        CHECK(std::fabs(O[ax]) == 1 && O.len() == 1, "normal ", n);
        CHECK(std::fabs(P[ax]-(O[ax]>0?1:0))<1e-6, "sample ", p, " of ", r0, " ", r1, " is not on the face ", n);
        for(int q = 0; q<3; q++)
            CHECK(P[q]>=-1e-5 && P[q]<=1+1e-5, "sample ", p, " of ", r0, " ", r1, " outside the box");
        check_contains(wb, pl.d().point(P), tol, "placed box");
        if(k == 0)
            continue;
        bool inside = true;
        for(int q = 0; q<3; q++)
            inside = inside && P[q]>lo[q] && P[q]<hi[q];
        in += inside;
    }
    double f = in/(double)(N-1);
    CHECK(std::fabs(f-expect)<0.015, "a region with a share ", expect, " of the surface received ", f, " of the samples");
    Range r;
    for(int k = 0; k<8; k++)
        r.add(pl.d().point(D3(k & 1, (k >> 1) & 1, k >> 2)));
    check_box(wb, r, tol, true, "placed box");
    Range u;
    u.add(D3(0, 0, 0));
    u.add(D3(1, 1, 1));
    check_box(b.compute_AABB(), u, 0, true, "box");
}

struct Tri
{
    D3 p[3];
    D3 normal() const { return (p[1]-p[0]).cross(p[2]-p[0]).norm(); }
    double area(const DM& m) const
    {
        return 0.5*m.vec(p[1]-p[0]).cross(m.vec(p[2]-p[0])).len();
    }
    // barycentric coordinates of the projection and distance from the plane
    D3 bary(const D3& q, double* off) const
    {
        D3 n = (p[1]-p[0]).cross(p[2]-p[0]);
        double nn = n.dot(n);
        *off = std::fabs((q-p[0]).dot(n))/std::sqrt(nn);
        double b = (q-p[0]).cross(p[2]-p[0]).dot(n)/nn, c = (p[1]-p[0]).cross(q-p[0]).dot(n)/nn;
        return D3(1-b-c, b, c);
    }
};
static Tri gen_tri(pbt::Gen& g, const D3& base)
{
    for(;;)
    {
        Tri t;
        for(int k = 0; k<3; k++)
        {
            D3 q = base+D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
            t.p[k] = D3((float)q.x, (float)q.y, (float)q.z);
        }
        D3 n = (t.p[1]-t.p[0]).cross(t.p[2]-t.p[0]);
        if(n.len()>0.02)
            return t;
        // too thin to judge: use a right triangle instead
        t.p[1] = t.p[0]+D3(1, 0, 0);
        t.p[2] = t.p[0]+D3(0, 1, 0);
        return t;
    }
}
static Vertex vertex(const D3& p)
{
    Vertex v;
    v.p = Point3((float)p.x, (float)p.y, (float)p.z);
    v.n = Normal(0, 0, 1);
    v.t = Point2(0, 0);
    return v;
}

PROP(triangle, 40000, 1000000, "evenly spread samples of triangles: inside the triangle with its normal, corners cut off receive their share of the area; areas and bounding boxes under placements; non-trivial: every case")
{
    Tri t = gen_tri(g, D3(g.f(-5, 5), g.f(-5, 5), g.f(-5, 5)));
    Triangle tri(vertex(t.p[0]), vertex(t.p[1]), vertex(t.p[2]));
    double alpha = 0.2+0.75*g.d01(), jx = 0.1+0.8*g.d01(), jy = 0.1+0.8*g.d01();
    int corner = (int)g.draw(2), in = 0;
    Placement pl = gen_placement(g);
    Matrix4 m = pl.m();
    g.note("triangle ", t.p[0], t.p[1], t.p[2], " corner ", corner, " share ", alpha*alpha, " placement ", pl);
    for(int k = 0; k<N; k++)
    {
        float r0, r1;
        pair_at(k, jx, jy, &r0, &r1);
        if(k == 0)
        {
            r0 = gen_r(g);
            r1 = gen_r(g);
        }
        Point3 p;
        Normal n;
        tri.sample_point(r0, r1, NULL, &p, &n);
        double off;
        D3 b = t.bary(D3(p), &off);
        CHECK(off<1e-5 && b.x>-1e-3 && b.y>-1e-3 && b.z>-1e-3, "sample ", p, " of ", r0, " ", r1, " is outside the triangle, barycentric ", b);
        CHECK(near3(D3(n), t.normal(), 1e-3), "normal ", n, " expected ", t.normal());
        in += b[corner]>1-alpha;
    }
    double f = in/(double)(N);
    CHECK(std::fabs(f-alpha*alpha)<0.012, "a corner with a share ", alpha*alpha, " of the area received ", f, " of the samples");
    g.nontrivial();
    CHECK(pbt::near(tri.surface(), t.area(DM()), 0, 1e-4), "area ", tri.surface(), " expected ", t.area(DM()));
    double wa = t.area(pl.d());
    CHECK(pbt::near(tri.surface(&m), wa, 1e-5*pl.scale.maxabs()*pl.scale.maxabs(), 1e-3), "area ", tri.surface(&m), " of the placed triangle, expected ", wa);
    Range o, w;
    for(int k = 0; k<3; k++)
    {
        o.add(t.p[k]);
        w.add(pl.d().point(t.p[k]));
    }
    check_box(tri.compute_AABB(), o, 1e-6, true, "triangle");
    check_box(tri.compute_AABB(&m), w, 1e-5*reach(pl, 12), true, "placed triangle");
    CHECK(tri.get_faces_number() == 1, "faces");
}

PROP_CPU(mesh, 40000, 800000, "evenly spread samples of meshes of separate triangles: every triangle receives its share of the placed surface, samples are uniform inside it and carry its normal; non-trivial: two or more triangles", 25)
{
    int n = g.p(1, 100)?(int)g.i(25, 250):(int)g.size(1, 24);
    std::vector<Tri> ts;
    Mesh mesh(g.b()?n:1);
    int layout = (int)g.draw(2);
    std::vector<int> order;
    for(int k = 0; k<n; k++)
    {
        D3 base = layout == 0?D3(4*k, 0, 0):(layout == 1?D3(4*(k%3), 4*((k/3)%3), 4*(k/9)):D3(0, -4*k, 0));
        Tri t = gen_tri(g, base);
        if(g.p(1, 3))
        {
            // one large triangle among small ones
            double s = g.logf(0.05f, 1.f);
            for(int q = 1; q<3; q++)
            {
                D3 v = t.p[0]+(t.p[q]-t.p[0])*s;
                t.p[q] = D3((float)v.x, (float)v.y, (float)v.z);
            }
        }
        ts.push_back(t);
        if(g.b())
        {
            Vertex a = vertex(t.p[0]), b = vertex(t.p[1]), c = vertex(t.p[2]);
            mesh.add_triangle(&a, &b, &c);
        }
        else
            mesh.add_triangle(vertex(t.p[0]).p, vertex(t.p[1]).p, vertex(t.p[2]).p, Normal(0, 0, 1));
        g.note("triangle ", t.p[0], t.p[1], t.p[2]);
    }
    mesh.finalize();
    g.nontrivial(n>=2);
    CHECK(mesh.get_faces_number() == n, "faces ", mesh.get_faces_number());
    Placement pl = gen_placement(g);
    g.note("placement ", pl);
    Matrix4 m = pl.m();
    DM D = pl.d();
    double total = 0, ototal = 0;
    for(auto& t : ts)
    {
        total += t.area(D);
        ototal += t.area(DM());
    }
    CHECK(pbt::near(mesh.surface(), ototal, 0, 1e-3), "area ", mesh.surface(), " expected ", ototal);
    CHECK(pbt::near(mesh.surface(&m), total, 1e-5*pl.scale.maxabs()*pl.scale.maxabs(), 2e-3), "placed area ", mesh.surface(&m), " expected ", total);
    std::vector<float> dens(n);
    mesh.get_densities_array(&m, dens.data());
    CHECK(pbt::near(dens[n-1], total, 1e-5*pl.scale.maxabs()*pl.scale.maxabs(), 2e-3), "total of the densities ", dens[n-1], " expected ", total);
    for(int k = 0; k<n; k++)
        CHECK(dens[k]>=(k?dens[k-1]:0), "densities decrease");
    // many first numbers: the triangle depends on it alone
    const int M = std::max(3000, 40*n);
    std::vector<int> hits(n, 0);
    std::vector<double> half(n, 0);
    double jx = 0.1+0.8*g.d01();
    Range lim;
    for(int k = 0; k<M+2; k++)
    {
        float r0 = std::min(0.99999994f, (float)((k+jx)/M)), r1 = std::fmod(k*0.61803398f, 1.f);
        if(k>=M)
        {
            r0 = gen_r(g);
            r1 = gen_r(g);
        }
        Point3 p;
        Normal nn;
        mesh.sample_point(r0, r1, dens.data(), &p, &nn);
        int which = -1;
        for(int q = 0; q<n && which<0; q++)
        {
            double off;
            D3 b = ts[q].bary(D3(p), &off);
            if(off<1e-3 && b.x>-1e-2 && b.y>-1e-2 && b.z>-1e-2)
            {
                which = q;
                if(k<M)
                {
                    hits[q]++;
                    half[q] += b.x>0.5;
                }
                CHECK(near3(D3(nn), ts[q].normal(), 5e-3), "normal ", nn, " at ", p, " expected ", ts[q].normal());
            }
        }
        CHECK(which>=0, "sample ", p, " of ", r0, " ", r1, " is on no triangle");
    }
    for(int q = 0; q<n; q++)
    {
        double f = hits[q]/(double)M, e = ts[q].area(D)/total;
        CHECK(std::fabs(f-e)<3./M+5e-3*e+1e-5, "triangle ", q, " with a share ", e, " of the surface received ", f, " of the samples");
        if(hits[q]>200)
            CHECK(std::fabs(half[q]/hits[q]-0.25)<0.06, "the quarter of triangle ", q, " near its first corner received ", half[q]/hits[q]);
        for(int c = 0; c<3; c++)
        {
            lim.add(ts[q].p[c]);
            check_contains(mesh.compute_AABB(&m), D.point(ts[q].p[c]), 1e-5*reach(pl, 110), "placed mesh");
        }
    }
    check_box(mesh.compute_AABB(), lim, 1e-5, true, "mesh");
    Range w;
    for(int k = 0; k<8; k++)
        w.add(D.point(D3(k & 1?lim.hi.x:lim.lo.x, k & 2?lim.hi.y:lim.lo.y, k & 4?lim.hi.z:lim.lo.z)));
    check_box(mesh.compute_AABB(&m), w, 1e-5*reach(pl, 110), false, "placed mesh");
}
