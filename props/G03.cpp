// flavours: rgb
#include "common.hpp"
#include "geometry/AABB.hpp"
#include <algorithm>

struct Box3
{
    D3 lo, hi;
};
static Box3 of(const AABB& a) { return Box3{D3(a.bounds[0]), D3(a.bounds[1])}; }
static bool same(const AABB& a, const Box3& b)
{
    for(int k = 0; k<3; k++)
        if(D3(a.bounds[0])[k] != b.lo[k] || D3(a.bounds[1])[k] != b.hi[k])
            return false;
    return true;
}
static Box3 join(const Box3& a, const Box3& b)
{
    Box3 r;
    for(int k = 0; k<3; k++)
    {
        r.lo[k] = std::min(a.lo[k], b.lo[k]);
        r.hi[k] = std::max(a.hi[k], b.hi[k]);
    }
    return r;
}
static std::string show(const AABB& a)
{
    return pbt::str("[", a.bounds[0], " - ", a.bounds[1], "]");
}

// a history of enlargements against the list of everything engulfed
PROP(union_history, 2000000, 40000000, "histories of engulfing points and boxes in every form against a list of points; non-trivial: 3 or more steps")
{
    int n = (int)g.size(1, 12);
    AABB acc;
    Box3 ref{D3(INFINITY, INFINITY, INFINITY), D3(-INFINITY, -INFINITY, -INFINITY)};
    CHECK(same(acc, ref), "a new box is not empty");
    std::vector<Point3> seen;
    for(int s = 0; s<n; s++)
    {
        Point3 p = gen_point(g), q = gen_point(g);
        AABB other(min(p, q), max(p, q));
        Box3 ob = of(other);
        int op = (int)g.draw(7);
        g.note("step ", op, " p=", p, " q=", q);
        AABB before = acc;
        switch(op)
        {
            case 0: acc.engulf(p); break;
            case 1: acc.engulf(&p); break;
            case 2: acc += p; break;
            case 3: acc = acc+p; break;
            case 4: acc.engulf(other); break;
            case 5: acc.engulf(&other); break;
            case 6: acc += other; break;
            case 7: acc = acc+other; break;
        }
        ref = join(ref, op<4?Box3{D3(p), D3(p)}:ob);
        seen.push_back(p);
        if(op>=4)
            seen.push_back(q);
        CHECK(same(acc, ref), "after step ", s, " (form ", op, ") the box is ", show(acc), ", expected [", ref.lo, " - ", ref.hi, "]");
        (void)before;
    }
    for(auto& p : seen)
        CHECK(acc.inside(&p), "an engulfed point ", p, " is not inside ", show(acc));
    g.nontrivial(n>=3);
    // one point boxes
    Point3 p = gen_point(g);
    AABB one(p);
    CHECK(one.bounds[0] == p && one.bounds[1] == p, "box of one point");
    CHECK(one.volume() == 0 && one.surface() == 0, "a point has volume or surface");
}
PROP(measures, 3000000, 60000000, "surface, volume, centre, longest axis, containment, growth and ordering of generated boxes against double precision; non-trivial: positive volume")
{
    Point3 p = gen_point(g), q = gen_point(g);
    AABB a(min(p, q), max(p, q));
    Point3 lo = a.bounds[0], hi = a.bounds[1];
    AABB b(&lo, &hi);
    g.note("box ", show(a));
    CHECK(same(b, of(a)), "the two constructors differ");
    float dx = hi.x-lo.x, dy = hi.y-lo.y, dz = hi.z-lo.z;
    double s = 2.0*((double)dx*dy+(double)dx*dz+(double)dy*dz), v = (double)dx*dy*dz;
    CHECK(pbt::near(a.surface(), s, 1e-35, 1e-6), "surface ", a.surface(), " expected ", s);
    CHECK(pbt::near(a.volume(), v, 1e-35, 1e-6), "volume ", a.volume(), " expected ", v);
    g.nontrivial(v>0);
    int ax = a.longest_axis();
    CHECK(ax>=0 && ax<=2, "axis ", ax);
    D3 d(dx, dy, dz);
    CHECK(d[ax] == d.maxabs(), "longest axis ", ax, " of ", d);
    D3 c(a.center());
    for(int k = 0; k<3; k++)
        CHECK(pbt::near(c[k], (D3(lo)[k]+D3(hi)[k])/2, 1e-35+2e-7*(std::fabs(D3(lo)[k])+std::fabs(D3(hi)[k]))), "centre ", c);
    // containment of a random point
    Point3 t = g.b()?gen_point(g):Point3(lo.x+dx*g.unit(), lo.y+dy*g.unit(), lo.z+dz*g.unit());
    bool in = t.x>=lo.x && t.x<=hi.x && t.y>=lo.y && t.y<=hi.y && t.z>=lo.z && t.z<=hi.z;
    CHECK(a.inside(&t) == in, "inside(", t, ") = ", a.inside(&t));
    // growth
    float e = g.logf(1e-3f, 1e2f);
    AABB grown = a;
    grown.expand(e);
    for(int k = 0; k<3; k++)
    {
        double l = D3(lo)[k], h = D3(hi)[k];
        CHECK(pbt::near(D3(grown.bounds[0])[k], l-e, 1e-6*(std::fabs(l)+e)) && pbt::near(D3(grown.bounds[1])[k], h+e, 1e-6*(std::fabs(h)+e)), "expanded by ", e, " to ", show(grown));
    }
    // ordering is by surface
    Point3 p2 = gen_point(g), q2 = gen_point(g);
    AABB o = g.p(1, 4)?AABB(lo, hi):AABB(min(p2, q2), max(p2, q2));
    bool lt = a.surface()<o.surface(), eq = a.surface() == o.surface();
    CHECK((a<o) == lt && (a>o) == (!lt && !eq) && (a<=o) == (lt || eq) && (a>=o) == !lt && (a == o) == eq && (a != o) == !eq, "ordering of ", show(a), " and ", show(o));
}

// slab test in double precision; margin tells how clear the outcome is
static bool slabs(const D3& o, const D3& d, const Box3& b, double* t0, double* t1)
{
    *t0 = -INFINITY;
    *t1 = INFINITY;
    for(int k = 0; k<3; k++)
    {
        if(d[k] == 0)
        {
            if(o[k]<b.lo[k] || o[k]>b.hi[k])
                return false;
            continue;
        }
        double a = (b.lo[k]-o[k])/d[k], c = (b.hi[k]-o[k])/d[k];
        *t0 = std::max(*t0, std::min(a, c));
        *t1 = std::min(*t1, std::max(a, c));
    }
    return *t0<=*t1;
}
PROP(ray, 4000000, 90000000, "lines against boxes, both intersection routines, double precision slab reference, cases within rounding of the border left out; non-trivial: the line crosses the box away from its border")
{
    Point3 p = gen_point(g, 1e3f), q = gen_point(g, 1e3f);
    AABB a(min(p, q), max(p, q));
    Box3 b = of(a);
    Point3 o = gen_point(g, 1e3f);
    Vec3 d;
    switch(g.draw(3))
    {
        case 0: d = gen_dir(g);
            break;
        case 1: // aimed at a point of the box
        {
            D3 t(b.lo.x+(b.hi.x-b.lo.x)*g.unit(), b.lo.y+(b.hi.y-b.lo.y)*g.unit(), b.lo.z+(b.hi.z-b.lo.z)*g.unit());
            D3 v = t-D3(o);
            if(v.len() == 0)
                v = D3(0, 0, 1);
            v = v.norm();
            d = Vec3((float)v.x, (float)v.y, (float)v.z);
            break;
        }
        case 2: // axis parallel from inside the slab of the box
        {
            int ax = (int)g.draw(2);
            d = Vec3(0, 0, 0);
            d[ax] = g.b()?1.f:-1.f;
            for(int k = 0; k<3; k++)
                o[k] = (float)(b.lo[k]+(b.hi[k]-b.lo[k])*(k == ax?g.f(-2, 3):g.unit()));
            break;
        }
        case 3: // in a coordinate plane
        {
            int ax = (int)g.draw(2);
            d = gen_dir(g);
            d[ax] = 0;
            if(d.length() == 0)
                d[(ax+1)%3] = 1;
            break;
        }
    }
    for(int k = 0; k<3; k++)
        if(d[k] == 0 && g.b())
            d[k] = -0.f;
    Ray r(o, d);
    g.note(show(a), " ", r);
    D3 od(o), dd(d);
    // grow and shrink the box by the rounding error: only clear outcomes are judged
    Box3 big = b, small = b;
    for(int k = 0; k<3; k++)
    {
        double tol = 1e-5*(std::fabs(od[k])+std::fabs(b.lo[k])+std::fabs(b.hi[k]))+1e-6;
        big.lo[k] -= tol;
        big.hi[k] += tol;
        small.lo[k] += tol;
        small.hi[k] -= tol;
    }
    // a line running exactly inside the plane of a face only touches the border
    for(int k = 0; k<3; k++)
        if(dd[k] == 0 && (od[k] == b.lo[k] || od[k] == b.hi[k]))
            return;
    double t0, t1, u0, u1;
    bool may = slabs(od, dd, big, &t0, &t1), must = small.lo.x<small.hi.x && small.lo.y<small.hi.y && small.lo.z<small.hi.z && slabs(od, dd, small, &u0, &u1);
    // relative slack of the parameters themselves
    double slack = 1e-5*(1+std::fmax(std::fabs(t0), std::fabs(t1)));
    if(must && u1-u0<slack)
        must = false;
    RayProperties rp(r);
    float p1 = -12345, p2 = -12345, f1 = -12345, f2 = -12345;
    bool slow = a.intersect(&r, &p1, &p2), fast = a.intersect(&r, &rp, &f1, &f2);
    g.label(must?"hit":(may?"border":"miss"));
    g.nontrivial(must);
    if(must)
    {
        CHECK(slow, "the box is missed");
        CHECK(fast, "the box is missed by the fast test");
        CHECK(p1>=t0-slack && p1<=u0+slack && p2>=u1-slack && p2<=t1+slack, "interval ", p1, " ", p2, " expected about ", u0, " ", u1);
        CHECK(f1>=t0-slack && f1<=u0+slack && f2>=u1-slack && f2<=t1+slack, "fast interval ", f1, " ", f2, " expected about ", u0, " ", u1);
    }
    if(!may && std::isfinite(slack))
    {
        // clear miss: also in the parameters
        double lo = -INFINITY, hi = INFINITY;
        for(int k = 0; k<3; k++)
            if(dd[k] != 0)
            {
                double x = (big.lo[k]-od[k])/dd[k], y = (big.hi[k]-od[k])/dd[k];
                lo = std::max(lo, std::min(x, y));
                hi = std::min(hi, std::max(x, y));
            }
        if(lo>hi+1e-5*(std::fabs(lo)+std::fabs(hi)) || lo<=hi)
        {
            CHECK(!slow, "a line that misses is reported as hit, interval ", p1, " ", p2);
            CHECK(!fast, "a line that misses is reported as hit by the fast test, interval ", f1, " ", f2);
        }
    }
}
