// flavours: rgb
#include "common.hpp"
#include "primitives/box.hpp"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include "textures/mask_boolean.hpp"
#include <algorithm>

static const float SELF = SELF_INTERSECT_ERROR;

static HitPoint sentinel()
{
    HitPoint h;
    memset((void*)&h, 0, sizeof(h));
    h.point_h = Point3(7, 8, 9);
    h.normal_h = Normal(4, 5, 6);
    h.dpdu = Vec3(1, 2, 3);
    h.dpdv = Vec3(3, 2, 1);
    h.index = 77;
    h.uv = Point2(0.3f, 0.7f);
    h.du = Vec2(0.1f, 0.2f);
    h.dv = Vec2(0.4f, 0.6f);
    h.differentials = false;
    h.asset_h = nullptr;
    return h;
}
static bool untouched(const HitPoint& h)
{
    HitPoint s = sentinel();
    return s.point_h == h.point_h && s.normal_h == h.normal_h && s.dpdu == h.dpdu && s.dpdv == h.dpdv && s.index == h.index && s.uv == h.uv && h.asset_h == nullptr;
}
static bool du_kept(const HitPoint& h)
{
    HitPoint s = sentinel();
    return s.du.x == h.du.x && s.du.y == h.du.y && s.dv.x == h.dv.x && s.dv.y == h.dv.y && !h.differentials && h.asset_h == nullptr;
}
// allowed distance: unlimited, generous, or near the expected one
static float gen_distance(pbt::Gen& g, double t)
{
    switch(g.draw(4))
    {
        case 0:
        case 4: return FLT_MAX;
        case 1: return g.logf(0.02f, 1e4f);
        case 2:
            if(t>0.03 && t<1e30)
                return (float)std::fmax(0.02, t*(0.3+1.4*g.d01()));
            return FLT_MAX;
        case 3:
            if(t>0.03 && t<1e30)
                return (float)std::fmax(0.02, t*(1+(g.b()?1e-3:-1e-3)));
            return FLT_MAX;
    }
    return FLT_MAX;
}
static float gen_len(pbt::Gen& g)
{
    // directions in object space are not unit vectors when the instance is scaled
    return g.p(1, 2)?1.f:g.logf(1e-3f, 1e2f);
}

PROP(sphere, 4000000, 60000000, "rays of any origin, direction length and allowed distance against the unit sphere, double precision roots with their rounding interval; non-trivial: the sphere is hit")
{
    Point3 o;
    Vec3 d;
    switch(g.draw(4))
    {
        case 0: // free
            o = gen_point(g, 100.f);
            d = gen_dir(g);
            break;
        case 1: // aimed at a point in or near the sphere
        {
            o = Point3(g.f(-10, 10), g.f(-10, 10), g.f(-10, 10));
            D3 t(gen_dir(g));
            t = t*(double)g.f(0.f, 1.3f);
            D3 v = t-D3(o);
            if(v.len()<1e-6)
                v = D3(1, 0, 0);
            v = v.norm();
            d = Vec3((float)v.x, (float)v.y, (float)v.z);
            break;
        }
        case 2: // from inside
        {
            Vec3 t = gen_dir(g);
            float k = g.f(0.f, 0.999f);
            o = Point3(t.x*k, t.y*k, t.z*k);
            d = gen_dir(g);
            break;
        }
        case 3: // from the surface
        {
            Vec3 t = gen_dir(g);
            o = Point3(t.x, t.y, t.z);
            d = gen_dir(g);
            break;
        }
        case 4: // near tangent
        {
            Vec3 t = gen_dir(g);
            D3 n(t), a = std::fabs(n.x)<0.8?D3(1, 0, 0):D3(0, 1, 0), s = n.cross(a).norm();
            double k = 1+(g.b()?1:-1)*g.logf(1e-6f, 0.3f), back = g.f(0.1f, 10.f);
            D3 p = n*k-s*back;
            o = Point3((float)p.x, (float)p.y, (float)p.z);
            d = Vec3((float)s.x, (float)s.y, (float)s.z);
            break;
        }
    }
    float len = gen_len(g);
    d = d*len;
    if(D3(d).len()<1e-6)
        return;
    D3 O(o), D(d);
    double a = D.dot(D), b = 2*D.dot(O), c = O.dot(O)-1, delta = b*b-4*a*c;
    double E = 1.2e-6*b*b+1.2e-6*4*a*(O.dot(O)+1);
    bool may = delta+E>=0, sure = delta-E>0;
    double hi = std::sqrt(std::max(0., delta+E)), lo = std::sqrt(std::max(0., delta-E));
    double slack = 1e-6*(std::fabs(b)/(2*a)+hi/(2*a))+1e-30;
    double s1l = (-b-hi)/(2*a)-slack, s1h = (-b-lo)/(2*a)+slack, s2l = (-b+lo)/(2*a)-slack, s2h = (-b+hi)/(2*a)+slack;
    double expect = s1l>SELF?(s1l+s1h)/2:(s2l+s2h)/2;
    float limit = gen_distance(g, expect), dist = limit;
    Ray r(o, d);
    g.note(r, " limit ", limit, " roots [", s1l, ",", s1h, "] [", s2l, ",", s2h, "]");
    HitPoint h = sentinel();
    MaskBoolean none;
    Sphere s;
    bool res = s.intersect(&r, &dist, &h, &none);
    bool can1 = may && s1h>=SELF && s1l<=limit, can2 = may && s1l<SELF && s2h>=SELF && s2l<=limit;
    bool must = sure && ((s1l>SELF && s1h<limit) || (s1h<SELF && s2l>SELF && s2h<limit));
    g.label(must?"hit":(can1 || can2?"border":"miss"));
    g.nontrivial(must);
    CHECK(res || !must, "a hit at about ", expect, " is missed");
    CHECK(!res || can1 || can2, "a hit at distance ", dist, " where there is none");
    CHECK(du_kept(h), "texture footprint of the record changed");
    if(!res)
    {
        CHECK(dist == limit && untouched(h), "a miss changed the record or the distance");
        return;
    }
    CHECK((can1 && dist>=s1l && dist<=s1h) || (can2 && dist>=s2l && dist<=s2h), "distance ", dist, " is neither crossing");
    CHECK(dist<=limit && dist>=SELF, "distance ", dist, " outside the allowed range");
    D3 P = O+D*(double)dist;
    double tol = 1e-6*(O.maxabs()+D.maxabs()*dist)+1e-6;
    if(h.point_h.x == SELF && h.point_h.y == 0) // documented shift of the poles
        tol += SELF;
    CHECK(near3(D3(h.point_h), P, tol), "point ", h.point_h, " is not on the ray at the distance, which is ", P);
    // on the sphere within the rounding of the distance
    double off = std::max(s1h-s1l, s2h-s2l)*D.len()+1e-5+tol;
    CHECK(std::fabs(P.len()-1)<=off, "point ", P, " is not on the sphere");
    if(off>0.05)
        return;
    CHECK(near3(D3(h.normal_h), P, 1e-6*(O.maxabs()+D.maxabs()*dist)+1e-6), "normal ", h.normal_h, " at ", P);
    // texture coordinates: azimuth from x towards y, height from -z to +z
    D3 N = P.norm();
    CHECK(h.uv.x>=0 && h.uv.x<=1 && h.uv.y>=-1e-6 && h.uv.y<=1.000001, "texture coordinates ", h.uv);
    double phi = 2*M_PI*h.uv.x, th = M_PI*(1-h.uv.y), tz = 3e-3+2*off;
    D3 Q(sin(th)*cos(phi), sin(th)*sin(phi), cos(th));
    double pole = std::sqrt(N.x*N.x+N.y*N.y);
    if(pole>0.01)
        CHECK(near3(Q, N, tz), "texture coordinates ", h.uv, " belong to ", Q, ", not to ", N);
    else
        CHECK(std::fabs(Q.z-N.z)<tz, "texture coordinates ", h.uv, " at a pole ", N);
    CHECK(h.index == 0, "face index ", h.index);
}

PROP(box, 4000000, 60000000, "rays against the unit box, double precision slabs; non-trivial: the box is hit away from its edges")
{
    Point3 o;
    Vec3 d;
    switch(g.draw(3))
    {
        case 0: o = gen_point(g, 100.f);
            d = gen_dir(g);
            break;
        case 1:
        {
            o = Point3(g.f(-6, 6), g.f(-6, 6), g.f(-6, 6));
            D3 v = D3(g.f(-0.1f, 1.1f), g.f(-0.1f, 1.1f), g.f(-0.1f, 1.1f))-D3(o);
            if(v.len()<1e-6)
                v = D3(0, 0, 1);
            v = v.norm();
            d = Vec3((float)v.x, (float)v.y, (float)v.z);
            break;
        }
        case 2: o = Point3(g.unit(), g.unit(), g.unit());
            d = gen_dir(g);
            break;
        case 3: // axis parallel
        {
            int ax = (int)g.draw(2);
            o = Point3(g.f(-0.2f, 1.2f), g.f(-0.2f, 1.2f), g.f(-0.2f, 1.2f));
            o[ax] = g.f(-5.f, 6.f);
            d = Vec3(0, 0, 0);
            d[ax] = g.b()?1.f:-1.f;
            if(g.b())
                d[(ax+1)%3] = -0.f;
            break;
        }
    }
    d = d*gen_len(g);
    if(D3(d).len()<1e-6)
        return;
    D3 O(o), D(d);
    double t0 = -INFINITY, t1 = INFINITY, w0 = -INFINITY, w1 = INFINITY; // robust and generous interval
    double e0 = -INFINITY, e1 = INFINITY; // exact interval
    bool parallel_out = false, parallel_in = true;
    for(int k = 0; k<3; k++)
    {
        double tol = 2e-6*(1+std::fabs(O[k]));
        if(D[k] == 0)
        {
            if(O[k]<-tol || O[k]>1+tol)
                parallel_out = true;
            if(O[k]<tol || O[k]>1-tol)
                parallel_in = false;
            if(O[k] == 0 || O[k] == 1)
                return; // runs inside the plane of a face
            continue;
        }
        double inv = 1/D[k], s = std::fabs(inv)*tol;
        double x = (0-O[k])*inv, y = (1-O[k])*inv;
        e0 = std::max(e0, std::min(x, y));
        e1 = std::min(e1, std::max(x, y));
        t0 = std::max(t0, std::min(x, y)+s);
        t1 = std::min(t1, std::max(x, y)-s);
        w0 = std::max(w0, std::min(x, y)-s);
        w1 = std::min(w1, std::max(x, y)+s);
    }
    bool may = !parallel_out && w0<=w1, sure = parallel_in && t0<t1;
    double expect = e0>SELF?e0:e1;
    float limit = gen_distance(g, expect), dist = limit;
    Ray r(o, d);
    g.note(r, " limit ", limit, " interval ", e0, " ", e1);
    HitPoint h = sentinel();
    MaskBoolean none;
    Box s;
    bool res = s.intersect(&r, &dist, &h, &none);
    bool can1 = may && t0>=SELF && w0<=limit, can2 = may && w0<=SELF*1.0001 && w1>=SELF*0.9999 && t1<=limit*1.0001;
    can1 = may && std::max(t0, w0)>=SELF*0.9999 && w0<=limit;
    bool must = sure && ((w0>SELF*1.0001 && t0<limit) || (t0<SELF*0.9999 && t1>SELF*1.0001 && w1<limit));
    g.label(must?"hit":(can1 || can2?"border":"miss"));
    g.nontrivial(must);
    CHECK(res || !must, "a hit at about ", expect, " is missed");
    CHECK(!res || can1 || can2, "a hit at distance ", dist, " where there is none");
    CHECK(du_kept(h), "texture footprint of the record changed");
    if(!res)
    {
        CHECK(dist == limit && untouched(h), "a miss changed the record or the distance");
        return;
    }
    CHECK(dist<=limit && dist>=SELF*0.9999, "distance ", dist, " outside the allowed range");
    double rel = 1e-6*std::fabs(dist);
    CHECK((can1 && dist>=w0-rel && dist<=std::max(t0, w0)+rel) || (can2 && dist<=w1+rel && dist>=std::min(t1, w1)-rel), "distance ", dist, " is neither crossing ", e0, " nor ", e1);
    D3 P = O+D*(double)dist;
    double tol = 2e-6*(O.maxabs()+D.maxabs()*dist)+2e-6;
    CHECK(near3(D3(h.point_h), P, tol), "point ", h.point_h, " is not on the ray at the distance, which is ", P);
    D3 N(h.normal_h);
    int ax = -1;
    for(int k = 0; k<3; k++)
        if(N[k] != 0)
        {
            CHECK(ax == -1 && std::fabs(N[k]) == 1, "normal ", N);
            ax = k;
        }
    CHECK(ax>=0, "normal ", N);
    // outward normal of a face that contains the point
    double slack = tol*4+(w1-w0>0?0:1e-5);
    CHECK(std::fabs(P[ax]-(N[ax]>0?1:0))<=slack+1e-5*std::fabs(dist)*D.len(), "normal ", N, " at ", P);
    CHECK(std::fabs(D3(h.dpdu).dot(N))<1e-6 && std::fabs(D3(h.dpdu).len()-1)<1e-5, "tangent ", h.dpdu, " for normal ", N);
    CHECK(h.index == 0, "face index ", h.index);
}

PROP(triangle, 4000000, 60000000, "rays against generated triangles (slivers, far away, tiny), double precision barycentric reference with its rounding interval; non-trivial: the triangle is hit away from its border")
{
    Vertex v[3];
    D3 p[3];
    float size = g.b()?1.f:g.logf(1e-2f, 1e2f);
    Point3 base = g.b()?Point3(0, 0, 0):Point3(g.f(-20, 20), g.f(-20, 20), g.f(-20, 20));
    for(int k = 0; k<3; k++)
    {
        v[k].p = Point3(base.x+size*g.f(-1, 1), base.y+size*g.f(-1, 1), base.z+size*g.f(-1, 1));
        Vec3 n = gen_dir(g);
        v[k].n = Normal(n.x, n.y, n.z);
        v[k].t = Point2(g.f(-2, 2), g.f(-2, 2));
        p[k] = D3(v[k].p);
    }
    double u = g.f(-0.2f, 1.2f), w = g.f(-0.2f, 1.2f);
    if(g.draw(3) != 0)
    {
        u = g.d01();
        w = g.d01()*(1-u);
    }
    D3 target = p[0]*(1-u-w)+p[1]*u+p[2]*w;
    Point3 o;
    Vec3 d;
    if(g.p(1, 5))
    {
        o = gen_point(g, 50.f);
        d = gen_dir(g);
    }
    else
    {
        D3 dir(gen_dir(g));
        double back = (g.p(1, 5)?-1:1)*(double)g.logf(5e-3f, 50.f);
        D3 q = target-dir*back;
        o = Point3((float)q.x, (float)q.y, (float)q.z);
        d = Vec3((float)dir.x, (float)dir.y, (float)dir.z);
    }
    d = d*gen_len(g);
    D3 O(o), D(d);
    if(D.len()<1e-6)
        return;
    D3 ba = p[1]-p[0], ca = p[2]-p[0], pv = D.cross(ca), tv = O-p[0], qv = tv.cross(ba);
    double det = pv.dot(ba), K = 1.5e-6;
    double S = std::max(std::max(p[0].maxabs(), p[1].maxabs()), std::max(p[2].maxabs(), O.maxabs()));
    double L = std::max(ba.len(), ca.len());
    // error bounds of the numerators and the determinant
    double eb = L+S*0.2; // differences of coordinates carry the error of the coordinates
    double edet = K*D.len()*L*eb*2, enu = K*D.len()*(L*eb+(tv.len()+S*0.2)*eb)*2, et = K*(L*eb+tv.len()*eb)*eb*2;
    bool unclear = std::fabs(det)<=8*edet;
    double U = pv.dot(tv)/det, V = D.dot(qv)/det, T = ca.dot(qv)/det;
    double du = (enu+std::fabs(U)*edet)/std::fabs(det), dv = (enu+std::fabs(V)*edet)/std::fabs(det), dt = (et+std::fabs(T)*edet)/std::fabs(det);
    float limit = gen_distance(g, unclear?1.:T), dist = limit;
    bool must = !unclear && U>du && V>dv && U+V<1-du-dv && T-dt>SELF && T+dt<limit;
    bool not_hit = !unclear && (U<-du || V<-dv || U+V>1+du+dv || T+dt<SELF || T-dt>limit);
    Triangle tri(v[0], v[1], v[2]);
    Ray r(o, d);
    g.note("triangle ", v[0].p, v[1].p, v[2].p, " ", r, " limit ", limit, " expected u ", U, " v ", V, " t ", T, " errors ", du, " ", dv, " ", dt);
    HitPoint h = sentinel();
    MaskBoolean none;
    bool res = tri.intersect(&r, &dist, &h, &none);
    g.label(must?"hit":(not_hit?"miss":"border"));
    g.nontrivial(must);
    CHECK(res || !must, "a hit is missed");
    CHECK(!res || !not_hit, "a hit at distance ", dist, " where there is none");
    CHECK(du_kept(h), "texture footprint of the record changed");
    if(!res)
    {
        CHECK(dist == limit && untouched(h), "a miss changed the record or the distance");
        return;
    }
    CHECK(dist<=limit && dist>=SELF, "distance ", dist, " outside the allowed range");
    D3 P = O+D*(double)dist;
    CHECK(near3(D3(h.point_h), P, 1e-6*(O.maxabs()+D.maxabs()*dist)+1e-9), "point ", h.point_h, " is not on the ray at the distance, which is ", P);
    if(unclear)
        return;
    CHECK(std::fabs(dist-T)<=dt+1e-6*std::fabs(T), "distance ", dist, " expected ", T);
    // interpolated attributes
    double W = 1-U-V, m = 2*(du+dv)+2e-6;
    D3 n = D3(v[0].n)*W+D3(v[1].n)*U+D3(v[2].n)*V;
    CHECK(near3(D3(h.normal_h), n, m*2), "normal ", h.normal_h, " expected ", n);
    double tx = v[0].t.x*W+v[1].t.x*U+v[2].t.x*V, ty = v[0].t.y*W+v[1].t.y*U+v[2].t.y*V;
    CHECK(std::fabs(h.uv.x-tx)<=m*4 && std::fabs(h.uv.y-ty)<=m*4, "texture coordinates ", h.uv, " expected ", tx, " ", ty);
}
