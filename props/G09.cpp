// flavours: rgb rel
// G09: surface records, local frames, footprints
#include "common.hpp"
#include "materials/shading_space.hpp"
#include "materials/bump.hpp"
#include "primitives/asset.hpp"
#include "primitives/box.hpp"
#include "primitives/hit_point.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include <memory>

namespace
{
HitPoint blank()
{
    HitPoint h;
    memset((void*)&h, 0x5a, sizeof(h));
    h.differentials = false;
    h.du = h.dv = Vec2(0, 0);
    return h;
}
double det3(const DM& m)
{
    return D3(m.m[0][0], m.m[1][0], m.m[2][0]).dot(D3(m.m[0][1], m.m[1][1], m.m[2][1]).cross(D3(m.m[0][2], m.m[1][2], m.m[2][2])));
}
// the frame built on a record
void check_frame(pbt::Gen& g, const HitPoint& h, bool use_bump)
{
    D3 n(h.normal_h), du(h.dpdu);
    CHECK(pbt::near(n.len(), 1, 1e-4), "normal of length ", n.len());
    ShadingSpace sp;
    Normal nn(9, 9, 9);
    if(use_bump)
    {
        Bump b;
        b.bump(&h, &sp, &nn);
    }
    else
    {
        sp = ShadingSpace(&h);
        nn = sp.n;
    }
    D3 s(sp.s), t(sp.t), m(sp.n);
    CHECK(near3(m, n, 1e-5) && near3(D3(nn), n, 1e-5), "the frame has normal ", m, " reported ", D3(nn), " the surface ", n);
    double proj = (du-n*n.dot(du)).len()/std::max(du.len(), 1e-30);
    if(proj<1e-2)
        return; // the tangent is along the (interpolated) normal
    CHECK(pbt::near(s.len(), 1, 1e-4) && pbt::near(t.len(), 1, 1e-4), "tangents of length ", s.len(), " ", t.len());
    double tol = 2e-6/proj+1e-4;
    CHECK(fabs(s.dot(t))<tol && fabs(s.dot(m))<tol && fabs(t.dot(m))<tol, "frame not orthogonal: ", s, " ", t, " ", m);
    CHECK(near3(s, (du-n*n.dot(du)).norm(), tol), "tangent ", s, " not along dpdu ", du);
    // to the frame and back
    Vec3 v = gen_dir(g);
    Vec3 loc = sp.to_shading(v);
    CHECK(near3(D3(loc), D3(D3(v).dot(s), D3(v).dot(t), D3(v).dot(m)), 5e-4+5*tol), "to_shading ", loc);
    Vec3 back = sp.to_world(loc);
    CHECK(near3(D3(back), D3(v), 5e-4+5*tol), v, " to the frame and back is ", back);
}
}

void pbt::suite_init() { }

// derivatives of position along the texture coordinates of a placed sphere
PROP(sphere, 500000, 8000000, "a hit away from the poles on a placed sphere")
{
    Sphere s;
    Placement p = gen_placement(g, 0.1f, 10.f, 20.f);
    Matrix4 mm = p.m();
    DM m(mm), inv;
    if(!m.affine_inverse(&inv))
        g.discard();
    Asset a(&s, mm, 1);
    D3 lt(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
    D3 ldir = D3(gen_dir(g));
    if(g.p(1, 8)) // close to a pole
        lt = D3(0.03*g.f(-1, 1), 0.03*g.f(-1, 1), ldir.z>0?-1:1);
    D3 lo = lt-ldir*3.0;
    D3 wo = m.point(lo), wd = m.vec(ldir).norm();
    Ray r(Point3((float)wo.x, (float)wo.y, (float)wo.z), Vec3((float)wd.x, (float)wd.y, (float)wd.z));
    HitPoint h = blank();
    float dist = FLT_MAX;
    if(!a.intersect(&r, &dist, &h))
        return;
    D3 o = inv.point(D3(h.point_h)); // on the unit sphere
    double rad = sqrt(o.x*o.x+o.y*o.y);
    double smin = std::min(fabs(p.scale.x), std::min(fabs(p.scale.y), fabs(p.scale.z)));
    double scale = D3(p.scale).maxabs(), world = scale+D3(p.pos).maxabs();
    double err = 1e-5*(1+world/smin); // error of the local hit
    if(rad<std::max(1e-3+20*err, 3*sqrt(err)) || err>0.02)
        g.discard();
    g.nontrivial();
    double phi = atan2(o.y, o.x), th = atan2(rad, o.z);
    if(phi<0)
        phi += 2*M_PI;
    double du = fabs(h.uv.x-phi/(2*M_PI));
    CHECK(std::min(du, 1-du)<err/rad && pbt::near(h.uv.y, (M_PI-th)/M_PI, 1e-5+err/rad), "uv ", h.uv, " at ", o);
    D3 wu = m.vec(D3(-2*M_PI*o.y, 2*M_PI*o.x, 0));
    D3 wv = m.vec(D3(cos(th)*cos(phi), cos(th)*sin(phi), -sin(th))*-M_PI);
    double tol = (1e-5+4*err/rad)*scale*7;
    CHECK(near3(D3(h.dpdu), wu, tol), "dpdu ", h.dpdu, " expected ", wu, " ", p);
    CHECK(near3(D3(h.dpdv), wv, tol), "dpdv ", h.dpdv, " expected ", wv, " ", p);
    // the normal is perpendicular to both
    D3 n(h.normal_h);
    double ntol = 1e-3+20*err*scale/smin+4*err/rad*scale/smin;
    CHECK(fabs(n.dot(wu.norm()))<ntol && fabs(n.dot(wv.norm()))<ntol, "normal ", n,
          " not perpendicular to ", wu, " ", wv);
    check_frame(g, h, g.b());
}
// derivatives over a placed triangle, alone or in a mesh
PROP(triangle, 500000, 8000000, "non degenerate texture coordinates")
{
    Vertex v[3];
    D3 pos[3];
    for(int k = 0; k<3; k++)
    {
        pos[k] = D3(g.f(-2, 2), g.f(-2, 2), g.f(-2, 2));
        v[k].p = Point3((float)pos[k].x, (float)pos[k].y, (float)pos[k].z);
        v[k].t = Point2(g.f(-2.f, 3.f), g.f(-2.f, 3.f));
    }
    D3 gn = (pos[1]-pos[0]).cross(pos[2]-pos[0]);
    double size = std::max((pos[1]-pos[0]).len(), std::max((pos[2]-pos[0]).len(), (pos[1]-pos[2]).len()));
    if(gn.len()<0.05*size*size || size<0.05)
        g.discard();
    gn = gn.norm();
    bool smooth = g.b();
    for(int k = 0; k<3; k++)
    {
        D3 n = gn;
        if(smooth)
            n = (gn+D3(g.f(-0.6f, 0.6f), g.f(-0.6f, 0.6f), g.f(-0.6f, 0.6f))).norm();
        v[k].n = Normal((float)n.x, (float)n.y, (float)n.z);
    }
    if(g.p(1, 8)) // degenerate coordinates
        v[1].t = v[0].t;
    Placement p = gen_placement(g, 0.2f, 5.f, 20.f);
    Matrix4 mm = p.m();
    DM m(mm);
    double wb[2] = {0.1+0.8*g.d01(), 0};
    wb[1] = (1-wb[0])*(0.1+0.8*g.d01());
    double w0 = 1-wb[0]-wb[1];
    D3 lt = pos[0]*w0+pos[1]*wb[0]+pos[2]*wb[1];
    D3 ldir = (D3(gen_dir(g))*0.8+gn*(g.b()?1:-1)).norm();
    if(fabs(ldir.dot(gn))<0.1)
        g.discard();
    Mesh mesh(1);
    mesh.add_triangle(&v[0], &v[1], &v[2]);
    mesh.finalize();
    Asset a(&mesh, mm, 1);
    D3 wo = m.point(lt-ldir*2), wd = m.vec(ldir).norm();
    Ray r(Point3((float)wo.x, (float)wo.y, (float)wo.z), Vec3((float)wd.x, (float)wd.y, (float)wd.z));
    HitPoint h = blank();
    float dist = FLT_MAX;
    CHECK(a.intersect(&r, &dist, &h), "missed the triangle ", p);
    double t0x = v[1].t.x-v[0].t.x, t0y = v[1].t.y-v[0].t.y, t1x = v[2].t.x-v[0].t.x, t1y = v[2].t.y-v[0].t.y;
    double det = t0x*t1y-t0y*t1x;
    double big = std::max(std::max(fabs(t0x), fabs(t0y)), std::max(fabs(t1x), fabs(t1y)));
    D3 e0 = m.vec(pos[1]-pos[0]), e1 = m.vec(pos[2]-pos[0]);
    D3 du(h.dpdu), dv(h.dpdv);
    if(fabs(det)>1e-2*big*big && big>1e-2)
    {
        g.nontrivial();
        D3 xu = (e0*t1y-e1*t0y)*(1/det), xv = (e1*t0x-e0*t1x)*(1/det);
        double tol = 2e-4*(xu.len()+xv.len())*big*big/fabs(det);
        CHECK(near3(du, xu, tol), "dpdu ", du, " expected ", xu);
        CHECK(near3(dv, xv, tol), "dpdv ", dv, " expected ", xv);
    }
    else if(det == 0)
    { // any two tangents of the triangle that span it
        D3 n = e0.cross(e1).norm();
        CHECK(du.len()>0 && dv.len()>0 && std::isfinite(du.len()) && std::isfinite(dv.len()), "tangents ", du, " ", dv);
        CHECK(fabs(du.norm().dot(n))<1e-3 && fabs(dv.norm().dot(n))<1e-3, "tangents ", du, " ", dv, " leave the triangle");
        CHECK(du.norm().cross(dv.norm()).len()>1e-3, "tangents ", du, " ", dv, " are parallel");
        g.label("degenerate coordinates");
    }
    double tx = v[0].t.x*w0+v[1].t.x*wb[0]+v[2].t.x*wb[1], ty = v[0].t.y*w0+v[1].t.y*wb[0]+v[2].t.y*wb[1];
    CHECK(pbt::near(h.uv.x, tx, 5e-3) && pbt::near(h.uv.y, ty, 5e-3), "uv ", h.uv, " expected ", tx, " ", ty);
    check_frame(g, h, g.b());
}
PROP(box, 300000, 4000000, "any hit")
{
    Box b;
    Placement p = gen_placement(g, 0.2f, 5.f, 20.f);
    Matrix4 mm = p.m();
    DM m(mm);
    Asset a(&b, mm, 1);
    D3 lt(g.f(0, 1), g.f(0, 1), g.f(0, 1)), ldir(gen_dir(g));
    D3 wo = m.point(lt-ldir*(g.b()?3.0:0.0)), wd = m.vec(ldir).norm();
    Ray r(Point3((float)wo.x, (float)wo.y, (float)wo.z), Vec3((float)wd.x, (float)wd.y, (float)wd.z));
    HitPoint h = blank();
    float dist = FLT_MAX;
    if(!a.intersect(&r, &dist, &h))
        return;
    g.nontrivial();
    D3 n(h.normal_h), u(h.dpdu), v(h.dpdv);
    CHECK(pbt::near(n.len(), 1, 1e-4), "normal ", n);
    CHECK(u.len()>1e-3 && v.len()>1e-3 && u.len()<100 && v.len()<100, "tangents ", u, " ", v);
    CHECK(fabs(u.norm().dot(n))<1e-3 && fabs(v.norm().dot(n))<1e-3, "tangents ", u, " ", v, " not on the face ", n, " ", p);
    CHECK(u.norm().cross(v.norm()).len()>1e-3, "tangents parallel");
    check_frame(g, h, g.b());
}
// footprint of a pixel: where the neighbouring rays meet the tangent plane
PROP(footprint, 1000000, 15000000, "a footprint was reported")
{
    HitPoint h = blank();
    D3 n(gen_dir(g));
    D3 u = n.cross(fabs(n.x)<0.6?D3(1, 0, 0):D3(0, 1, 0)).norm(), v = n.cross(u);
    double lu = g.logf(0.05f, 50.f), lv = g.logf(0.05f, 50.f), ang = g.d01()*6.28, skew = g.d01()*2.6+0.25;
    D3 dpdu = (u*cos(ang)+v*sin(ang))*lu, dpdv = (u*cos(ang+skew)+v*sin(ang+skew))*lv;
    if(g.b())
        dpdv = dpdv*-1;
    D3 P(g.f(-5, 5), g.f(-5, 5), g.f(-5, 5));
    h.point_h = Point3((float)P.x, (float)P.y, (float)P.z);
    double nl = g.p(1, 4)?-1:1;
    h.normal_h = Normal((float)(n.x*nl), (float)(n.y*nl), (float)(n.z*nl));
    h.dpdu = Vec3((float)dpdu.x, (float)dpdu.y, (float)dpdu.z);
    h.dpdv = Vec3((float)dpdv.x, (float)dpdv.y, (float)dpdv.z);
    h.uv = Point2(g.f(0, 1), g.f(0, 1));
    h.differentials = g.b();
    D3 want[2];
    Ray ray[2];
    double tol[2];
    for(int k = 0; k<2; k++)
    {
        double du = g.f(-0.5f, 0.5f), dv = g.f(-0.5f, 0.5f);
        D3 Q = P+dpdu*du+dpdv*dv;
        D3 d(gen_dir(g));
        double c = fabs(d.dot(n));
        if(c<0.1)
            g.discard();
        double t = g.logf(0.1f, 30.f);
        D3 o = Q-d*t;
        // orthographic and perspective neighbours alike
        ray[k] = Ray(Point3((float)o.x, (float)o.y, (float)o.z), Vec3((float)d.x, (float)d.y, (float)d.z));
        want[k] = D3(du, dv, 0);
        double e = 3e-6*(t+P.maxabs()+Q.maxabs()+1)/c;
        tol[k] = 1e-4+e*(1/lu+1/lv)/sin(skew)*3;
    }
    HitPoint before = h;
    calculate_differentials(&h, &ray[0], &ray[1]);
    D3 cr = dpdu.cross(dpdv);
    double det = cr.maxabs();
    if(det<1e-4)
    {
        if(!h.differentials)
            return;
    }
    else
        CHECK(h.differentials, "no footprint although the derivatives ", dpdu, " ", dpdv, " span the surface");
    g.nontrivial();
    double extra = 3e-6*lu*lv/det*8;
    CHECK(pbt::near(h.du.x, want[0].x, tol[0]+extra) && pbt::near(h.dv.x, want[0].y, tol[0]+extra), "along x: du ", h.du.x, " dv ",
          h.dv.x, " expected ", want[0].x, " ", want[0].y);
    CHECK(pbt::near(h.du.y, want[1].x, tol[1]+extra) && pbt::near(h.dv.y, want[1].y, tol[1]+extra), "along y: du ", h.du.y, " dv ",
          h.dv.y, " expected ", want[1].x, " ", want[1].y);
    CHECK(h.point_h == before.point_h && h.normal_h == before.normal_h && h.uv == before.uv &&
          memcmp(&h.dpdu, &before.dpdu, sizeof(Vec3)) == 0 && memcmp(&h.dpdv, &before.dpdv, sizeof(Vec3)) == 0,
          "the rest of the record changed");
}
// on a placed flat triangle the footprint is the difference of the coordinates hit by the neighbouring rays
PROP(neighbours, 400000, 6000000, "all three rays hit the triangle and a footprint was reported")
{
    Vertex v[3];
    D3 pos[3];
    for(int k = 0; k<3; k++)
    {
        pos[k] = D3(g.f(-2, 2), g.f(-2, 2), g.f(-2, 2));
        v[k].p = Point3((float)pos[k].x, (float)pos[k].y, (float)pos[k].z);
        v[k].t = Point2(g.f(0.f, 3.f), g.f(0.f, 3.f));
    }
    D3 gn = (pos[1]-pos[0]).cross(pos[2]-pos[0]);
    double size = std::max((pos[1]-pos[0]).len(), std::max((pos[2]-pos[0]).len(), (pos[1]-pos[2]).len()));
    if(gn.len()<0.1*size*size || size<0.5)
        g.discard();
    gn = gn.norm();
    double t0x = v[1].t.x-v[0].t.x, t0y = v[1].t.y-v[0].t.y, t1x = v[2].t.x-v[0].t.x, t1y = v[2].t.y-v[0].t.y;
    double det = t0x*t1y-t0y*t1x;
    if(fabs(det)<0.05)
        g.discard();
    for(int k = 0; k<3; k++)
        v[k].n = Normal((float)gn.x, (float)gn.y, (float)gn.z);
    Placement p = gen_placement(g, 0.4f, 3.f, 10.f);
    Matrix4 mm = p.m();
    DM m(mm);
    Mesh mesh(1);
    mesh.add_triangle(&v[0], &v[1], &v[2]);
    mesh.finalize();
    Asset a(&mesh, mm, 1);
    D3 dir = (D3(gen_dir(g))*0.7+gn*(g.b()?1:-1)).norm();
    D3 eye = (pos[0]+pos[1]+pos[2])*(1/3.0)-dir*4.0;
    HitPoint h[3];
    Ray r[3];
    for(int k = 0; k<3; k++)
    {
        double a0 = 0.1+0.7*g.d01(), a1 = (1-a0)*(0.1+0.7*g.d01());
        D3 q = m.point(pos[0]*(1-a0-a1)+pos[1]*a0+pos[2]*a1);
        D3 e = m.point(eye), d = (q-e).norm();
        r[k] = Ray(Point3((float)e.x, (float)e.y, (float)e.z), Vec3((float)d.x, (float)d.y, (float)d.z));
        h[k] = blank();
        float dist = FLT_MAX;
        if(!a.intersect(&r[k], &dist, &h[k]))
            g.discard();
        if(fabs(D3(h[k].normal_h).dot(d))<0.1)
            g.discard();
    }
    HitPoint hh = h[0];
    calculate_differentials(&hh, &r[1], &r[2]);
    if(!hh.differentials)
        return;
    g.nontrivial();
    CHECK(pbt::near(hh.du.x, h[1].uv.x-h[0].uv.x, 1e-2) && pbt::near(hh.dv.x, h[1].uv.y-h[0].uv.y, 1e-2), "along x ", hh.du.x, " ",
          hh.dv.x, " expected ", h[1].uv.x-h[0].uv.x, " ", h[1].uv.y-h[0].uv.y);
    CHECK(pbt::near(hh.du.y, h[2].uv.x-h[0].uv.x, 1e-2) && pbt::near(hh.dv.y, h[2].uv.y-h[0].uv.y, 1e-2), "along y ", hh.du.y, " ",
          hh.dv.y, " expected ", h[2].uv.x-h[0].uv.x, " ", h[2].uv.y-h[0].uv.y);
}
