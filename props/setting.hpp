// a point on a surface with a straight or tilted shading frame, and a texture
#pragma once
#include "common.hpp"
#include "materials/shading_space.hpp"
#include "primitives/hit_point.hpp"
#include "textures/texture.hpp"
namespace
{
struct Tint : public Texture
{
    float k;
    explicit Tint(float f) : k(f) { }
    Spectrum map(const HitPoint* h) const override { return Spectrum(k+h->uv.x); }
};
struct Setting
{
    HitPoint h;
    ShadingSpace m;
    D3 s, t, n, gn; // the frame in double precision
};
void gen_setting(pbt::Gen& g, Setting& q, double tilt)
{
    Vec3 n = gen_dir(g), u = gen_dir(g);
    D3 gn = D3(n).norm(), d = D3(u)-gn*gn.dot(D3(u));
    if(d.len()<1e-2)
        d = std::fabs(gn.x)<0.6?D3(1, 0, 0)-gn*gn.x:D3(0, 1, 0)-gn*gn.y;
    d = d.norm();
    D3 sn = gn;
    if(tilt>0)
        sn = (gn*std::cos(tilt)+d*std::sin(tilt)*std::cos(1.)+gn.cross(d)*std::sin(tilt)*std::sin(1.)).norm();
    q.gn = gn;
    q.n = sn;
    q.s = (d-sn*sn.dot(d)).norm();
    q.t = sn.cross(q.s);
    q.h.point_h = Point3(0, 0, 0);
    q.h.normal_h = Normal((float)gn.x, (float)gn.y, (float)gn.z);
    q.h.dpdu = Vec3((float)d.x, (float)d.y, (float)d.z);
    D3 dv = gn.cross(d);
    q.h.dpdv = Vec3((float)dv.x, (float)dv.y, (float)dv.z);
    q.h.uv = Point2(g.unit_plain(), g.unit_plain());
    q.h.asset_h = nullptr;
    q.h.index = 0;
    q.h.du = Vec2(0, 0);
    q.h.dv = Vec2(0, 0);
    q.m.n = Normal((float)sn.x, (float)sn.y, (float)sn.z);
    q.m.s = Vec3((float)q.s.x, (float)q.s.y, (float)q.s.z);
    q.m.t = Vec3((float)q.t.x, (float)q.t.y, (float)q.t.z);
}
D3 to_s(const Setting& q, const D3& w) { return D3(w.dot(q.s), w.dot(q.t), w.dot(q.n)); }
D3 to_w(const Setting& q, const D3& w) { return q.s*w.x+q.t*w.y+q.n*w.z; }
Vec3 v3(const D3& d) { return Vec3((float)d.x, (float)d.y, (float)d.z); }
// a direction clearly on one side of both the surface and the frame
bool gen_side(pbt::Gen& g, const Setting& q, Vec3* out)
{
    *out = gen_dir(g);
    D3 w = D3(*out).norm();
    *out = v3(w);
    return std::fabs(w.dot(q.gn))>0.01 && std::fabs(w.dot(q.n))>0.01;
}
}
