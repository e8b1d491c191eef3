// flavours: rgb fast
// F03: rays of the cameras
#include "common.hpp"
#include "cameras/camera360.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera_perspective.hpp"
#include <memory>

namespace
{
struct Setup
{
    int kind, w, h;
    Point3 pos, target;
    Vec3 up;
    float fov;
    D3 x, y, z;
    std::unique_ptr<Camera> cam;
    double sx, sy; // half extents of the screen
};
void gen(pbt::Gen& g, Setup& s)
{
    s.kind = (int)g.draw(2);
    s.w = g.pick({1, 2, 3, 16, 640, 800, 4096, 0});
    s.h = g.pick({1, 2, 3, 16, 480, 600, 2160, 0});
    if(!s.w)
        s.w = (int)g.size(1, 5000);
    if(!s.h)
        s.h = (int)g.size(1, 5000);
    s.fov = g.b()?g.f(0.05f, 3.0f):g.pick({0.5235988f, 0.9599311f, 1.5707963f, 0.7853982f});
    float span = g.pick({1.f, 10.f, 1000.f});
    s.pos = g.p(1, 4)?Point3(0, 0, 0):Point3(g.f(-span, span), g.f(-span, span), g.f(-span, span));
    float d[3];
    g.dir(d, d+1, d+2);
    float len = g.logf(0.1f, 100.f);
    s.target = Point3(s.pos.x+d[0]*len, s.pos.y+d[1]*len, s.pos.z+d[2]*len);
    float u[3];
    g.dir(u, u+1, u+2);
    s.up = Vec3(u[0], u[1], u[2]);
    if(!s.up.is_normalized())
        s.up.normalize();
    D3 dir = D3(s.target)-D3(s.pos), up(s.up);
    // the up direction must not be the view direction
    if(dir.norm().cross(up).len()<0.05 || dir.len()<0.05)
        g.discard();
    s.z = dir.norm();
    s.x = up.cross(s.z).norm();
    s.y = s.z.cross(s.x);
    double aspect = (double)s.w/s.h;
    s.sx = aspect>1?aspect:1;
    s.sy = aspect>1?1:1/aspect;
    switch(s.kind)
    {
        case 0: s.cam.reset(new CameraPerspective(&s.pos, &s.target, &s.up, s.w, s.h, s.fov)); break;
        case 1: s.cam.reset(new CameraOrthographic(&s.pos, &s.target, &s.up, s.w, s.h)); break;
        default: s.cam.reset(new Camera360(&s.pos, &s.target, &s.up, s.w, s.h)); break;
    }
    const char* n[] = {"perspective", "orthographic", "panorama"};
    g.note(n[s.kind], " ", s.w, "x", s.h, " fov ", s.fov, " at ", s.pos, " towards ", s.target, " up ", s.up);
    g.label(n[s.kind]);
}
D3 world(const Setup& s, const D3& v)
{
    return s.x*v.x+s.y*v.y+s.z*v.z;
}
// the ray of the projection
void expected(const Setup& s, double px, double py, D3* o, D3* d)
{
    double x = (2*px/s.w-1)*s.sx, y = (1-2*py/s.h)*s.sy;
    *o = D3(s.pos);
    if(s.kind == 0)
    {
        double t = std::tan(s.fov*0.5);
        *d = world(s, D3(x*t, y*t, 1).norm());
    }
    else if(s.kind == 1)
    {
        *o = *o+world(s, D3(x, y, 0));
        *d = s.z;
    }
    else
    {
        double th = M_PI*py/s.h, ph = 2*M_PI*px/s.w;
        *d = world(s, D3(std::sin(th)*std::cos(ph), std::cos(th), std::sin(th)*std::sin(ph)));
    }
}
void near_ray(const Setup& s, const Ray& r, double px, double py, const char* what, double slack = 0)
{
    D3 o, d;
    expected(s, px, py, &o, &d);
    double span = D3(s.pos).maxabs()+s.sx+s.sy;
    // the view direction suffers from the cancellation target-pos
    double frame = 1.5e-5+3e-7*span/(D3(s.target)-D3(s.pos)).len()*20;
    double dt = frame+slack;
    if(s.kind == 0) // rounding of the position on an elongated screen
    {
        double t = std::tan(s.fov*0.5), x = (2*px/s.w-1)*s.sx*t, y = (1-2*py/s.h)*s.sy*t;
        dt += 5e-7*std::max(s.sx, s.sy)*t/std::sqrt(1+x*x+y*y);
    }
    CHECK(near3(D3(r.origin), o, 1e-6*span+frame*(s.kind == 1?s.sx+s.sy:0)), what, " of (", px, ", ", py, ") starts at ", r.origin, " instead of ", o);
    CHECK(near3(D3(r.direction), d, dt), what, " of (", px, ", ", py, ") points to ", r.direction, " instead of ", d);
    CHECK(pbt::near(D3(r.direction).len(), 1, 3e-5), what, " has a direction of length ", D3(r.direction).len());
}
Sample gen_sample(pbt::Gen& g, const Setup& s)
{
    Sample p;
    p.posx = g.pick({0.f, (float)s.w, (float)s.w*0.5f, 0.5f, -1.f});
    p.posy = g.pick({0.f, (float)s.h, (float)s.h*0.5f, 0.5f, -1.f});
    if(p.posx<0)
        p.posx = g.f(0, (float)s.w);
    if(p.posy<0)
        p.posy = g.f(0, (float)s.h);
    return p;
}
}

PROP(rays, 400000, 8000000, "cameras of every kind anywhere, images of 1x1 to 5000x5000, positions inside the image, on its borders, in its centre; non-trivial: off the centre of the image")
{
    Setup s;
    gen(g, s);
    for(int k = 0; k<3; k++)
    {
        Sample p = gen_sample(g, s);
        g.nontrivial(p.posx*2 != s.w || p.posy*2 != s.h);
        Ray r;
        s.cam->create_ray(&p, &r);
        near_ray(s, r, p.posx, p.posy, "ray");
    }
}

PROP(differentials, 300000, 6000000, "a ray and the rays of its neighbours to the right and below; non-trivial: images of more than 2 by 2 pixels")
{
    Setup s;
    gen(g, s);
    Sample p = gen_sample(g, s);
    g.nontrivial(s.w>2 && s.h>2);
    Ray r, rx, ry;
    s.cam->create_ray(&p, &r, &rx, &ry);
    near_ray(s, r, p.posx, p.posy, "ray");
    near_ray(s, rx, p.posx+1., p.posy, "differential ray in x");
    near_ray(s, ry, p.posx, p.posy+1., "differential ray in y");
    // the difference itself is what texture filtering uses
    D3 o, d, o1, d1;
    expected(s, p.posx, p.posy, &o, &d);
    Ray n[2] = {rx, ry};
    for(int k = 0; k<2; k++)
    {
        expected(s, p.posx+(k == 0), p.posy+(k == 1), &o1, &d1);
        D3 want = s.kind == 1?o1-o:d1-d, got = s.kind == 1?D3(n[k].origin)-D3(r.origin):D3(n[k].direction)-D3(r.direction);
        double noise = s.kind == 1?1e-6*(D3(s.pos).maxabs()+s.sx+s.sy):1.5e-5+(s.kind == 0?2e-6*std::max(s.sx, s.sy)*std::tan(s.fov*0.5):0);
        CHECK((want-got).len()<=noise+0.02*want.len()+4e-5*want.len()*(D3(s.pos).maxabs()/(D3(s.target)-D3(s.pos)).len()), "differential in ", k?"y":"x", " is ", got, " instead of ", want);
    }
}

PROP(coverage, 20000, 400000, "what the corners and borders of the image see: the shorter side spans the field of view, the panorama closes; non-trivial: every case")
{
    Setup s;
    gen(g, s);
    g.nontrivial();
    double span = D3(s.pos).maxabs();
    double tol = 4e-5+6e-6*span/(D3(s.target)-D3(s.pos)).len();
    if(s.kind == 0)
        tol += 1e-6*std::max(s.sx, s.sy)*std::tan(s.fov*0.5);
    auto at = [&](double x, double y)
    {
        Sample p;
        p.posx = (float)x;
        p.posy = (float)y;
        Ray r;
        s.cam->create_ray(&p, &r);
        return r;
    };
    Ray c = at(s.w*0.5, s.h*0.5), l = at(0, s.h*0.5), r = at(s.w, s.h*0.5), t = at(s.w*0.5, 0), b = at(s.w*0.5, s.h);
    auto angle = [](const Ray& x, const Ray& y) { return std::atan2(D3(x.direction).cross(D3(y.direction)).len(), D3(x.direction).dot(D3(y.direction))); };
    if(s.kind == 0)
    {
        double a = s.w>s.h?angle(t, b):angle(l, r);
        CHECK(pbt::near(a, s.fov, 10*tol), "the shorter side spans ", a, " instead of ", s.fov);
        CHECK(near3(D3(c.direction), s.z, tol), "the centre looks to ", c.direction, " instead of ", s.z);
        CHECK(D3(t.direction).dot(s.y)>D3(b.direction).dot(s.y), "the first row is not the upper one");
    }
    else if(s.kind == 1)
    {
        double want = s.w>s.h?(D3(t.origin)-D3(b.origin)).len():(D3(l.origin)-D3(r.origin)).len();
        CHECK(pbt::near(want, 2, 1e-4+2e-6*(span+s.sx+s.sy)), "the shorter side is ", want, " long instead of 2");
        CHECK(near3(D3(l.direction), D3(r.direction), 1e-6), "rays are not parallel");
    }
    else
    {
        CHECK(near3(D3(l.direction), D3(r.direction), 1e-5), "left and right border see ", l.direction, " and ", r.direction);
        CHECK(near3(D3(t.direction), s.y, tol) && near3(D3(b.direction), -s.y, tol), "first and last row see ", t.direction, " and ", b.direction);
    }
}
