#ifndef LAMP_HPP
#define LAMP_HPP
// area lights and what is known about them in double precision
#include "common.hpp"
#include "lights/area_light.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include <memory>
#include <vector>

struct Facet
{
    D3 p[3], n[3], flat; // world; flat: unit, on the side of the normals
    double area() const { return (p[1]-p[0]).cross(p[2]-p[0]).len()/2; }
};
struct Touch
{
    bool hit = false, vague = false;
    double t = 1e30;
    D3 flat, shade; // geometric and interpolated normal
    double stretch = 1; // world area over sampled area, ellipsoids
};
struct Lamp
{
    bool ball = false;
    std::vector<Facet> facets;
    DM m, inv;
    double area = 0, size = 0; // world, largest extent
    D3 centre;
    std::shared_ptr<Shape> shape;
    std::shared_ptr<AreaLight> light;
    Matrix4 matrix;
    std::vector<float> cd;
    void finish(const Spectrum& c)
    {
        light.reset(new AreaLight(shape.get(), matrix, c));
        cd.resize((size_t)shape->get_faces_number());
        shape->get_densities_array(&matrix, cd.data());
    }
    Touch touch(const D3& o, const D3& d) const
    {
        Touch best;
        auto offer = [&](double t, double clear, const D3& flat, const D3& shade, double stretch)
        {
            double band = 1e-3+1e-4*t;
            if(t<-band)
                return;
            if(std::fabs(t-0.01)<0.02 || (clear<2e-3 && clear>-2e-3))
            {
                if(t<best.t+band)
                    best.vague = true;
                if(clear<0)
                    return;
            }
            if(clear<0 || t<0.01)
                return;
            if(std::fabs(t-best.t)<band)
                best.vague = true;
            if(t<best.t)
            {
                best.t = t;
                best.hit = true;
                best.flat = flat;
                best.shade = shade;
                best.stretch = stretch;
            }
        };
        if(ball)
        {
            D3 lo = inv.point(o), ld = inv.vec(d);
            double A = ld.dot(ld), B = lo.dot(ld), C = lo.dot(lo)-1, gap = (lo-ld*(B/A)).len();
            if(gap>1)
            {
                best.vague = gap<1.005;
                return best;
            }
            double s = std::sqrt(std::max(0., B*B-A*C));
            for(double t : {(-B-s)/A, (-B+s)/A})
            {
                D3 q = lo+ld*t, n = inv.vec_transposed(q);
                D3 c0(m.m[0][0], m.m[1][0], m.m[2][0]), c1(m.m[0][1], m.m[1][1], m.m[2][1]), c2(m.m[0][2], m.m[1][2], m.m[2][2]);
                double det = std::fabs(c0.dot(c1.cross(c2)));
                offer(t, 1-gap, n.norm(), n.norm(), det*n.len()/q.len());
            }
            return best;
        }
        for(const Facet& f : facets)
        {
            D3 e1 = f.p[1]-f.p[0], e2 = f.p[2]-f.p[0], h = d.cross(e2);
            double det = e1.dot(h), a2 = e1.cross(e2).len();
            D3 s = o-f.p[0];
            if(std::fabs(det)<0.01*a2)
            {
                // nearly in the plane
                if(std::fabs(f.flat.dot(s))<0.03*(e1.len()+e2.len()+s.len()))
                    best.vague = true;
                continue;
            }
            double u = s.dot(h)/det, v = d.dot(s.cross(e1))/det, t = e2.dot(s.cross(e1))/det;
            D3 shade = f.n[0]*(1-u-v)+f.n[1]*u+f.n[2]*v;
            double rel = std::min(std::min(u, v), 1-u-v);
            offer(t, rel, f.flat, shade.len()>0?shade.norm():f.flat, 1);
        }
        return best;
    }
};
// one triangle or the two of a quad; tilt: normals lean away from the geometric ones
inline void add_facet(Mesh* mesh, Lamp& l, const D3 (&p)[3], bool flip, const D3& tilt)
{
    Vertex v[3];
    Facet f;
    D3 n = (p[1]-p[0]).cross(p[2]-p[0]).norm();
    if(flip)
        n = -n;
    DM back;
    l.m.affine_inverse(&back);
    for(int k = 0; k<3; k++)
    {
        D3 vn = (n+tilt*(k == 0?1.:k == 1?0.3:-0.6)).norm();
        v[k].p = Point3((float)p[k].x, (float)p[k].y, (float)p[k].z);
        v[k].n = Normal((float)vn.x, (float)vn.y, (float)vn.z);
        v[k].t = Point2((float)(k%2), (float)(k/2));
        f.p[k] = l.m.point(D3(v[k].p));
        f.n[k] = back.vec_transposed(D3(v[k].n));
    }
    f.flat = (f.p[1]-f.p[0]).cross(f.p[2]-f.p[0]).norm();
    D3 wn = back.vec_transposed(n);
    if(f.flat.dot(wn)<0)
        f.flat = -f.flat;
    l.facets.push_back(f);
    mesh->add_triangle(&v[0], &v[1], &v[2]);
}
enum LampKind { L_SPHERE, L_QUAD, L_BOX, L_SOUP, L_SMOOTH, L_KINDS };
inline Lamp gen_lamp(pbt::Gen& g, int kind, const Placement& where, const Spectrum& c)
{
    Lamp l;
    Placement pl = where;
    if(kind == L_SPHERE)
    {
        l.ball = true;
        l.shape.reset(new Sphere());
    }
    l.m = DM(pl.m());
    l.matrix = pl.m();
    l.m.affine_inverse(&l.inv);
    if(!l.ball)
    {
        Mesh* mesh;
        if(kind == L_QUAD)
        {
            mesh = new Mesh(2);
            bool flip = g.b();
            D3 q[4] = {D3(-0.5, -0.5, 0), D3(0.5, -0.5, 0), D3(0.5, 0.5, 0), D3(-0.5, 0.5, 0)};
            D3 a[3] = {q[0], q[1], q[2]}, b[3] = {q[0], q[2], q[3]};
            add_facet(mesh, l, a, flip, D3());
            add_facet(mesh, l, b, flip, D3());
        }
        else if(kind == L_BOX)
        {
            mesh = new Mesh(12);
            bool inward = g.p(1, 3);
            for(int axis = 0; axis<3; axis++)
                for(int side = -1; side<=1; side += 2)
                {
                    D3 q[4];
                    for(int k = 0; k<4; k++)
                    {
                        q[k][axis] = side*0.5;
                        q[k][(axis+1)%3] = k == 1 || k == 2?0.5:-0.5;
                        q[k][(axis+2)%3] = k>=2?0.5:-0.5;
                    }
                    bool flip = (side<0) != inward;
                    D3 a[3] = {q[0], q[1], q[2]}, b[3] = {q[0], q[2], q[3]};
                    add_facet(mesh, l, a, flip, D3());
                    add_facet(mesh, l, b, flip, D3());
                }
        }
        else
        {
            int n = (int)g.size(1, kind == L_SMOOTH?2:6);
            mesh = new Mesh((unsigned)n);
            for(int k = 0; k<n; k++)
            {
                D3 p[3];
                p[0] = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
                p[1] = p[0]+D3(g.f(0.3f, 1), g.f(-1, 1), g.f(-1, 1));
                p[2] = p[0]+D3(g.f(-1, -0.3f), g.f(-1, 1), g.f(-1, 1));
                if((p[1]-p[0]).cross(p[2]-p[0]).len()<0.2)
                    p[2] = p[0]+D3(-0.7, 0.6, 0.8);
                if((p[1]-p[0]).cross(p[2]-p[0]).len()<0.2)
                    p[2] = p[0]+D3(-0.7, -0.6, -0.8);
                D3 tilt = kind == L_SMOOTH?D3(g.f(-0.6f, 0.6f), g.f(-0.6f, 0.6f), g.f(-0.6f, 0.6f)):D3();
                add_facet(mesh, l, p, g.b(), tilt);
            }
        }
        mesh->finalize();
        l.shape.reset(mesh);
        for(const Facet& f : l.facets)
        {
            l.area += f.area();
            for(const D3& p : f.p)
                l.centre = l.centre+p*(1./(3*l.facets.size()));
        }
        for(const Facet& f : l.facets)
            for(const D3& p : f.p)
                l.size = std::max(l.size, (p-l.centre).len());
    }
    else
    {
        double r = std::fabs(where.scale.x);
        l.area = 4*M_PI*r*r;
        l.size = std::max(r, std::max(std::fabs(where.scale.y), std::fabs(where.scale.z)));
        l.centre = where.pos;
    }
    l.finish(c);
    return l;
}
// a piece of the surface
struct Patch
{
    D3 p, flat;
    double da, edge; // edge: longest side
};
inline std::vector<Patch> patches(const Lamp& l, int n)
{
    std::vector<Patch> v;
    if(l.ball)
    {
        for(int i = 0; i<2*n; i++)
            for(int k = 0; k<4*n; k++)
            {
                double z = (i+0.5)/n-1, ph = (k+0.5)*M_PI/(2*n), r = std::sqrt(1-z*z);
                D3 q(r*std::cos(ph), r*std::sin(ph), z);
                Patch a;
                a.p = l.m.point(q);
                a.flat = l.inv.vec_transposed(q).norm();
                a.da = l.area/(8*n*n);
                a.edge = l.size*M_PI/(2*n);
                v.push_back(a);
            }
        return v;
    }
    for(const Facet& f : l.facets)
    {
        D3 e1 = (f.p[1]-f.p[0])*(1./n), e2 = (f.p[2]-f.p[0])*(1./n);
        for(int i = 0; i<n; i++)
            for(int k = 0; i+k<n; k++)
                for(int up = 0; up<2; up++)
                {
                    if(up && i+k+1>=n)
                        continue;
                    Patch a;
                    a.p = f.p[0]+e1*(i+(up?2./3:1./3))+e2*(k+(up?2./3:1./3));
                    a.flat = f.flat;
                    a.da = f.area()/(n*n);
                    a.edge = std::max(std::max(e1.len(), e2.len()), (e1-e2).len());
                    v.push_back(a);
                }
    }
    return v;
}
inline double radical(unsigned i, unsigned base)
{
    double f = 1, r = 0;
    for(; i; i /= base)
    {
        f /= base;
        r += f*(i%base);
    }
    return r;
}
inline float below_one(double x)
{
    x -= std::floor(x);
    return std::min(std::max((float)x, 1e-6f), 1-1e-6f);
}
// AreaLight::sample_visible_surface keeps points that other parts of the light hide, moved to the part in front
inline bool hidden_points_kept()
{
    Sphere s;
    Matrix4 m;
    m.set_identity();
    AreaLight light(&s, m, SPECTRUM_ONE);
    Point3 pos(-0.560985684f, 0.542458057f, -1.82760262f);
    Vec3 wi;
    float pdf = 0, distance = 0;
    Spectrum v = light.sample_visible_surface(0.5f, 0.5f, &pos, &wi, &pdf, &distance);
    return !v.is_black() && std::fabs(pdf-0.80584)<1e-3;
}
#endif
