// Shared generators and double precision reference arithmetic.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "pbt.hpp"
#include "geometry/matrix4.hpp"
#include "geometry/point2.hpp"
#include "geometry/point3.hpp"
#include "geometry/ray.hpp"
#include "geometry/vec2.hpp"
#include "geometry/vec3.hpp"
#include <array>

struct D3
{
    double x, y, z;
    D3() : x(0), y(0), z(0) { }
    D3(double a, double b, double c) : x(a), y(b), z(c) { }
    D3(const Vec3& v) : x(v.x), y(v.y), z(v.z) { }
    D3(const Normal& v) : x(v.x), y(v.y), z(v.z) { }
    D3(const Point3& v) : x(v.x), y(v.y), z(v.z) { }
    double& operator[](int k) { return k == 0?x:(k == 1?y:z); }
    double operator[](int k) const { return k == 0?x:(k == 1?y:z); }
    D3 operator+(const D3& o) const { return D3(x+o.x, y+o.y, z+o.z); }
    D3 operator-(const D3& o) const { return D3(x-o.x, y-o.y, z-o.z); }
    D3 operator*(double s) const { return D3(x*s, y*s, z*s); }
    D3 operator-() const { return D3(-x, -y, -z); }
    double dot(const D3& o) const { return x*o.x+y*o.y+z*o.z; }
    D3 cross(const D3& o) const
    {
        return D3(y*o.z-z*o.y, z*o.x-x*o.z, x*o.y-y*o.x);
    }
    double len() const { return std::sqrt(dot(*this)); }
    D3 norm() const { return *this*(1/len()); }
    double maxabs() const
    {
        return std::fmax(std::fabs(x), std::fmax(std::fabs(y), std::fabs(z)));
    }
};
inline std::ostream& operator<<(std::ostream& o, const D3& v)
{
    return o << "(" << v.x << ", " << v.y << ", " << v.z << ")";
}
inline std::ostream& operator<<(std::ostream& o, const Vec3& v) { return o << D3(v); }
inline std::ostream& operator<<(std::ostream& o, const Normal& v) { return o << D3(v); }
inline std::ostream& operator<<(std::ostream& o, const Point3& v) { return o << D3(v); }
inline std::ostream& operator<<(std::ostream& o, const Vec2& v) { return o << "(" << v.x << ", " << v.y << ")"; }
inline std::ostream& operator<<(std::ostream& o, const Point2& v) { return o << "(" << v.x << ", " << v.y << ")"; }
inline std::ostream& operator<<(std::ostream& o, const Ray& r)
{
    return o << "ray o=" << r.origin << " d=" << r.direction;
}

inline bool near3(const D3& a, const D3& b, double tol)
{
    return pbt::near(a.x, b.x, tol) && pbt::near(a.y, b.y, tol) && pbt::near(a.z, b.z, tol);
}

// a coordinate: usually moderate, sometimes tiny or large, never overflowing
inline float gen_coord(pbt::Gen& g, float big = 1e4f)
{
    switch(g.draw(5))
    {
        case 0: return (float)((int)g.draw(20)-10);
        case 1:
        {
            float m = g.logf(1e-4f, big);
            return g.b()?-m:m;
        }
        default: return g.f(-10.f, 10.f);
    }
}
inline Vec3 gen_vec(pbt::Gen& g, float big = 1e4f)
{
    float a = gen_coord(g, big), b = gen_coord(g, big), c = gen_coord(g, big);
    return Vec3(a, b, c);
}
inline Point3 gen_point(pbt::Gen& g, float big = 1e4f)
{
    float a = gen_coord(g, big), b = gen_coord(g, big), c = gen_coord(g, big);
    return Point3(a, b, c);
}
inline Vec3 gen_dir(pbt::Gen& g)
{
    float x, y, z;
    g.dir(&x, &y, &z);
    return Vec3(x, y, z);
}
// 4x4 reference matrix, row major, column vectors
struct DM
{
    double m[4][4];
    DM()
    {
        for(int i = 0; i<4; i++)
            for(int j = 0; j<4; j++)
                m[i][j] = i == j;
    }
    explicit DM(const Matrix4& a)
    {
        float v[16];
        a.to_array(v);
        for(int i = 0; i<16; i++)
            m[i/4][i%4] = v[i];
    }
    DM operator*(const DM& o) const
    {
        DM r;
        for(int i = 0; i<4; i++)
            for(int j = 0; j<4; j++)
            {
                r.m[i][j] = 0;
                for(int k = 0; k<4; k++)
                    r.m[i][j] += m[i][k]*o.m[k][j];
            }
        return r;
    }
    DM abs() const
    {
        DM r;
        for(int i = 0; i<4; i++)
            for(int j = 0; j<4; j++)
                r.m[i][j] = std::fabs(m[i][j]);
        return r;
    }
    D3 point(const D3& p) const
    {
        return D3(m[0][0]*p.x+m[0][1]*p.y+m[0][2]*p.z+m[0][3],
                  m[1][0]*p.x+m[1][1]*p.y+m[1][2]*p.z+m[1][3],
                  m[2][0]*p.x+m[2][1]*p.y+m[2][2]*p.z+m[2][3]);
    }
    D3 vec(const D3& p) const
    {
        return D3(m[0][0]*p.x+m[0][1]*p.y+m[0][2]*p.z,
                  m[1][0]*p.x+m[1][1]*p.y+m[1][2]*p.z,
                  m[2][0]*p.x+m[2][1]*p.y+m[2][2]*p.z);
    }
    D3 vec_transposed(const D3& p) const
    {
        return D3(m[0][0]*p.x+m[1][0]*p.y+m[2][0]*p.z,
                  m[0][1]*p.x+m[1][1]*p.y+m[2][1]*p.z,
                  m[0][2]*p.x+m[1][2]*p.y+m[2][2]*p.z);
    }
    // affine inverse (last row 0 0 0 1); false when singular
    bool affine_inverse(DM* out) const
    {
        D3 a(m[0][0], m[1][0], m[2][0]), b(m[0][1], m[1][1], m[2][1]), c(m[0][2], m[1][2], m[2][2]);
        double det = a.dot(b.cross(c));
        if(det == 0)
            return false;
        D3 r0 = b.cross(c)*(1/det), r1 = c.cross(a)*(1/det), r2 = a.cross(b)*(1/det);
        D3 t(m[0][3], m[1][3], m[2][3]);
        D3 rows[3] = {r0, r1, r2};
        *out = DM();
        for(int i = 0; i<3; i++)
        {
            for(int j = 0; j<3; j++)
                out->m[i][j] = rows[i][j];
            out->m[i][3] = -rows[i].dot(t);
        }
        return true;
    }
};
inline DM d_translate(const D3& t)
{
    DM r;
    for(int i = 0; i<3; i++)
        r.m[i][3] = t[i];
    return r;
}
inline DM d_scale(const D3& s)
{
    DM r;
    for(int i = 0; i<3; i++)
        r.m[i][i] = s[i];
    return r;
}
inline DM d_rot(int axis, double a)
{
    DM r;
    int i = (axis+1)%3, j = (axis+2)%3;
    r.m[i][i] = cos(a);
    r.m[i][j] = -sin(a);
    r.m[j][i] = sin(a);
    r.m[j][j] = cos(a);
    return r;
}
inline std::ostream& operator<<(std::ostream& o, const DM& a)
{
    o << "[";
    for(int i = 0; i<3; i++)
    {
        for(int j = 0; j<4; j++)
            o << a.m[i][j] << (j<3?" ":"");
        o << (i<2?"; ":"]");
    }
    return o;
}
// placement = translation * rz * ry * rx * scale (the order of the scene files)
struct Placement
{
    D3 scale, rot, pos; // rot in radians
    DM d() const
    {
        return d_translate(pos)*(d_rot(2, rot.z)*(d_rot(1, rot.y)*(d_rot(0, rot.x)*d_scale(scale))));
    }
    Matrix4 m() const
    {
        DM a = d();
        float v[16];
        for(int i = 0; i<16; i++)
            v[i] = (float)a.m[i/4][i%4];
        return Matrix4(v);
    }
};
inline std::ostream& operator<<(std::ostream& o, const Placement& p)
{
    return o << "scale " << p.scale << " rot " << p.rot << " pos " << p.pos;
}
inline Placement gen_placement(pbt::Gen& g, float smin = 0.05f, float smax = 20.f, float pmax = 50.f)
{
    Placement p;
    p.scale = D3(1, 1, 1);
    switch(g.draw(3))
    {
        case 0: break;
        case 1: p.scale = D3(1, 1, 1)*(double)g.logf(smin, smax);
            break;
        case 2: p.scale = D3(g.logf(smin, smax), g.logf(smin, smax), g.logf(smin, smax));
            break;
        case 3:
            p.scale = D3(g.logf(smin, smax), g.logf(smin, smax), g.logf(smin, smax));
            for(int k = 0; k<3; k++)
                if(g.p(1, 3))
                    p.scale[k] = -p.scale[k];
            break;
    }
    p.rot = D3(0, 0, 0);
    if(g.draw(2) != 0)
        for(int k = 0; k<3; k++)
            p.rot[k] = g.p(1, 3)?(double)((int)g.draw(8)-4)*0.78539816339:(g.d01()*2-1)*3.14159265;
    p.pos = D3(0, 0, 0);
    if(g.draw(2) != 0)
        p.pos = D3(g.f(-pmax, pmax), g.f(-pmax, pmax), g.f(-pmax, pmax));
    return p;
}
#endif
