// Microfacet distributions with their published formulas in double precision.
#ifndef VERIF_FACETS_HPP
#define VERIF_FACETS_HPP
#include "common.hpp"
#include "materials/microfacet_distributions.hpp"
#include <memory>

namespace
{
const double PI = 3.14159265358979323846;
enum Kind { BLINN, BECKMANN, GGX, ANISO };
struct Dist
{
    Kind kind;
    double ax, ay, e; // parameters of the formulas
    std::unique_ptr<MicrofacetDist> d;
};
Vec3 polar(double z, double ph)
{
    double s = std::sqrt(std::max(0., 1-z*z));
    double x = s*std::cos(ph), y = s*std::sin(ph);
    // no residues of pi/2: their squares underflow
    return Vec3(std::fabs(x)<1e-9?0:(float)x, std::fabs(y)<1e-9?0:(float)y, (float)z);
}
// published densities of facets, all with respect to the same direction
double tan2(const Vec3& h) { return ((double)h.x*h.x+(double)h.y*h.y)/((double)h.z*h.z); }
double D_of(const Dist& d, const Vec3& h)
{
    double c = std::fabs((double)h.z), t2 = tan2(h), c4 = c*c*c*c;
    switch(d.kind)
    {
        case BLINN: return (d.e+2)/(2*PI)*std::pow(c, d.e);
        case BECKMANN: return std::exp(-t2/(d.ax*d.ax))/(PI*d.ax*d.ax*c4);
        case GGX: return d.ax*d.ax/(PI*c4*std::pow(d.ax*d.ax+t2, 2));
        default:
        {
            double q = 1+((double)h.x*h.x/(d.ax*d.ax)+(double)h.y*h.y/(d.ay*d.ay))/((double)h.z*h.z);
            return 1/(PI*d.ax*d.ay*c4*q*q);
        }
    }
}
double walter(double c) { return c>=1.6?1:(3.535*c+2.181*c*c)/(1+2.276*c+2.577*c*c); }
double lambda(const Dist& d, const Vec3& v)
{
    double a2 = ((double)v.x*v.x*d.ax*d.ax+(double)v.y*v.y*d.ay*d.ay)/((double)v.z*v.z);
    return 0.5*(std::sqrt(1+a2)-1);
}
double G1_of(const Dist& d, const Vec3& v)
{
    double t = std::sqrt(tan2(v));
    switch(d.kind)
    {
        case BLINN: return t == 0?1:walter(std::sqrt(0.5*d.e+1)/t);
        case BECKMANN: return t == 0?1:walter(1/(d.ax*t));
        case GGX: return 2/(1+std::sqrt(1+d.ax*d.ax*t*t));
        default: return 1/(1+lambda(d, v));
    }
}
double G_of(const Dist& d, const Vec3& a, const Vec3& b)
{
    return d.kind == ANISO?1/(1+lambda(d, a)+lambda(d, b)):G1_of(d, a)*G1_of(d, b);
}
// what the tests of the repository pin instead (see known_findings.txt)
double D_listed(const Dist& d, const Vec3& h)
{
    if(d.kind == BECKMANN)
    {
        double c2 = (double)h.z*h.z;
        return std::exp(-2*tan2(h)/(d.ax*d.ax))/(PI*d.ax*d.ax*c2*c2);
    }
    if(d.kind == ANISO)
        return 1;
    return D_of(d, h);
}
double ggx_g1_listed(const Dist& d, const Vec3& v)
{
    double c2 = (double)v.z*v.z;
    return 2/(1+std::sqrt(1+d.ax*d.ax*(1-c2*c2)/c2));
}
float gen_rough(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: return g.pick({1.f, 0.5f, 0.2f, 0.1f, 0.001f});
        case 1: return g.logf(0.001f, 0.05f);
        default: return g.f(0.05f, 1.f);
    }
}
void build(pbt::Gen& g, Dist& d, float smallest = 0.001f)
{
    d.kind = (Kind)g.draw(3);
    float a = std::max(smallest, gen_rough(g));
    d.ax = d.ay = a;
    d.e = 0;
    switch(d.kind)
    {
        case BLINN:
        {
            float e = g.b()?2.f/(a*a)-2:g.f(0, 2000);
            if(e>100000.f)
                e = g.b()?e:100000.f;
            d.d.reset(new Blinn(e));
            d.e = std::min(100000.f, std::max(0.f, e));
            g.note("Blinn ", e);
            g.label("blinn");
            break;
        }
        case BECKMANN:
            d.d.reset(new Beckmann(a));
            g.note("Beckmann ", a);
            g.label("beckmann");
            break;
        case GGX:
            d.d.reset(new GGXiso(a));
            g.note("GGX ", a);
            g.label("ggx");
            break;
        default:
        {
            float b = std::max(smallest, gen_rough(g));
            d.d.reset(new GGXaniso(a, b));
            d.ay = b;
            g.note("anisotropic GGX ", a, " ", b);
            g.label("aniso");
        }
    }
}
}
#endif
