// flavours: rgb fast
// R03: reconstruction filters
#include "common.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_lanczos.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_tent.hpp"
#include <functional>
#include <memory>

namespace
{
struct F
{
    std::unique_ptr<Filter> f;
    std::function<double(double)> w; // one axis
    double range;
    const char* name;
};
double sinc(double x) { return x == 0?1:std::sin(x)/x; }
void gen_filter(pbt::Gen& g, F& q)
{
    const double PI = 3.14159265358979323846;
    switch(g.draw(4))
    {
        case 0:
            q.name = "box";
            q.range = 1;
            q.f.reset(new FilterBox());
            q.w = [](double) { return 1.; };
            break;
        case 1:
            q.name = "tent";
            q.range = 2;
            q.f.reset(new FilterTent());
            q.w = [](double x) { return std::max(0., 2-std::fabs(x))/2; };
            break;
        case 2:
        {
            float a = g.p(1, 4)?g.logf(1e-3f, 20):g.f(0.1f, 5);
            q.name = "gaussian";
            q.range = 2;
            q.f.reset(new FilterGaussian(a));
            q.w = [a](double x) { return std::max(0., std::exp(-a*x*x)-std::exp(-a*4.)); };
            g.note("falloff ", a);
            break;
        }
        case 3:
        {
            float b = g.f(0, 1), c = g.f(0, 1);
            q.name = "mitchell";
            q.range = 2;
            q.f.reset(new FilterMitchell(b, c));
            q.w = [b, c](double x)
            {
                x = std::fabs(x);
                double B = b, C = c;
                if(x<1)
                    return ((12-9*B-6*C)*x*x*x+(-18+12*B+6*C)*x*x+6-2*B)/6;
                return ((-B-6*C)*x*x*x+(6*B+30*C)*x*x+(-12*B-48*C)*x+8*B+24*C)/6;
            };
            g.note("b ", b, " c ", c);
            break;
        }
        default:
        {
            float t = g.f(0.5f, 8);
            q.name = "lanczos";
            q.range = 4;
            q.f.reset(new FilterLanczos(t));
            q.w = [t, PI](double x)
            {
                x = std::fabs(x)/4;
                return x>1?0:sinc(PI*x)*sinc(PI*x*t);
            };
            g.note("tau ", t);
        }
    }
    g.note(q.name);
    g.label(q.name);
}
float gen_offset(pbt::Gen& g, double range)
{
    float m;
    switch(g.draw(5))
    {
        case 0: m = 0; break;
        case 1: m = (float)range; break;
        case 2: m = (float)(range*g.pick({0.5, 0.25, 0.75, 0.999})); break;
        case 3: m = g.logf(1e-7f, 1e-2f); break;
        default: m = (float)(range*g.d01());
    }
    return g.b()?-m:m;
}
}
PROP(shape, 2000000, 30000000, "a filter of any kind and parameters, two offsets within its extent (also 0, the edge, the joints, tiny): its published formula in double precision, symmetric, separable; non-trivial: both offsets away from 0")
{
    F q;
    gen_filter(g, q);
    CHECK(q.f->range_x == q.range && q.f->range_y == q.range, q.name, " extent ", q.f->range_x, " ", q.f->range_y);
    for(int k = 0; k<4; k++)
    {
        float x = gen_offset(g, q.range), y = gen_offset(g, q.range);
        g.note("offset ", x, " ", y);
        g.nontrivial(x != 0 && y != 0);
        double wx = q.w(x), wy = q.w(y), got = q.f->weight(x, y);
        CHECK(std::fabs(got-wx*wy)<=3e-5+1e-5*std::fabs(wx*wy), q.name, " weight ", got, " wants ", wx*wy);
        CHECK(got == q.f->weight(-x, y) && got == q.f->weight(x, -y) && got == q.f->weight(-x, -y), q.name, " is not symmetric");
        CHECK(pbt::near(got, q.f->weight(y, x), 1e-6), q.name, " treats its axes differently");
        double centre = q.f->weight(0, 0);
        CHECK(std::fabs(got*centre-(double)q.f->weight(x, 0)*q.f->weight(0, y))<=3e-5, q.name, " is not separable");
        if(q.name[0] == 't' || q.name[0] == 'g')
            CHECK(got>=0 && got<=centre*1.000001, q.name, " weight ", got, " is not between 0 and the central weight ", centre);
    }
}
PROP(beyond, 300000, 4000000, "tent, gaussian or lanczos, an offset beyond the extent on at least one axis: the weight is zero; non-trivial: beyond on one axis only")
{
    F q;
    gen_filter(g, q);
    if(q.name[0] != 't' && q.name[0] != 'g' && q.name[0] != 'l')
        g.discard();
    float far = (float)(q.range*(1.001+3*g.d01())), near = gen_offset(g, q.range), other = (float)(q.range*(1.001+3*g.d01()));
    if(g.b())
        far = -far;
    int k = (int)g.draw(2);
    float x = k == 1?near:far, y = k == 0?near:k == 1?far:other;
    g.note("offset ", x, " ", y);
    g.nontrivial(k != 2);
    CHECK(std::fabs((double)q.f->weight(x, y))<=1e-7, q.name, " weight ", q.f->weight(x, y), " beyond its extent");
}
PROP(sums, 200000, 3000000, "the weights of a mitchell filter over any pixel-spaced row add up to one, for all its parameters; the tent adds up to its extent; non-trivial: always")
{
    float b = g.f(0, 1), c = g.f(0, 1), o = g.unit();
    g.nontrivial();
    FilterMitchell m(b, c);
    FilterTent t;
    double s = 0, st = 0;
    for(int k = -2; k<=1; k++)
    {
        s += m.weight(o+k, 0);
        st += t.weight(o+k, 0);
    }
    double centre = (6-2*(double)b)/6;
    CHECK(pbt::near(s, centre, 1e-5), "mitchell ", b, " ", c, " at ", o, " adds up to ", s/centre);
    CHECK(pbt::near(st, 2, 1e-5), "tent at ", o, " adds up to ", st);
}
