// Reading films back through the saved picture, and developing colours in double precision.
#ifndef VERIF_FILM_HPP
#define VERIF_FILM_HPP
#include "common.hpp"
#include "cameras/image_film.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_lanczos.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_tent.hpp"
#include <memory>

namespace
{
struct Picture
{
    int w = 0, h = 0;
    std::vector<uint8_t> rgb;
    bool load_ppm(const std::string& path)
    {
        bool ok = false;
        std::string s = pbt::read_file(path, &ok);
        int max = 0, used = 0;
        if(!ok || std::sscanf(s.c_str(), "P6 %d %d %d%n", &w, &h, &max, &used)<3 || max != 255)
            return false;
        used++;
        if((long)s.size()-used != 3L*w*h)
            return false;
        rgb.assign(s.begin()+used, s.end());
        return true;
    }
};
inline double encode(double l) // linear to sRGB
{
    return l>0.0031308?1.055*std::pow(l, 1/2.4)-0.055:12.92*l;
}
inline double decode(double s)
{
    return s>0.04045?std::pow((s+0.055)/1.055, 2.4):s/12.92;
}
inline D3 xyz_to_linear(const D3& c)
{
    return D3(3.2404542*c.x-1.5371385*c.y-0.4985314*c.z, -0.9692660*c.x+1.8760108*c.y+0.0415560*c.z, 0.0556434*c.x-0.2040259*c.y+1.0572252*c.z);
}
inline D3 linear_to_xyz(const D3& c)
{
    return D3(0.4124564*c.x+0.3575761*c.y+0.1804375*c.z, 0.2126729*c.x+0.7151522*c.y+0.0721750*c.z, 0.0193339*c.x+0.1191920*c.y+0.9503041*c.z);
}
// is the byte the developed value, up to slack in the value and the way it is rounded
inline bool developed(int byte, double linear, double slack)
{
    double lo = encode(linear-slack), hi = encode(linear+slack);
    lo = std::min(1., std::max(0., lo))*255;
    hi = std::min(1., std::max(0., hi))*255;
    return byte>=lo-1.01 && byte<=hi+0.51;
}
inline ColorXYZ colour(const D3& xyz) { return ColorXYZ((float)xyz.x, (float)xyz.y, (float)xyz.z); }
inline std::unique_ptr<Filter> gen_film_filter(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: g.note("box"); return std::unique_ptr<Filter>(new FilterBox());
        case 1: g.note("tent"); return std::unique_ptr<Filter>(new FilterTent());
        case 2:
        {
            float a = g.f(0.1f, 3);
            g.note("gaussian ", a);
            return std::unique_ptr<Filter>(new FilterGaussian(a));
        }
        case 3:
        {
            float b = g.f(0, 1), c = g.f(0, 1);
            g.note("mitchell ", b, " ", c);
            return std::unique_ptr<Filter>(new FilterMitchell(b, c));
        }
        default:
        {
            float t = g.f(0.5f, 4);
            g.note("lanczos ", t);
            return std::unique_ptr<Filter>(new FilterLanczos(t));
        }
    }
}
// what every pixel should be
struct Mean
{
    int w, h;
    std::vector<D3> sum;
    std::vector<double> wt, mag, cm; // total weight, of its magnitude, magnitude of the colours
    std::vector<char> vague;        // a sample sits on the edge of the filter
    Mean(int W, int H) : w(W), h(H), sum((size_t)W*H), wt((size_t)W*H), mag((size_t)W*H), cm((size_t)W*H), vague((size_t)W*H) { }
    void add(const Filter* f, const Sample& s, const D3& col, double margin = 2e-4)
    {
        D3 c(std::max(0., col.x), std::max(0., col.y), std::max(0., col.z));
        double cx = (double)s.posx-0.5, cy = (double)s.posy-0.5, rx = f->range_x, ry = f->range_y;
        for(int y = std::max(0, (int)std::floor(cy-ry)-1); y<=std::min(h-1, (int)std::ceil(cy+ry)+1); y++)
            for(int x = std::max(0, (int)std::floor(cx-rx)-1); x<=std::min(w-1, (int)std::ceil(cx+rx)+1); x++)
            {
                double dx = x-cx, dy = y-cy;
                size_t k = (size_t)y*w+x;
                if(std::fabs(dx)>rx+margin/2 || std::fabs(dy)>ry+margin/2)
                    continue;
                double q = f->weight((float)dx, (float)dy);
                if(std::fabs(std::fabs(dx)-rx)<margin || std::fabs(std::fabs(dy)-ry)<margin)
                {
                    if(std::fabs(q)>1e-5)
                    {
                        vague[k] = 1;
                        continue;
                    }
                }
                sum[k] = sum[k]+c*q;
                wt[k] += q;
                mag[k] += std::fabs(q);
                cm[k] += std::fabs(q)*c.maxabs();
            }
    }
    void check(const Picture& p, int* judged, double extra = 0, double cond = 0.02)
    {
        CHECK(p.w == w && p.h == h, "the picture is ", p.w, "x", p.h);
        for(int y = 0; y<h; y++)
            for(int x = 0; x<w; x++)
            {
                size_t k = (size_t)y*w+x;
                if(vague[k])
                    continue;
                int b[3] = {p.rgb[3*k], p.rgb[3*k+1], p.rgb[3*k+2]};
                if(mag[k] == 0)
                {
                    CHECK(b[0]+b[1]+b[2] == 0, "pixel ", x, ",", y, " is ", b[0], " ", b[1], " ", b[2], " without any sample in reach");
                    continue;
                }
                if(wt[k]<cond*mag[k] || mag[k]<1e-3)
                    continue; // badly conditioned
                (*judged)++;
                D3 l = xyz_to_linear(sum[k]*(1/wt[k]));
                double slack = extra*cm[k]/wt[k]+3e-5*cm[k]/wt[k]+1e-6+4e-5*cm[k]/wt[k]*mag[k]/wt[k];
                for(int i = 0; i<3; i++)
                    CHECK(developed(b[i], l[i], slack), "pixel ", x, ",", y, " channel ", i, " is ", b[i], ", the weighted mean develops to ", 255*encode(l[i]), " (weight ", wt[k], ")");
            }
    }
};
inline D3 gen_colour(pbt::Gen& g)
{
    switch(g.draw(5))
    {
        case 0: return D3(0, 0, 0);
        case 1: return linear_to_xyz(D3(1, 1, 1));
        case 2: return linear_to_xyz(D3(g.d01(), 0, 0))+linear_to_xyz(D3(0, g.d01()*g.draw(1), g.d01()*g.draw(1)));
        case 3: return g.p(1, 3)?D3(4*g.d01()-1, 4*g.d01()-1, 4*g.d01()-1):D3(g.d01(), g.d01(), g.d01());
        default: return linear_to_xyz(D3(g.d01(), g.d01(), g.d01()));
    }
}
}
#endif
