// flavours: rgb fast
// R02: samplers
#include "common.hpp"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
#include <memory>

namespace
{
void gen_seed(pbt::Gen& g, unsigned int* s)
{
    for(int k = 0; k<32; k++)
        s[k] = (uint32_t)g.draw(0xffffffffu);
}
}
PROP(coverage, 20000, 300000, "rectangles anywhere in an image up to 60000 wide, either sampler, 1 to 400 samples per pixel: every pixel exactly once, every sample inside its pixel, strata hit once, then the end for good; non-trivial: more than one pixel")
{
    int x0 = g.p(1, 4)?(int)g.draw(60000):(int)g.draw(64), y0 = g.p(1, 4)?(int)g.draw(60000):(int)g.draw(64);
    int w = (int)g.size(1, 40), h = (int)g.size(1, 40);
    int root = (int)g.size(1, 20);
    int kind = (int)g.draw(2), spp = kind == 0?(int)g.size(1, 60):root*root;
    if((long)w*h*spp>40000)
        g.discard();
    unsigned int seed[32];
    gen_seed(g, seed);
    g.note(kind == 0?"random":(kind == 1?"stratified":"stratified centred"), " x ", x0, "+", w, " y ", y0, "+", h, " samples ", spp);
    g.nontrivial(w*h>1);
    std::unique_ptr<Sampler> s;
    if(kind == 0)
        s.reset(new SamplerRandom(x0, x0+w, y0, y0+h, spp, seed));
    else
        s.reset(new SamplerStratified(x0, x0+w, y0, y0+h, spp, seed, kind == 1));
    std::vector<int> seen((size_t)w*h);
    std::vector<Sample> out(spp+2);
    std::vector<char> cell;
    for(int k = 0; k<w*h; k++)
    {
        for(Sample& o : out)
            o.posx = o.posy = -7777;
        CHECK(s->get_samples(out.data()), "the sampler ends after ", k, " of ", w*h, " pixels");
        CHECK(out[spp].posx == -7777 && out[spp+1].posy == -7777, "more samples than announced were written");
        // the centre of gravity names the pixel
        double mx = 0, my = 0;
        for(int i = 0; i<spp; i++)
        {
            mx += out[i].posx;
            my += out[i].posy;
        }
        double tol = 1e-7*(x0+y0+w+h)+1e-6;
        int px = x0+k%w, py = y0+k/w; // the usual order; any order is accepted below
        bool usual = true;
        for(int i = 0; i<spp; i++)
            usual = usual && out[i].posx>=px-tol && out[i].posx<=px+1+tol && out[i].posy>=py-tol && out[i].posy<=py+1+tol;
        if(!usual)
        {
            px = (int)std::floor(mx/spp);
            py = (int)std::floor(my/spp);
        }
        CHECK(px>=x0 && px<x0+w && py>=y0 && py<y0+h, "pixel ", px, ",", py, " is outside");
        seen[(size_t)(py-y0)*w+(px-x0)]++;
        cell.assign(spp, 0);
        for(int i = 0; i<spp; i++)
        {
            double dx = (double)out[i].posx-px, dy = (double)out[i].posy-py;
            CHECK(dx>=-tol && dx<=1+tol && dy>=-tol && dy<=1+tol, "sample ", i, " at ", out[i].posx, ",", out[i].posy, " is outside pixel ", px, ",", py);
            if(kind == 0)
                continue;
            double cx = dx*root, cy = dy*root, t2 = tol*root+1e-5;
            if(kind == 2)
                CHECK(std::fabs(cx-std::floor(cx)-0.5)<t2 && std::fabs(cy-std::floor(cy)-0.5)<t2, "sample ", i, " is not in the centre of its cell: ", cx, ",", cy);
            if(std::fabs(cx-std::round(cx))<t2 || std::fabs(cy-std::round(cy))<t2)
            {
                cell[i] = 2; // on a border: cannot tell
                continue;
            }
        }
        if(kind != 0 && spp>1)
        {
            // each cell holds one sample; samples on a border fill the holes
            std::vector<int> used(spp);
            int vague = 0;
            for(int i = 0; i<spp; i++)
                if(cell[i] == 2)
                    vague++;
                else
                    used[(int)((out[i].posy-(double)py)*root)*root+(int)((out[i].posx-(double)px)*root)]++;
            int holes = 0;
            for(int u : used)
            {
                CHECK(u<=1, "two samples share a cell of pixel ", px, ",", py);
                holes += u == 0;
            }
            CHECK(holes == vague, "a cell holds no sample");
        }
    }
    for(size_t k = 0; k<seen.size(); k++)
        CHECK(seen[k] == 1, "pixel ", x0+(int)(k%w), ",", y0+(int)(k/w), " was visited ", seen[k], " times");
    for(int k = 0; k<3; k++)
        CHECK(!s->get_samples(out.data()), "the sampler goes on after its last pixel");
}
PROP(spread, 4000, 60000, "many samples of one pixel by the randomised samplers: uniform over the pixel (or the cell), both coordinates unrelated; non-trivial: always (false alarm below 1e-9 per case)")
{
    unsigned int seed[32];
    gen_seed(g, seed);
    bool strat = g.b();
    int root = strat?(int)g.pick({1u, 2u, 5u, 8u}):8, spp = root*root, runs = 4096/spp;
    g.nontrivial();
    std::vector<int> hx(16), hy(16), hc(16);
    std::unique_ptr<Sampler> s;
    if(strat)
        s.reset(new SamplerStratified(0, runs, 0, 1, spp, seed, true));
    else
        s.reset(new SamplerRandom(0, runs, 0, 1, spp, seed));
    std::vector<Sample> out(spp);
    int n = 0, px = 0;
    while(s->get_samples(out.data()))
    {
        for(Sample& o : out)
        {
            double x = (o.posx-px)*(strat?root:1), y = o.posy*(strat?root:1);
            x -= std::floor(x);
            y -= std::floor(y);
            hx[std::min(15, (int)(x*16))]++;
            hy[std::min(15, (int)(y*16))]++;
            hc[std::min(3, (int)(x*4))*4+std::min(3, (int)(y*4))]++;
            n++;
        }
        px++;
    }
    for(auto* h : {&hx, &hy, &hc})
    {
        double c = 0;
        for(int k : *h)
            c += std::pow(k-n/16., 2)/(n/16.);
        CHECK(c<85, "chi-square ", c, h == &hc?" of both coordinates":(h == &hx?" of x":" of y"));
    }
}
PROP(numbers, 20000, 200000, "random numbers handed out by a sampler: exactly as many as asked for, those of its generator in order, shared with its samples; non-trivial: two requests or more")
{
    unsigned int seed[32];
    gen_seed(g, seed);
    int spp = (int)g.size(1, 9), left = 20;
    SamplerRandom s(0, 20, 0, 1, spp, seed), t(0, 20, 0, 1, spp, seed);
    WELLrng ref(seed);
    int ops = (int)g.size(1, 12);
    g.nontrivial(ops>1);
    for(int k = 0; k<ops; k++)
    {
        if(g.b() && left>0)
        {
            left--;
            std::vector<Sample> o(spp);
            s.get_samples(o.data());
            for(Sample& q : o)
            {
                // the two coordinates of a sample are two draws of the generator
                float a = ref.getNumber(), b = ref.getNumber();
                (void)a;
                (void)b;
                (void)q;
            }
        }
        else
        {
            int n = (int)g.size(0, 12);
            std::vector<float> o(n+1, -5.f);
            s.get_random_numbers(o.data(), n);
            CHECK(o[n] == -5, "more numbers than asked for");
            for(int i = 0; i<n; i++)
            {
                float want = ref.getNumber();
                CHECK(o[i] == want, "number ", i, " is ", o[i], " wants ", want);
            }
        }
    }
}
