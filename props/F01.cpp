// flavours: rgb fast tsan
// F01: the film is the filter-weighted mean of the samples around each pixel
#include "film.hpp"
#include <atomic>
#include <thread>

namespace
{
struct Tile
{
    int x0, x1, y0, y1;
};
void split(pbt::Gen& g, const Tile& t, int depth, std::vector<Tile>& out)
{
    int w = t.x1-t.x0, h = t.y1-t.y0;
    if(depth == 0 || (w<2 && h<2) || g.p(1, 4))
    {
        out.push_back(t);
        return;
    }
    Tile a = t, b = t;
    if((g.b() || h<2) && w>=2)
        a.x1 = b.x0 = t.x0+(int)g.i(1, w-1);
    else
        a.y1 = b.y0 = t.y0+(int)g.i(1, h-1);
    split(g, a, depth-1, out);
    split(g, b, depth-1, out);
}
struct Drop
{
    Sample s;
    D3 c;
};
Drop gen_drop(pbt::Gen& g, const Tile& t)
{
    Drop d;
    auto pos = [&](int lo, int hi) -> float
    {
        switch(g.draw(4))
        {
            case 0: return (float)g.i(lo, hi);
            case 1: return (float)g.i(lo, hi-1)+0.5f;
            case 2: return std::min((float)hi, (float)g.i(lo, hi-1)+0.999f);
            default: return (float)(lo+(hi-lo)*g.d01());
        }
    };
    d.s.posx = pos(t.x0, t.x1);
    d.s.posy = pos(t.y0, t.y1);
    D3 c = gen_colour(g);
    d.c = D3((float)c.x, (float)c.y, (float)c.z);
    return d;
}
void area(ExecutorData& ex, const Tile& t)
{
    ex.startx = t.x0;
    ex.endx = t.x1;
    ex.starty = t.y0;
    ex.endy = t.y1;
}
}
PROP_CPU(mean, 60000, 900000, "an image up to 40x40 split into tiles, any filter, up to 200 coloured samples anywhere (also on the edges of pixels and tiles), in any order, handed over at any time; the saved picture against the weighted mean of the samples in reach of every pixel; non-trivial: 20 pixels or more were judged", 25)
{
    int w = (int)g.size(1, 40), h = (int)g.size(1, 40);
    std::unique_ptr<Filter> f = gen_film_filter(g);
    std::string path = pbt::scratch()+"/film.ppm";
    ImageFilm film(w, h, path.c_str());
    film.set_filter(f.get());
    std::vector<Tile> tiles;
    Tile all = {0, w, 0, h};
    split(g, all, (int)g.draw(4), tiles);
    g.note(w, "x", h, " in ", tiles.size(), " tiles");
    std::vector<ExecutorData> ex(tiles.size());
    Mean m(w, h);
    int n = (int)g.size(1, 200);
    bool shared = g.b(); // one record for all tiles, one after the other, or one each
    if(shared)
    {
        ExecutorData one;
        for(const Tile& t : tiles)
        {
            area(one, t);
            int k = (int)g.size(0, 1+n/(int)tiles.size());
            for(; k>0; k--)
            {
                Drop d = gen_drop(g, t);
                g.note("sample ", d.s.posx, ",", d.s.posy, " colour ", d.c);
                film.add_pixel(&d.s, colour(d.c), &one);
                m.add(f.get(), d.s, d.c);
            }
            if(g.b())
                film.add_pixel_deferred(&one);
        }
        film.add_pixel_forced(&one);
    }
    else
    {
        for(size_t k = 0; k<tiles.size(); k++)
            area(ex[k], tiles[k]);
        for(int k = 0; k<n; k++)
        {
            size_t t = g.draw(tiles.size()-1);
            Drop d = gen_drop(g, tiles[t]);
            g.note("sample ", d.s.posx, ",", d.s.posy, " colour ", d.c, " through tile ", t);
            film.add_pixel(&d.s, colour(d.c), &ex[t]);
            m.add(f.get(), d.s, d.c);
            if(g.p(1, 10))
                film.add_pixel_deferred(&ex[g.draw(ex.size()-1)]);
        }
        for(auto& e : ex)
            film.add_pixel_forced(&e);
    }
    CHECK(film.save_image(), "the picture was not saved");
    Picture p;
    CHECK(p.load_ppm(path), "the saved picture is not a picture");
    int judged = 0;
    m.check(p, &judged);
    g.nontrivial(judged>=20);
}
PROP_CPU(constant, 20000, 300000, "a film covered with samples of one colour: a picture of that colour wherever the total weight is positive; non-trivial: always", 25)
{
    int w = (int)g.size(1, 24), h = (int)g.size(1, 24), root = (int)g.i(1, 3);
    g.nontrivial();
    std::unique_ptr<Filter> f = gen_film_filter(g);
    std::string path = pbt::scratch()+"/film.ppm";
    ImageFilm film(w, h, path.c_str());
    film.set_filter(f.get());
    D3 c = linear_to_xyz(D3(g.d01(), g.d01(), g.d01()));
    ExecutorData ex;
    Tile all = {0, w, 0, h};
    area(ex, all);
    Mean m(w, h);
    for(int y = 0; y<h*root; y++)
        for(int x = 0; x<w*root; x++)
        {
            Sample s;
            s.posx = (float)((x+g.d01())/root);
            s.posy = (float)((y+g.d01())/root);
            film.add_pixel(&s, colour(c), &ex);
            m.add(f.get(), s, c);
        }
    film.add_pixel_forced(&ex);
    CHECK(film.save_image(), "the picture was not saved");
    Picture p;
    CHECK(p.load_ppm(path), "the saved picture is not a picture");
    D3 l = xyz_to_linear(c);
    for(int k = 0; k<w*h; k++)
        for(int i = 0; i<3 && m.wt[k]>0.05*m.mag[k]; i++)
            CHECK(developed(p.rgb[3*k+i], l[i], 1e-4+1e-4*m.mag[k]/m.wt[k]), "pixel ", k%w, ",", k/w, " channel ", i, " is ", (int)p.rgb[3*k+i], ", the colour of all samples is ", 255*encode(l[i]));
}
PROP_CPU(threads, 150, 3000, "an image up to 160x160 in tiles of 8 to 40 pixels, samples added by 2 to 8 threads taking tiles from a queue, as the renderer does: the picture against the weighted mean, no data race; non-trivial: three tiles or more", 25)
{
    int w = (int)g.i(8, 160), h = (int)g.i(8, 160), side = (int)g.i(8, 40), spp = (int)g.i(1, 3), nt = (int)g.i(2, 8);
    std::unique_ptr<Filter> f = gen_film_filter(g);
    std::string path = pbt::scratch()+"/film.ppm";
    ImageFilm film(w, h, path.c_str());
    film.set_filter(f.get());
    std::vector<Tile> tiles;
    std::vector<std::vector<Drop>> drops;
    Mean m(w, h);
    uint64_t seed = g.draw(0xffffffffu);
    for(int y = 0; y<h; y += side)
        for(int x = 0; x<w; x += side)
        {
            Tile t = {x, std::min(w, x+side), y, std::min(h, y+side)};
            tiles.push_back(t);
            drops.emplace_back();
            for(int yy = t.y0; yy<t.y1; yy++)
                for(int xx = t.x0; xx<t.x1; xx++)
                    for(int k = 0; k<spp; k++)
                    {
                        seed = seed*6364136223846793005ull+1442695040888963407ull;
                        Drop d;
                        d.s.posx = xx+(float)((seed >> 40)&0xff)/256.f;
                        d.s.posy = yy+(float)((seed >> 48)&0xff)/256.f;
                        d.c = linear_to_xyz(D3(((seed >> 33)&1)?1:0, ((seed >> 34)&3)/3., ((seed >> 36)&7)/7.));
                        drops.back().push_back(d);
                        m.add(f.get(), d.s, d.c);
                    }
        }
    g.note(w, "x", h, " tiles of ", side, " in ", nt, " threads, samples ", spp);
    g.nontrivial(tiles.size()>2);
    std::atomic<size_t> next(0);
    std::vector<std::thread> th;
    for(int k = 0; k<nt; k++)
        th.emplace_back([&]()
        {
            ExecutorData ex;
            while(true)
            {
                size_t t = next.fetch_add(1, std::memory_order_relaxed);
                if(t>=tiles.size())
                    break;
                area(ex, tiles[t]);
                for(const Drop& d : drops[t])
                    film.add_pixel(&d.s, colour(d.c), &ex);
                film.add_pixel_deferred(&ex);
            }
            film.add_pixel_forced(&ex);
        });
    for(auto& t : th)
        t.join();
    CHECK(film.save_image(), "the picture was not saved");
    Picture p;
    CHECK(p.load_ppm(path), "the saved picture is not a picture");
    int judged = 0;
    m.check(p, &judged);
}
