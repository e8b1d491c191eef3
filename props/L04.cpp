// flavours: rgb fast tsan
// L04: rendering covers the whole image once, with any number of threads
#include "film.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera_perspective.hpp"
#include "integrators/path_tracer.hpp"
#include "lights/area_light.hpp"
#include "materials/lambertian.hpp"
#include "materials/single_brdf.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "renderer.hpp"
#include "textures/texture_library.hpp"
#include "textures/texture_uniform.hpp"
#include "utility/scene.hpp"
#include <atomic>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>

// the progress bar sleeps for seconds and is waited for
extern "C" int nanosleep(const struct timespec* t, struct timespec*)
{
    struct timespec s = {0, t->tv_sec>0?1000000:t->tv_nsec};
    syscall(SYS_nanosleep, &s, (void*)0);
    return 0;
}

namespace
{
unsigned mix(unsigned a)
{
    a ^= a >> 16;
    a *= 0x7feb352du;
    a ^= a >> 15;
    a *= 0x846ca68bu;
    return a^(a >> 16);
}
unsigned bits(float f)
{
    unsigned u;
    memcpy(&u, &f, 4);
    return u;
}
D3 colour_of(unsigned h)
{
    return D3((h%5)/4., (h/5%5)/4., (h/25%5)/4.);
}
Spectrum spectrum_of(const D3& c)
{
    D3 x = linear_to_xyz(c);
    Spectrum s(0.f); // of the build with three components, these are XYZ
    s.w[0] = (float)x.x;
    s.w[1] = (float)x.y;
    s.w[2] = (float)x.z;
    return s;
}
// what is recorded while rendering; relaxed, so that no thread waits for another one because of it
const int ROOM = 8; // for samples rounded to the next pixel
struct Record
{
    int w, h, spp;
    std::vector<std::atomic<int>> count;
    std::vector<Sample> pos;
    std::atomic<long> outside{0}, surplus{0}, total{0};
    Record(int W, int H, int S) : w(W), h(H), spp(S), count((size_t)W*H), pos((size_t)W*H*(S+ROOM)) { }
    void add(const Sample& s)
    {
        total.fetch_add(1, std::memory_order_relaxed);
        // samples may sit exactly on the end of the pixel, due to rounding
        int x = (int)std::floor(s.posx), y = (int)std::floor(s.posy);
        if(!(s.posx>=0 && s.posy>=0) || x>w || y>h)
        {
            outside.fetch_add(1, std::memory_order_relaxed);
            return;
        }
        size_t p = (size_t)std::min(y, h-1)*w+std::min(x, w-1);
        int k = count[p].fetch_add(1, std::memory_order_relaxed);
        if(k<spp+ROOM)
            pos[p*(spp+ROOM)+k] = s;
        else
            surplus.fetch_add(1, std::memory_order_relaxed);
    }
};
// the origin of the ray is the position of the sample
class Scanner : public Camera
{
public:
    Record* rec;
    unsigned salt, slow, holes;
    Scanner(Record* r, unsigned s, unsigned delay, unsigned miss, const Point3* p, const Point3* t, const Vec3* u)
        : Camera(p, t, u, r->w, r->h), rec(r), salt(s), slow(delay), holes(miss) { }
    bool misses(const Sample& s) const { return holes && mix(salt^bits(s.posx)^mix(bits(s.posy)))%holes == 0; }
    void create_ray(const Sample* s, Ray* r, Ray* rx, Ray* ry) const
    {
        rec->add(*s);
        Point3 o(s->posx, s->posy, -100);
        Vec3 d(0, 0, misses(*s)?-1:1);
        *r = Ray(o, d);
        *rx = Ray(Point3(o.x+1, o.y, o.z), d);
        *ry = Ray(Point3(o.x, o.y+1, o.z), d);
        if(slow && mix(salt+bits(s->posx)*3+bits(s->posy))%slow == 0)
            sched_yield();
        else if(slow && mix(salt+bits(s->posx)*5+bits(s->posy))%(40*slow) == 0)
        {
            struct timespec t = {0, 50000};
            syscall(SYS_nanosleep, &t, (void*)0);
        }
    }
protected:
    void create_single_ray(const Sample* s, Point3* o, Vec3* d) const
    {
        *o = Point3(s->posx, s->posy, -100);
        *d = Vec3(0, 0, 1);
    }
};
D3 pixel_colour(unsigned salt, float x, float y, int w, int h)
{
    int px = std::min(w-1, (int)std::floor(x)), py = std::min(h-1, (int)std::floor(y));
    return colour_of(mix(salt+px*7919u+mix(py+1)));
}
D3 sample_colour(unsigned salt, float x, float y)
{
    return colour_of(mix(salt+bits(x)*3u+mix(bits(y))));
}
class Painter : public LightIntegrator
{
public:
    unsigned salt;
    bool flat; // one colour per pixel
    int w, h;
    Painter(unsigned s, bool f, int W, int H) : salt(s), flat(f), w(W), h(H) { }
    Spectrum radiance(const Scene*, const HitPoint*, const Ray* r, Sampler* sam, OcclusionTester*) const
    {
        float n[3];
        sam->get_random_numbers(n, 3);
        return spectrum_of(flat?pixel_colour(salt, r->origin.x, r->origin.y, w, h):sample_colour(salt, r->origin.x, r->origin.y));
    }
};
struct Job
{
    int w, h, spp, threads;
    bool stratified, flat;
    unsigned salt, slow, holes;
};
int gen_threads(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: return 1;
        case 1: return (int)g.i(2, 4);
        case 2: return (int)g.i(5, 16);
        case 3: return (int)g.i(-1, 0);
        default: return (int)g.i(17, 64);
    }
}
// reaches exactly the pixel of the sample
class OnePixel : public Filter
{
public:
    OnePixel() : Filter(0.5f, 0.5f) { }
    float weight(float, float) const { return 1; }
};
Filter* clone_filter(const Filter* f)
{
    if(dynamic_cast<const OnePixel*>(f)) return new OnePixel();
    if(auto p = dynamic_cast<const FilterGaussian*>(f)) return new FilterGaussian(*p);
    if(auto p = dynamic_cast<const FilterMitchell*>(f)) return new FilterMitchell(*p);
    if(auto p = dynamic_cast<const FilterLanczos*>(f)) return new FilterLanczos(*p);
    if(auto p = dynamic_cast<const FilterTent*>(f)) return new FilterTent(*p);
    return new FilterBox();
}
void run(const Job& j, const Filter* f, const std::string& path, Picture* pic, std::vector<char>* vague)
{
    Record rec(j.w, j.h, j.spp);
    Scene sc;
    Sphere* ball = new Sphere();
    Matrix4 m, mt, ms;
    ms.set_scale(5000);
    mt.set_translation(Vec3(0, 0, 5100));
    m = mt*ms;
    sc.inherit_shape(ball);
    sc.inherit_asset(new Asset(ball, m, 1));
    Renderer r(j.w, j.h, j.spp, path.c_str(), j.threads);
    Point3 p(0, 0, 0), t(0, 0, 1);
    Vec3 u(0, 1, 0);
    Scanner* cam = new Scanner(&rec, j.salt, j.slow, j.holes, &p, &t, &u);
    r.inherit_camera(cam);
    r.inherit_filter(clone_filter(f));
    r.set_sampler(j.stratified?SPECTRE_SAMPLER_STRATIFIED:SPECTRE_SAMPLER_RANDOM);
    r.inherit_integrator(new Painter(j.salt, j.flat, j.w, j.h));
    int rc = r.render(&sc);
    CHECK(rc == 0, "render returns ", rc);
    long want = (long)j.w*j.h*j.spp;
    CHECK(rec.outside == 0, rec.outside.load(), " samples lie outside of the image");
    CHECK(rec.total == want, rec.total.load(), " samples were taken instead of ", want);
    Mean mean(j.w, j.h);
    std::vector<int> sure((size_t)j.w*j.h), maybe((size_t)j.w*j.h);
    for(int y = 0; y<j.h; y++)
        for(int x = 0; x<j.w; x++)
        {
            size_t k = (size_t)y*j.w+x;
            int c = rec.count[k];
            CHECK(c<=j.spp+ROOM, "pixel ", x, ",", y, " got ", c, " samples instead of ", j.spp);
            for(int i = 0; i<c; i++)
            {
                const Sample& s = rec.pos[k*(j.spp+ROOM)+i];
                D3 col = cam->misses(s)?D3(0, 0, 0):j.flat?pixel_colour(j.salt, s.posx, s.posy, j.w, j.h):sample_colour(j.salt, s.posx, s.posy);
                mean.add(f, s, linear_to_xyz(col));
                // the end of a pixel may be rounded to the next one
                bool ex = s.posx == std::floor(s.posx), ey = s.posy == std::floor(s.posy);
                if(!ex && !ey)
                    sure[k]++;
                else
                    for(int yy = y-(ey && s.posy == y); yy<=y; yy++)
                        for(int xx = x-(ex && s.posx == x); xx<=x; xx++)
                            if(xx>=0 && yy>=0)
                                maybe[(size_t)yy*j.w+xx]++;
            }
        }
    for(size_t k = 0; k<sure.size(); k++)
    {
        CHECK(sure[k]<=j.spp && sure[k]+maybe[k]>=j.spp, "pixel ", k%j.w, ",", k/j.w, " got ", sure[k], " samples instead of ", j.spp);
        if(vague && maybe[k])
            (*vague)[k] = 1;
    }
    CHECK(pic->load_ppm(path), "no picture was saved");
    int judged = 0;
    mean.check(*pic, &judged, 2e-3, 0.4);
}
void gen_job(pbt::Gen& g, Job* j)
{
    j->w = SPLIT_SIZE*(int)g.size(1, 6);
    j->h = g.p(1, 3)?SPLIT_SIZE*(int)g.size(1, 5):(int)g.size(1, 150);
    j->stratified = g.b();
    int root = (int)g.size(1, 3);
    j->spp = j->stratified?root*root:(int)g.size(1, 6);
    j->threads = gen_threads(g);
    j->salt = (unsigned)g.draw(0xffffffffu);
    j->slow = (unsigned)g.pick({0, 3, 20, 200});
    j->holes = (unsigned)g.pick({0, 2, 9});
    j->flat = false;
}
// a box with normals to the inside
Mesh* room()
{
    Mesh* mesh = new Mesh(12);
    for(int axis = 0; axis<3; axis++)
        for(int side = -1; side<=1; side += 2)
        {
            Vertex v[4];
            for(int k = 0; k<4; k++)
            {
                D3 q, n;
                q[axis] = side*0.5;
                q[(axis+1)%3] = k == 1 || k == 2?0.5:-0.5;
                q[(axis+2)%3] = k>=2?0.5:-0.5;
                n[axis] = -side;
                v[k].p = Point3((float)q.x, (float)q.y, (float)q.z);
                v[k].n = Normal((float)n.x, (float)n.y, (float)n.z);
                v[k].t = Point2((float)(k == 1 || k == 2), (float)(k>=2));
            }
            mesh->add_triangle(&v[0], &v[1], &v[2]);
            mesh->add_triangle(&v[0], &v[2], &v[3]);
        }
    mesh->finalize();
    return mesh;
}
}

PROP_CPU(coverage, 400, 12000, "images of 32 to 192 pixels by 1 to 160, 1 to 9 samples, every filter and sampler, 1 to 64 threads or as many as the machine has, rays slowed down at random; the camera records every sample, the integrator colours it by its place: every pixel gets the requested samples, once, and the saved picture is their weighted mean; non-trivial: several threads and areas", 40)
{
    std::unique_ptr<Filter> f = gen_film_filter(g);
    Job j;
    gen_job(g, &j);
    g.note(j.w, "x", j.h, " samples ", j.spp, j.stratified?" stratified":" random", " threads ", j.threads, " delays ", j.slow, " misses ", j.holes);
    g.nontrivial(j.threads != 1 && (j.w>SPLIT_SIZE || j.h>SPLIT_SIZE));
    std::string path = pbt::scratch()+"/image.ppm";
    Picture p;
    run(j, f.get(), path, &p, NULL);
}
PROP_CPU(same, 150, 4000, "the same picture, with one colour per pixel and a filter of one pixel, rendered with two different numbers of threads: every pixel is the same and has its colour; non-trivial: always", 40)
{
    Job j;
    gen_job(g, &j);
    j.flat = true;
    j.holes = 0;
    Job k = j;
    k.threads = gen_threads(g);
    k.slow = (unsigned)g.pick({0, 7});
    k.stratified = j.stratified;
    g.note(j.w, "x", j.h, " samples ", j.spp, j.stratified?" stratified":" random", " threads ", j.threads, " and ", k.threads);
    g.nontrivial();
    OnePixel box;
    std::string path = pbt::scratch()+"/image.ppm";
    Picture a, b;
    std::vector<char> vague((size_t)j.w*j.h);
    run(j, &box, path, &a, &vague);
    unlink(path.c_str());
    run(k, &box, path, &b, &vague);
    CHECK(a.w == b.w && a.h == b.h, "sizes ", a.w, "x", a.h, " and ", b.w, "x", b.h);
    for(int i = 0; i<j.w*j.h; i++)
    {
        if(vague[i])
            continue; // a sample on the edge reaches both pixels
        D3 c = pixel_colour(j.salt, (float)(i%j.w), (float)(i/j.w), j.w, j.h);
        double l[3] = {c.x, c.y, c.z};
        for(int q = 0; q<3; q++)
        {
            CHECK(a.rgb[3*i+q] == b.rgb[3*i+q], "pixel ", i%j.w, ",", i/j.w, " channel ", q, " is ", (int)a.rgb[3*i+q], " with ", j.threads, " threads and ", (int)b.rgb[3*i+q], " with ", k.threads);
            CHECK(developed(a.rgb[3*i+q], l[q], 3e-3), "pixel ", i%j.w, ",", i/j.w, " channel ", q, " is ", (int)a.rgb[3*i+q], " instead of ", 255*encode(l[q]));
        }
    }
}
PROP_CPU(traced, 60, 1500, "the path tracer in a glowing room with black spheres, seen by a perspective camera, with 1 to 32 threads: pixels whose surroundings see only walls or only one sphere have exactly that emission, whatever the threads; non-trivial: several threads", 40)
{
    int w = SPLIT_SIZE*(int)g.size(1, 4), h = (int)g.size(8, 100), spp = g.b()?1:4, threads = gen_threads(g);
    std::string path = pbt::scratch()+"/image.ppm";
    g.nontrivial(threads != 1);
    g.note(w, "x", h, " samples ", spp, " threads ", threads);
    Renderer r(w, h, spp, path.c_str(), threads);
    Point3 p(0, 0, 0), t(0, 0, 1);
    Vec3 u(0, 1, 0);
    double fov = g.f(0.5f, 1.5f);
    CameraPerspective* cam = new CameraPerspective(&p, &t, &u, w, h, (float)fov);
    r.inherit_camera(cam);
    std::unique_ptr<Filter> f(g.b()?(Filter*)new FilterBox():g.b()?(Filter*)new FilterTent():new FilterGaussian(g.f(0.1f, 3))); // no negative lobes
    r.inherit_filter(f.release());
    r.set_sampler(g.b()?SPECTRE_SAMPLER_STRATIFIED:SPECTRE_SAMPLER_RANDOM);
    r.inherit_integrator(new PathTracer());
    Scene sc;
    D3 glow = colour_of((unsigned)g.i(1, 124))*0.9;
    static TextureUniform black(SPECTRUM_BLACK);
    static SingleBRDF* dark = NULL;
    if(!dark)
    {
        dark = new SingleBRDF(new Lambertian(), &black);
        dark->inherit_bump(new Bump());
    }
    const Bsdf* mat = dark;
    std::vector<unsigned char> idx(64, 0);
    Mesh* walls = room();
    sc.inherit_shape(walls);
    Sphere* ball = new Sphere();
    sc.inherit_shape(ball);
    struct Obj { D3 c; double r; D3 e; };
    std::vector<Obj> objs;
    auto place = [&](const Shape* shape, const D3& c, double size, const D3& e)
    {
        Matrix4 mt, ms, mm;
        mt.set_translation(Vec3((float)c.x, (float)c.y, (float)c.z));
        ms.set_scale((float)size);
        mm = mt*ms;
        if(e.maxabs()>0)
        {
            AreaLight* a = new AreaLight(shape, mm, spectrum_of(e));
            a->set_materials(&mat, 1, idx.data());
            sc.inherit_light(a);
        }
        else
        {
            Asset* a = new Asset(shape, mm, 1);
            a->set_materials(&mat, 1, idx.data());
            sc.inherit_asset(a);
        }
    };
    place(walls, D3(0, 0, 0), 60, glow);
    int n = (int)g.size(0, 3);
    for(int i = 0; i<n; i++)
    {
        Obj o;
        o.c = D3(g.f(-3, 3), g.f(-3, 3), g.f(5, 9));
        o.r = g.f(0.3f, 2);
        if(g.p(1, 3))
            o.e = colour_of((unsigned)g.i(1, 124));
        place(ball, o.c, o.r, o.e);
        objs.push_back(o);
    }
    int rc = r.render(&sc);
    CHECK(rc == 0, "render returns ", rc);
    Picture pic;
    CHECK(pic.load_ppm(path), "no picture was saved");
    CHECK(pic.w == w && pic.h == h, "the picture is ", pic.w, "x", pic.h);
    // what a position of the film sees: index of the sphere, -1 for the walls
    auto sees = [&](double x, double y, double slack) -> int
    {
        Sample q;
        q.posx = (float)x;
        q.posy = (float)y;
        Ray ray, rx, ry;
        cam->create_ray(&q, &ray, &rx, &ry);
        D3 d(ray.direction.x, ray.direction.y, ray.direction.z);
        d = d*(1/d.len());
        int best = -1;
        double near = 1e30;
        for(size_t i = 0; i<objs.size(); i++)
        {
            double b = d.dot(objs[i].c), e = b*b-objs[i].c.dot(objs[i].c)+objs[i].r*objs[i].r;
            if(std::fabs(e)<slack*(1+objs[i].c.dot(objs[i].c)))
                return -2;
            if(e>0 && b-std::sqrt(e)<near)
            {
                near = b-std::sqrt(e);
                best = (int)i;
            }
        }
        return best;
    };
    int judged = 0;
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            int id = -3;
            for(int a = -5; a<=7 && id != -2; a++)
                for(int b = -5; b<=7 && id != -2; b++)
                {
                    int k = sees(x+a*0.5+0.25, y+b*0.5+0.25, 1e-3);
                    if(id == -3)
                        id = k;
                    else if(k != id)
                        id = -2;
                }
            if(id<-1)
                continue;
            judged++;
            D3 e = id<0?glow:objs[id].e;
            double l[3] = {e.x, e.y, e.z};
            for(int q = 0; q<3; q++)
            {
                int v = pic.rgb[3*(y*w+x)+q];
                CHECK(developed(v, l[q], 3e-3), "pixel ", x, ",", y, " channel ", q, " is ", v, ", it sees ", id<0?"the walls":"a sphere", " emitting ", l[q]);
            }
        }
    if(n == 0)
        CHECK(judged == w*h, "not every pixel was judged");
}
