// flavours: rgb fast spec
// S01: settings of scene files
#include "film.hpp"
#include "scene.hpp"
#include "parsers/config_driver.hpp"
#include <atomic>
#include <mutex>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

// the progress bar of the renderer sleeps for a second at a time
extern "C" int nanosleep(const struct timespec* t, struct timespec*)
{
    struct timespec s = {0, t->tv_sec>0?3000000:t->tv_nsec};
    syscall(SYS_nanosleep, &s, (void*)0);
    return 0;
}

namespace
{
struct Settings
{
    std::string out = "out.ppm", dir;
    int w = 800, h = 600, spp = 121;
    bool stratified = true;
    int camera = 0, filter = 3, tex = 1; // perspective, mitchell, trilinear
    float pos[3] = {0, 0, 0}, tar[3] = {0, 0, 1}, up[3] = {0, 1, 0}, fov = 55, v0 = 0.33f, v1 = 0.33f;
    std::vector<Words> stmts;
    std::unique_ptr<Filter> make_filter() const
    {
        Filter* f = filter == 0?(Filter*)new FilterBox():filter == 1?(Filter*)new FilterTent():filter == 2?(Filter*)new FilterGaussian(v0):filter == 3?(Filter*)new FilterMitchell(v0, v1):new FilterLanczos(v0);
        return std::unique_ptr<Filter>(f);
    }
    // what the renderer makes of the resolution and of the samples
    void adjust()
    {
        int rem = w%32;
        if(rem)
        {
            h += (int)((float)(32-rem)/((float)w/(float)h));
            w += 32-rem;
            h += h%2;
        }
        if(stratified)
        {
            int r = (int)std::floor(std::sqrt((double)spp)+0.5);
            spp = r*r;
        }
    }
};
Words uint_word(pbt::Gen& g, int v)
{
    std::string s = std::to_string(v);
    switch(g.draw(5))
    {
        case 1: s = "+"+s; break;
        case 2: s = "0"+s; break;
        case 3: s = "+000"+s; break;
    }
    return {s};
}
void put(float* v, const Triple& t)
{
    for(int i = 0; i<3; i++)
        v[i] = t.v[i];
}
bool degenerate(const Settings& s)
{
    D3 d = D3(s.tar[0], s.tar[1], s.tar[2])-D3(s.pos[0], s.pos[1], s.pos[2]), u(s.up[0], s.up[1], s.up[2]);
    return d.len()<0.3 || u.len()<0.05 || d.norm().cross(u.norm()).len()<0.2;
}
enum Size { SMALL, DEFAULT_BOTH, DEFAULT_W, DEFAULT_H };
Settings gen_settings(pbt::Gen& g)
{
    Settings s;
    std::vector<Words> pairs;
    int given = 0;
    if(g.p(2, 3))
    {
        static const char* names[] = {"a.ppm", "image", "two words.ppm", "x.y.ppm", "d/out.ppm", "it's.ppm", "\xc3\xa9.ppm", "# no comment.ppm", "{out: }.ppm"};
        s.out = names[g.draw(8)];
        s.stmts.push_back(pair("out", {quoted(g, s.out)}));
        if(s.out == "image")
            s.out = "image.ppm";
        given++;
    }
    Size size = SMALL;
    if(g.p(1, 5))
        size = g.p(1, 6)?DEFAULT_BOTH:g.b()?DEFAULT_W:DEFAULT_H;
    bool with_spp = true;
    if(size == DEFAULT_BOTH)
    {
        if(g.p(1, 4))
            s.stmts.push_back(pair("resolution", {"{", ",", "}"}));
    }
    else
    {
        if(size != DEFAULT_W)
        {
            s.w = g.p(1, 2)?32*(int)g.size(1, 4):(int)g.size(1, 100);
            pairs.push_back(pair("width", uint_word(g, s.w)));
        }
        if(size != DEFAULT_H)
        {
            s.h = g.p(1, 8)?(int)g.size(1, 400):(int)g.size(1, 30);
            pairs.push_back(pair("height", uint_word(g, s.h)));
        }
        s.stmts.push_back(pair("resolution", object(g, pairs)));
        given++;
    }
    Settings probe;
    probe.w = s.w;
    probe.h = s.h;
    probe.adjust();
    long px = (long)probe.w*probe.h;
    if(px>480000)
        g.discard();
    if(px*121<=16000 && g.p(1, 2))
        with_spp = false;
    if(with_spp)
    {
        int most = (int)std::max(1l, std::min(150l, 12000/px));
        s.spp = (int)g.size(1, (uint64_t)most);
        s.stmts.push_back(pair("spp", uint_word(g, s.spp)));
        given++;
    }
    if(g.p(2, 3))
    {
        s.stratified = g.b();
        s.stmts.push_back(pair("sampler", {s.stratified?"stratified":"random"}));
        given++;
    }
    if(g.p(2, 3))
    {
        pairs.clear();
        if(g.p(2, 3))
        {
            static const char* n[] = {"perspective", "orthographic", "panorama"};
            s.camera = (int)g.draw(2);
            pairs.push_back(pair("type", {n[s.camera]}));
        }
        float span = g.pick({3.f, 50.f});
        if(g.p(2, 3))
        {
            Triple t = gen_triple(g, -span, span);
            put(s.pos, t);
            pairs.push_back(pair("position", t.words));
        }
        if(g.p(2, 3))
        {
            Triple t = gen_triple(g, -span, span);
            put(s.tar, t);
            pairs.push_back(pair("target", t.words));
        }
        if(g.p(1, 2))
        {
            Triple t = gen_triple(g, -2, 2);
            put(s.up, t);
            pairs.push_back(pair("up", t.words));
        }
        if(g.p(2, 3))
        {
            Number n = gen_number(g, 20, 120);
            s.fov = n.value;
            pairs.push_back(pair("fov", {n.text}));
        }
        if(degenerate(s))
            g.discard();
        if(pairs.empty())
            pairs.push_back({","});
        s.stmts.push_back(pair("camera", object(g, pairs)));
        given++;
    }
    if(g.p(2, 3))
    {
        pairs.clear();
        if(g.p(4, 5))
        {
            s.filter = (int)g.draw(4);
            std::string n[] = {"box", g.b()?"tent":"triangle", g.b()?"gaussian":"gauss", "mitchell", "lanczos"};
            pairs.push_back(pair("type", {n[s.filter]}));
        }
        if(g.p(2, 3))
        {
            Number n = s.filter == 3?gen_number(g, 0, 1):gen_number(g, 0.5, 4);
            s.v0 = n.value;
            pairs.push_back(pair("value0", {n.text}));
        }
        if(g.p(2, 3))
        {
            Number n = gen_number(g, 0, 1);
            s.v1 = n.value;
            pairs.push_back(pair("value1", {n.text}));
        }
        if(g.p(1, 3))
        {
            static const char* n[] = {"unfiltered", "trilinear", "ewa"};
            s.tex = (int)g.draw(2);
            pairs.push_back(pair("texture", {n[s.tex]}));
        }
        if(pairs.empty())
            pairs.push_back({","});
        s.stmts.push_back(pair("filter", object(g, pairs)));
        given++;
    }
    if(g.p(1, 3))
        s.stmts.push_back(pair("integrator", {"path"}));
    if(s.stmts.empty())
        s.stmts.push_back({","});
    shuffle(g, s.stmts);
    g.nontrivial(given>=2);
    return s;
}

struct Seen
{
    D3 o, d, c;
};
// gives every ray a colour and remembers both
class Witness : public LightIntegrator
{
public:
    mutable std::vector<Seen> seen;
    mutable std::mutex m;
    unsigned salt;
    explicit Witness(unsigned s) : salt(s) { }
    Spectrum radiance(const Scene*, const HitPoint*, const Ray* ray, Sampler*, OcclusionTester*) const
    {
        std::lock_guard<std::mutex> l(m);
        Lcg r(salt+seen.size()*7919);
        r.next();
        // mostly smooth, so that the pixels of different filters differ
        float v[3];
        for(int k = 0; k<3; k++)
            v[k] = (r.below(4)?0.15f:0.8f)+0.01f*r.below(10);
        Spectrum s = SPECTRUM_ONE*v[0];
        if(salt%2)
            s = Spectrum(ColorRGB((unsigned char)(255*v[0]), (unsigned char)(255*v[1]), (unsigned char)(255*v[2])), true);
        ColorXYZ x = s.to_xyz();
        Seen e;
        e.o = D3(ray->origin);
        e.d = D3(ray->direction);
        e.c = D3(x.r, x.g, x.b);
        seen.push_back(e);
        return s;
    }
};
struct View
{
    D3 x, y, z, p;
    double sx, sy, t;
};
View view(const Settings& s)
{
    View v;
    v.p = D3(s.pos[0], s.pos[1], s.pos[2]);
    v.z = (D3(s.tar[0], s.tar[1], s.tar[2])-v.p).norm();
    v.x = D3(s.up[0], s.up[1], s.up[2]).cross(v.z).norm();
    v.y = v.z.cross(v.x);
    double aspect = (double)s.w/s.h;
    v.sx = aspect>1?aspect:1;
    v.sy = aspect>1?1:1/aspect;
    v.t = std::tan((double)s.fov*M_PI/360);
    return v;
}
// where on the image a ray comes from, and how well that is known
void locate(const Settings& s, const View& v, const Seen& e, double* px, double* py, double* tol)
{
    double span = v.p.maxabs()+v.sx+v.sy, a = 4e-6+2e-6*span/(D3(s.tar[0], s.tar[1], s.tar[2])-v.p).len();
    if(s.camera == 1)
    {
        D3 q = e.o-v.p;
        CHECK(near3(e.d, v.z, 5*a), "a ray of the orthographic camera points to ", e.d, " instead of ", v.z);
        CHECK(std::fabs(q.dot(v.z))<=1e-5*span, "a ray of the orthographic camera starts at ", e.o);
        *px = (q.dot(v.x)/v.sx+1)/2*s.w;
        *py = (1-q.dot(v.y)/v.sy)/2*s.h;
        *tol = 1e-4+(a*(v.sx+v.sy)+1e-6*span)*std::max(s.w, s.h)/2;
        return;
    }
    CHECK(near3(e.o, v.p, 1e-5*span), "a ray starts at ", e.o, " instead of the camera at ", v.p);
    D3 c(e.d.dot(v.x), e.d.dot(v.y), e.d.dot(v.z));
    if(s.camera == 0)
    {
        CHECK(c.z>0, "a ray leaves the back of the camera: ", e.d);
        *px = (c.x/c.z/v.t/v.sx+1)/2*s.w;
        *py = (1-c.y/c.z/v.t/v.sy)/2*s.h;
        *tol = 1e-4+a*0.5*std::max(s.w/v.sx, s.h/v.sy)/v.t/(c.z*c.z);
        return;
    }
    double th = std::acos(std::max(-1., std::min(1., c.y))), ph = std::atan2(c.z, c.x);
    if(ph<0)
        ph += 2*M_PI;
    double sn = std::max(1e-9, std::sin(th));
    *px = ph/(2*M_PI)*s.w;
    *py = th/M_PI*s.h;
    // near the poles neither angle is accurate
    *tol = 1e-4+(a/sn)*std::max(s.w/(2*M_PI), s.h/M_PI);
}
std::string judge(const Settings& s, const std::vector<Seen>& seen, const std::string& file)
{
    CHECK(seen.size() == (size_t)s.w*s.h*s.spp, seen.size(), " samples were taken, instead of ", s.spp, " for each of ", s.w, "x", s.h, " pixels");
    View v = view(s);
    std::unique_ptr<Filter> f = s.make_filter();
    Mean mean(s.w, s.h);
    std::vector<int> sure((size_t)s.w*s.h), maybe((size_t)s.w*s.h);
    int k = (int)std::floor(std::sqrt((double)s.spp)+0.5);
    std::vector<unsigned char> cell(s.spp>1 && k*k == s.spp?(size_t)s.w*s.h*s.spp:0);
    bool stratified = !cell.empty();
    std::vector<int> placed(cell.empty()?0:(size_t)s.w*s.h);
    int whole = 0; // pixels with every sample placed in its stratum
    double worst = 0;
    for(const Seen& e : seen)
    {
        double px, py, tol;
        locate(s, v, e, &px, &py, &tol);
        if(s.camera == 2 && px<tol)
            px += s.w*(px+s.w-tol<s.w?0:1); // either end of the turn
        bool blurred = tol>5e-3;
        CHECK((blurred && s.camera == 2) || (px>=-tol && py>=-tol && px<=s.w+tol && py<=s.h+tol), "a ray towards ", e.d, " from ", e.o, " belongs to ", px, ", ", py, ", outside of the image of ", s.w, "x", s.h);
        worst = blurred?worst:std::max(worst, tol);
        px = std::max(0., std::min(px, s.w-1e-9));
        py = std::max(0., std::min(py, s.h-1e-9));
        bool edge = blurred;
        for(double c : {px, py})
            edge = edge || std::fabs(c-std::floor(c+0.5))<=tol;
        if(edge)
            for(int y = std::max(0, (int)std::floor(py-tol)); y<=std::min(s.h-1, (int)std::floor(py+tol)); y++)
                for(int x = 0; x<s.w; x++)
                {
                    if(blurred || (x>=std::floor(px-tol) && x<=std::floor(px+tol)) || (s.camera == 2 && (x == 0 || x == s.w-1)))
                        maybe[(size_t)y*s.w+x]++;
                }
        else
        {
            size_t p = (size_t)(int)py*s.w+(int)px;
            sure[p]++;
            if(!cell.empty())
            {
                double cx = (px-std::floor(px))*k, cy = (py-std::floor(py))*k;
                if(std::fabs(cx-std::floor(cx+0.5))>tol*k && std::fabs(cy-std::floor(cy+0.5))>tol*k)
                {
                    unsigned char& n = cell[p*s.spp+(size_t)((int)cy*k+(int)cx)];
                    n++;
                    whole += ++placed[p] == s.spp;
                    if(n>1)
                        stratified = false;
                }
            }
        }
        if(blurred)
        {
            for(int y = std::max(0, (int)std::floor(py-f->range_y)-2); y<=std::min(s.h-1, (int)std::ceil(py+f->range_y)+2); y++)
                for(int x = 0; x<s.w; x++)
                    mean.vague[(size_t)y*s.w+x] = 1;
        }
        else
        {
            Sample q;
            q.posx = (float)px;
            q.posy = (float)py;
            mean.add(f.get(), q, e.c, 4e-4+2*tol);
        }
    }
    for(int y = 0; y<s.h; y++)
        for(int x = 0; x<s.w; x++)
        {
            size_t p = (size_t)y*s.w+x;
            CHECK(sure[p]<=s.spp && sure[p]+maybe[p]>=s.spp, "pixel ", x, ",", y, " got ", sure[p], " samples instead of ", s.spp);
        }
    if(s.stratified && s.spp>1)
        CHECK(stratified, "the samples are not one per stratum with the stratified sampler and ", s.spp, " samples");
    if(!s.stratified && whole>=30)
        CHECK(!stratified, "every stratum got exactly one sample with the random sampler");
    Picture pic;
    CHECK(pic.load_ppm(file), "no picture was saved as ", file);
    int judged = 0;
    mean.check(pic, &judged, 4*worst+2e-3, 0.4);
    return "";
}
std::string render(const std::string& scene, const std::string& dir, const Settings& s, unsigned salt)
{
    if(chdir(dir.c_str()))
        return "cannot enter the folder";
    Scene sc;
    ConfigDriver driver;
    Renderer* r = driver.parse(scene, &sc);
    if(r == NULL)
        return "parse returns no renderer";
    // everything is inside of one sphere
    Sphere* ball = new Sphere();
    Matrix4 m, t, z;
    t.set_translation(Vec3(s.pos[0], s.pos[1], s.pos[2]));
    z.set_scale(4000);
    m = t*z;
    sc.inherit_shape(ball);
    sc.inherit_asset(new Asset(ball, m, 1));
    Witness* w = new Witness(salt);
    r->inherit_integrator(w);
    int rc = r->render(&sc);
    if(rc != 0)
        return pbt::str("render returns ", rc);
    try
    {
        return judge(s, w->seen, dir+"/"+s.out);
    }
    catch(pbt::Failure& f)
    {
        return f.msg.empty()?std::string("failed"):f.msg;
    }
}
}

PROP_CPU(settings, 170, 6000, "scene files with any subset of settings in any order, layout and notation of numbers; the renderer is run with an integrator that records every ray and colours it at random: the rays, traced back through the written camera, must be spp samples in every pixel of the written resolution (one per stratum or not), and the picture saved under the written name must be their mean weighted with the written filter; non-trivial: at least two settings are written", 25)
{
    Settings s = gen_settings(g);
    std::string dir = pbt::scratch();
    pbt::scratch_clear();
    mkdir((dir+"/d").c_str(), 0755);
    std::string text = layout(g, s.stmts);
    g.note(text);
    g.label(s.camera == 0?"perspective":s.camera == 1?"orthographic":"panorama");
    g.label(s.stratified?"stratified":"random");
    pbt::write_file(dir+"/scene.txt", text);
    s.adjust();
    unsigned salt = (unsigned)g.draw(1000);
    std::string scene = g.b()?"scene.txt":dir+"/scene.txt";
    pbt::SubResult r = pbt::run_sub([&]() { return render(scene, dir, s, salt); }, 55);
    CHECK(r.finished, "the scene is not rendered: ", r.what(), " ", r.err.substr(0, 400));
    CHECK(r.payload.empty(), r.payload);
}

#ifdef FLAVOUR_fast
namespace
{
// only counts the rays, safely for any number of threads
class Counter : public LightIntegrator
{
public:
    mutable std::atomic<long> n{0};
    Spectrum radiance(const Scene*, const HitPoint*, const Ray*, Sampler*, OcclusionTester*) const
    {
        n++;
        return SPECTRUM_ONE;
    }
};
std::string count(const std::string& dir, const Settings& s)
{
    if(chdir(dir.c_str()))
        return "cannot enter the folder";
    Scene sc;
    ConfigDriver driver;
    Renderer* r = driver.parse("scene.txt", &sc);
    if(r == NULL)
        return "parse returns no renderer";
    Sphere* ball = new Sphere();
    Matrix4 m;
    m.set_scale(4000);
    sc.inherit_shape(ball);
    sc.inherit_asset(new Asset(ball, m, 1));
    Counter* c = new Counter();
    r->inherit_integrator(c);
    int rc = r->render(&sc);
    if(rc != 0)
        return pbt::str("render returns ", rc);
    Picture pic;
    if(!pic.load_ppm(dir+"/out.ppm"))
        return "no picture was saved";
    if(pic.w != s.w || pic.h != s.h)
        return pbt::str("the picture has ", pic.w, "x", pic.h, " pixels instead of ", s.w, "x", s.h);
    if(c->n != (long)s.w*s.h*s.spp)
        return pbt::str(c->n.load(), " samples were taken, instead of ", s.spp, " for each of ", s.w, "x", s.h, " pixels");
    return "";
}
}
PROP(counts, 1200, 20000, "resolutions and numbers of samples, mostly next to the squares and to the multiples of 32 that the renderer goes to: the picture has the written size, adjusted as documented, and every pixel the written number of samples, adjusted as documented; non-trivial: something is adjusted")
{
    Settings s;
    std::string dir = pbt::scratch();
    pbt::scratch_clear();
    s.w = g.b()?32*(int)g.size(1, 20):(int)g.size(1, 300);
    s.h = (int)g.size(1, 200);
    s.stratified = !g.p(1, 5);
    Settings probe = s;
    probe.adjust();
    long most = std::max(1l, 200000l/((long)probe.w*probe.h));
    int k = (int)g.i(1, std::max(1, std::min(60, (int)std::sqrt((double)most))));
    s.spp = std::max(1, (int)(g.b()?k*k+(int)g.i(-2, 2):g.i(k*k, (k+1)*(k+1))));
    std::vector<Words> size = {pair("width", uint_word(g, s.w)), pair("height", uint_word(g, s.h))};
    s.stmts.push_back(pair("resolution", object(g, size)));
    s.stmts.push_back(pair("spp", uint_word(g, s.spp)));
    s.stmts.push_back(pair("sampler", {s.stratified?"stratified":"random"}));
    std::string text = layout(g, s.stmts);
    g.note(text);
    pbt::write_file(dir+"/scene.txt", text);
    Settings want = s;
    want.adjust();
    g.nontrivial(want.w != s.w || want.spp != s.spp);
    pbt::SubResult r = pbt::run_sub([&]() { return count(dir, want); }, 40);
    CHECK(r.finished, "the scene is not rendered: ", r.what(), " ", r.err.substr(0, 400));
    CHECK(r.payload.empty(), r.payload);
}
#endif

PROP(textures, 300, 6000, "textures of any size with written or default scale, shift and name, anywhere around the entry that selects the texture filter: lookups equal those of a texture built directly with these values; non-trivial: a filter is written after the first texture, or a scale or a shift is written")
{
    std::string dir = pbt::scratch();
    pbt::scratch_clear();
    mkdir((dir+"/t").c_str(), 0755);
    struct T
    {
        std::string name, path;
        float sc[2] = {1, 1}, sh[2] = {0, 0};
    };
    std::vector<T> tex;
    std::vector<Words> stmts;
    int n = (int)g.size(1, 4);
    bool tuned = false;
    for(int k = 0; k<n; k++)
    {
        T t;
        std::string rel = pbt::str(g.b()?"t/":"", "tex ", k, ".ppm");
        t.path = dir+"/"+rel;
        int side = 1 << g.i(0, 5);
        Image m = gen_image(g, side, side, false);
        std::string body = pbt::str("P6\n", side, " ", side, "\n255\n");
        for(uint32_t p : m.px)
        {
            body += (char)red(p);
            body += (char)green(p);
            body += (char)blue(p);
        }
        pbt::write_file(t.path, body);
        std::vector<Words> pairs;
        pairs.push_back(pair("src", {quoted(g, g.b()?rel:t.path)}));
        t.name = pbt::str("tex ", k, ".ppm");
        if(g.b())
        {
            t.name = pbt::str(g.pick({"a", "wall/", "Name with space ", "\xc3\xa4"}), k);
            pairs.push_back(pair("name", {quoted(g, t.name)}));
        }
        if(g.b())
        {
            tuned = true;
            if(g.b())
            {
                Number v = gen_number(g, 0.1, 8);
                t.sc[0] = t.sc[1] = v.value;
                pairs.push_back(pair("scale", {v.text}));
            }
            else
            {
                Number a = gen_number(g, 0.1, 8), b = gen_number(g, -4, 4);
                t.sc[0] = a.value;
                t.sc[1] = b.value;
                pairs.push_back(pair("scale", {"[", a.text, ",", b.text, "]"}));
            }
        }
        if(g.b())
        {
            tuned = true;
            Number a = gen_number(g, -3, 3), b = gen_number(g, -3, 3);
            t.sh[0] = a.value;
            t.sh[1] = b.value;
            pairs.push_back(pair("shift", {"[", a.text, ",", b.text, "]"}));
        }
        stmts.push_back(pair("texture", object(g, pairs)));
        tex.push_back(t);
    }
    int filter = TRILINEAR;
    if(g.p(4, 5))
    {
        static const char* names[] = {"unfiltered", "trilinear", "ewa"};
        const TextureFilter_t kinds[] = {UNFILTERED, TRILINEAR, EWA};
        int c = (int)g.draw(2);
        filter = kinds[c];
        size_t at = g.draw(stmts.size());
        tuned = tuned || at>0;
        std::vector<Words> pairs = {pair("texture", {names[c]})};
        if(g.b())
            pairs.push_back(pair("type", {"box"}));
        stmts.insert(stmts.begin()+at, pair("filter", object(g, pairs)));
    }
    g.nontrivial(tuned);
    std::string text = layout(g, stmts);
    g.note(text);
    pbt::write_file(dir+"/scene.txt", text);
    struct Q
    {
        float v[6];
    };
    std::vector<Q> q;
    for(int k = 0; k<8; k++)
    {
        Q x;
        x.v[0] = g.f(-3, 3);
        x.v[1] = g.f(-3, 3);
        for(int i = 2; i<6; i++)
            x.v[i] = g.p(1, 4)?0:g.f(-0.4f, 0.4f);
        q.push_back(x);
    }
    pbt::SubResult r = pbt::run_sub([&]() -> std::string
    {
        Scene sc;
        ConfigDriver driver;
        Renderer* rd = driver.parse(dir+"/scene.txt", &sc);
        if(rd == NULL)
            return "parse returns no renderer";
        for(const T& t : tex)
        {
            const Texture* got = TexLib.get_texture(t.name);
            if(!TexLib.contains_texture(t.name) || got == NULL)
                return "there is no texture named "+t.name;
            File f(t.path.c_str());
            Vec2 shift(t.sh[0], t.sh[1]), scale(t.sc[0], t.sc[1]);
            TextureImage want(f, shift, scale, (TextureFilter_t)filter);
            for(const Q& x : q)
            {
                HitPoint h;
                h.uv = Point2(x.v[0], x.v[1]);
                h.differentials = true;
                h.du = Vec2(x.v[2], x.v[3]);
                h.dv = Vec2(x.v[4], x.v[5]);
                ColorXYZ a = got->map(&h).to_xyz(), b = want.map(&h).to_xyz();
                if(!pbt::near(a.r, b.r, 1e-5, 1e-4) || !pbt::near(a.g, b.g, 1e-5, 1e-4) || !pbt::near(a.b, b.b, 1e-5, 1e-4))
                    return pbt::str("the texture ", t.name, " at ", x.v[0], " ", x.v[1], " gives ", a.r, " ", a.g, " ", a.b, " instead of ", b.r, " ", b.g, " ", b.b);
            }
        }
        return "";
    });
    CHECK(r.finished, "the scene is not accepted: ", r.what(), " ", r.err.substr(0, 400));
    CHECK(r.payload.empty(), r.payload);
}
