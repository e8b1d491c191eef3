// flavours: rgb
// S04: included files
#include "world.hpp"
#include <algorithm>
#include <dirent.h>
#include <sys/syscall.h>
#include <unistd.h>

// the progress bar of the renderer sleeps for a second at a time
extern "C" int nanosleep(const struct timespec* t, struct timespec*)
{
    struct timespec s = {0, t->tv_sec>0?3000000:t->tv_nsec};
    syscall(SYS_nanosleep, &s, (void*)0);
    return 0;
}
// the renderer seeds its samplers with the time
extern "C" time_t time(time_t* t)
{
    if(t)
        *t = 1000000000;
    return 1000000000;
}

namespace
{
std::string bits(double x)
{
    char b[40];
    snprintf(b, sizeof b, "%a ", x);
    return b;
}
std::string bits(const D3& x) { return bits(x.x)+bits(x.y)+bits(x.z); }
std::string bits(const Spectrum& s) { return bits(D3(s.to_xyz().r, s.to_xyz().g, s.to_xyz().b)); }
class Witness : public LightIntegrator
{
public:
    mutable std::string seen;
    Spectrum radiance(const Scene*, const HitPoint* h, const Ray* ray, Sampler*, OcclusionTester*) const
    {
        seen += bits(D3(ray->origin))+bits(D3(ray->direction))+bits(h->index);
        float v = 0.2f+0.1f*(float)(seen.size()%7);
        return SPECTRUM_ONE*v;
    }
};
std::string of_material(const Bsdf* b, const std::vector<Probe>& probes)
{
    std::string s;
    for(const Probe& p : probes)
    {
        HitPoint h;
        h.point_h = Point3(0, 0, 0);
        h.normal_h = Normal(0, 0, 1);
        h.dpdu = Vec3(1, 0, 0);
        h.dpdv = Vec3(0, 1, 0);
        h.uv = Point2(p.uv[0], p.uv[1]);
        h.index = 0;
        h.differentials = false;
        Vec3 wo(p.wo[0], p.wo[1], p.wo[2]), wi(p.wi[0], p.wi[1], p.wi[2]);
        if(std::fabs(wo.z)<1e-2 || std::fabs(wi.z)<1e-2)
            continue;
        ShadingSpace m;
        Normal n;
        b->gen_shading_matrix(&h, &m, &n);
        if(std::fabs(D3(n).dot(D3(wo)))<1e-2 || std::fabs(D3(n).dot(D3(wi)))<1e-2)
            continue;
        s += bits(b->value(&wo, &h, &wi, &m, true))+bits(b->pdf(&wo, &h, &m, &wi, true));
        s += bits(D3(n));
    }
    return s;
}
struct Line
{
    D3 o, d;
};
// everything that can be told about a scene
std::string digest(const std::string& scene, const std::string& cwd, const std::vector<std::string>& names, const std::vector<Probe>& probes, const std::vector<Line>& rays)
{
    if(chdir(cwd.c_str()))
        return "cannot enter the folder";
    Scene sc;
    ConfigDriver driver;
    Renderer* r = driver.parse(scene, &sc);
    if(r == NULL)
        return "parse returns no renderer";
    std::string s = pbt::str("instances ", sc.size_assets(), " lights ", sc.size_lights(), " shapes ", sc.size_shapes(), "\n");
    for(const std::string& n : names)
        s += pbt::str("material ", n, " ", MtlLib.contains(n)?of_material(MtlLib.get(n), probes):"none", "\n");
    if(sc.size_assets()>0)
    {
        sc.k.buildTree();
        for(const Line& l : rays)
        {
            Ray ray(Point3((float)l.o.x, (float)l.o.y, (float)l.o.z), Vec3((float)l.d.x, (float)l.d.y, (float)l.d.z));
            ray.direction.normalize();
            HitPoint h;
            if(!sc.k.intersect(&ray, &h))
            {
                s += "miss\n";
                continue;
            }
            s += "hit "+bits(D3(h.point_h))+bits(D3(h.normal_h))+bits(h.uv.x)+bits(h.uv.y)+bits(h.index);
            if(h.asset_h->is_light())
                s += "light "+bits(((const AreaLight*)h.asset_h)->emissive_spectrum());
            else
                s += "material "+of_material(h.asset_h->get_material(h.index), probes);
            s += "\n";
        }
    }
    // everything is inside of one sphere
    Sphere* ball = new Sphere();
    Matrix4 m;
    m.set_scale(4000);
    sc.inherit_shape(ball);
    sc.inherit_asset(new Asset(ball, m, 1));
    Witness* w = new Witness();
    r->inherit_integrator(w);
    s += pbt::str("render ", r->render(&sc), "\nrays ", w->seen, "\n");
    std::vector<std::string> files;
    DIR* d = opendir(".");
    while(struct dirent* e = readdir(d))
        files.push_back(e->d_name);
    closedir(d);
    std::sort(files.begin(), files.end());
    for(const std::string& f : files)
        if(f[0] != '.')
        {
            bool ok = false;
            s += "file "+f+" "+pbt::read_file(f, &ok)+"\n";
        }
    return s;
}
std::string first_difference(const std::string& a, const std::string& b)
{
    size_t i = 0, k = 0;
    while(i<a.size() && i<b.size() && a[i] == b[i])
    {
        i++;
        if(a[i-1] == '\n')
            k = i;
    }
    auto line = [&](const std::string& x)
    {
        std::string l = x.substr(k, std::min<size_t>(x.find('\n', k)-k, 5000));
        if(l.size()>160)
            l = l.substr(0, 60)+" ... "+l.substr(std::min(l.size(), i-k), 60);
        for(char& c : l)
            if((unsigned char)c<32 || (unsigned char)c>126)
                c = '?';
        return l;
    };
    return "included: "+line(a)+"\nin one file: "+line(b);
}
// settings, later ones override
Words gen_setting(pbt::Gen& g)
{
    switch(g.draw(7))
    {
        case 0: return pair("out", {quoted(g, g.pick({"a.ppm", "b", "two words.ppm"}))});
        case 1: return pair("spp", {std::to_string(g.size(1, 9))});
        case 2: return pair("sampler", {g.b()?"stratified":"random"});
        case 3:
        {
            std::vector<Words> p;
            if(g.b())
                p.push_back(pair("width", {g.b()?"32":"40"}));
            if(p.empty() || g.b())
                p.push_back(pair("height", {std::to_string(g.i(4, 24))}));
            return pair("resolution", object(g, p));
        }
        case 4:
        case 5:
        {
            std::vector<Words> p;
            if(g.b())
                p.push_back(pair("type", {g.pick({"perspective", "orthographic", "panorama"})}));
            if(g.b())
                p.push_back(pair("position", {"[", std::to_string(g.i(-9, 9)), ",", std::to_string(g.i(-9, 9)), ",", std::to_string(g.i(-9, -1)), "]"}));
            if(g.b())
                p.push_back(pair("target", {"[", std::to_string(g.i(-9, 9)), ",", "0.5", ",", std::to_string(g.i(1, 20)), "]"}));
            if(p.empty() || g.b())
                p.push_back(pair("fov", {std::to_string(g.i(20, 100))}));
            return pair("camera", object(g, p));
        }
        default:
        {
            std::vector<Words> p;
            if(g.b())
                p.push_back(pair("type", {g.pick({"box", "tent", "mitchell", "gauss", "lanczos"})}));
            if(g.b())
                p.push_back(pair("value0", {g.pick({"0.5", "1", "2.5"})}));
            if(g.b())
                p.push_back(pair("value1", {g.pick({"0.25", "0.75"})}));
            if(p.empty() || g.b())
                p.push_back(pair("texture", {g.pick({"unfiltered", "trilinear", "ewa"})}));
            return pair("filter", object(g, p));
        }
    }
}
}

PROP_CPU(included, 900, 15000, "random scenes (settings written any number of times, textures, materials, dual materials, OBJ files, worlds, lights) split over a main file and up to four included files in other directories, with repeated, missing and nested includes, relative paths and decoys beside the included files; everything observable (materials, instances, hits, rays, pictures written) must equal that of one file in the main directory with the entries of the included files at the end in order of inclusion; non-trivial: at least one included file holds an entry", 25)
{
    std::string root = pbt::scratch(), dir = root+"/proj";
    pbt::scratch_clear();
    for(const char* d : {"/proj", "/proj/sub", "/proj/parts", "/proj/parts/sub", "/shared", "/shared/sub", "/cwd", "/cwd/sub", "/cwd2", "/cwd2/sub"})
        mkdir((root+d).c_str(), 0755);
    std::vector<Words> stmts;
    std::vector<Words> first = {pair("resolution", {"{", "width", ":", "32", "height", ":", "16", "}"}), pair("spp", {"4"})};
    int settings = (int)g.size(0, 5);
    for(int k = 0; k<settings; k++)
        stmts.push_back(gen_setting(g));
    std::vector<Words> rest;
    std::vector<Tex> tex = gen_textures(g, dir, rest, false);
    std::vector<std::string> names;
    int nm = (int)g.size(1, 3);
    for(int k = 0; k<nm; k++)
    {
        Mat m;
        m.name = pbt::str("m", g.p(1, 6)?0:k);
        rest.push_back(gen_material(g, tex, m));
        names.push_back(m.name);
    }
    if(g.b())
    {
        std::vector<Words> p = {pair("name", {"\"dual\""}), pair("first", {quoted(g, names[0])}), pair("second", {quoted(g, names.back())})};
        gen_mask(g, tex, p);
        rest.push_back(pair("dualmaterial", object(g, p)));
        names.push_back("dual");
    }
    std::vector<std::string> shapes = {"Sphere"}, decoys;
    if(g.b())
    {
        std::string rel = g.b()?"sub/model.obj":"model.obj";
        std::string obj = "o quad\nusemtl m0\nv -1 -1 0.25\nv 1 -1 0\nv 1 1 0\nv -1 1 0\nf 1 2 3 4\no tri\nusemtl m1\nv 0 0 1\nv 1 0 1\nv 0 1 0\nf 5 6 7\n";
        pbt::write_file(dir+"/"+rel, obj);
        for(const char* d : {"/proj/parts/", "/shared/", "/cwd/", "/cwd2/"})
            pbt::write_file(root+d+rel, "o quad\nv 3 3 3\nv 4 3 3\nv 3 4 3\nf 1 2 3\no tri\nv 3 3 3\nv 4 3 3\nv 3 4 3\nf 4 5 6\n");
        rest.push_back(pair("shape", {quoted(g, rel)}));
        shapes.push_back("quad");
        shapes.push_back("tri");
    }
    for(int k = 0; k<4; k++)
        for(const char* s : {"", "sub/"})
            for(const char* d : {"/proj/parts/", "/shared/", "/cwd/", "/cwd2/"})
            {
                Image m;
                m.w = m.h = 1;
                m.px.assign(1, pack(10, 200, 90, 128));
                pbt::write_file(pbt::str(root, d, s, "file", k, ".tga"), tga(m));
            }
    int nw = (int)g.size(0, 4);
    for(int k = 0; k<nw; k++)
    {
        std::vector<Words> p = {pair("name", {quoted(g, shapes[g.draw(shapes.size()-1)])})};
        p.push_back(pair("position", gen_triple(g, -3, 3).words));
        bool light = g.p(1, 3);
        if(g.b())
            p.push_back(pair("scale", {g.pick({"0.5", "2"})}));
        if(light && g.b())
            p.push_back(pair("temperature", {std::to_string(g.i(1500, 9000))}));
        else if(light)
            p.push_back(pair("color", gen_triple(g, 0, 255).words));
        else if(g.b())
            p.push_back(pair("material", {quoted(g, names[g.draw(names.size()-1)])}));
        if(!light)
            gen_mask(g, tex, p);
        rest.push_back(pair(light?"light":"world", object(g, p, true)));
    }
    shuffle(g, rest);
    // entries in any order between the settings
    stmts.insert(stmts.begin(), first.begin(), first.end());
    for(const Words& w : rest)
        stmts.insert(stmts.begin()+(long)g.draw(stmts.size()), w);
    // the files: 0 is the main one
    int files = (int)g.size(1, 4);
    struct Part
    {
        std::string path, ref;
        std::vector<Words> stmts;
        bool exists = true;
    };
    std::vector<Part> part(files+1);
    for(int k = 1; k<=files; k++)
    {
        std::string base = g.pick({"mtl", "part ", "x.y"});
        base += std::to_string(k);
        const char* where[] = {"", "parts/", "../shared/", "./sub/../"};
        std::string rel = where[g.draw(3)]+base;
        part[k].path = dir+"/"+rel;
        part[k].ref = g.p(3, 4)?rel:part[k].path;
        part[k].exists = !g.p(1, 8);
    }
    bool size = false, spp = false; // the main file always keeps the picture small
    for(const Words& w : stmts)
    {
        bool stay = (w[0] == "resolution" && !size) || (w[0] == "spp" && !spp);
        size = size || w[0] == "resolution";
        spp = spp || w[0] == "spp";
        part[stay?0:g.draw(files)].stmts.push_back(w);
    }
    std::vector<Words> whole = part[0].stmts, top = part[0].stmts;
    std::vector<int> order;
    for(int k = 1; k<=files; k++)
        order.push_back(k);
    for(size_t i = order.size(); i>1; i--)
        std::swap(order[i-1], order[g.draw(i-1)]);
    if(g.p(1, 6))
        order.push_back((int)g.i(1, files)); // twice
    size_t at = 0;
    int entries = 0;
    std::vector<std::string> missing;
    for(int k : order)
    {
        at += g.draw(top.size()-at);
        top.insert(top.begin()+(long)at, pair("material", {quoted(g, part[k].ref)}));
        at++;
        if(!part[k].exists)
        {
            missing.push_back(part[k].path.substr(part[k].path.rfind('/')+1));
            continue;
        }
        entries += (int)part[k].stmts.size();
        whole.insert(whole.end(), part[k].stmts.begin(), part[k].stmts.end());
    }
    if(top.empty())
        top.push_back({","});
    if(whole.empty())
        whole.push_back({","});
    // includes of included files are ignored
    pbt::write_file(root+"/proj/nested", "world: { name: 'Sphere' } spp: 9 material: { name: 'm0' type: metal }\n");
    pbt::write_file(root+"/proj/parts/nested", "world: { name: 'Sphere' } spp: 9 material: { name: 'm0' type: metal }\n");
    g.nontrivial(entries>0);
    std::string main_text = layout(g, top), whole_text = layout(g, whole);
    g.note("main:\n"+main_text);
    for(int k = 1; k<=files; k++)
    {
        if(!part[k].exists)
            continue;
        if(part[k].stmts.empty())
            part[k].stmts.push_back({","});
        if(g.p(1, 5))
            part[k].stmts.insert(part[k].stmts.begin()+(long)g.draw(part[k].stmts.size()), pair("material", {g.b()?"'nested'":"'nowhere'"}));
        std::string t = layout(g, part[k].stmts);
        g.note("\n"+part[k].path+":\n"+t);
        pbt::write_file(part[k].path, t);
    }
    g.note("\none file:\n"+whole_text);
    pbt::write_file(dir+"/main.txt", main_text);
    pbt::write_file(dir+"/whole.txt", whole_text);
    std::vector<Probe> probes = gen_probes(g, 3);
    std::vector<Line> rays(8);
    for(Line& l : rays)
    {
        float d[3];
        g.dir(d, d+1, d+2);
        l.d = D3(d[0], d[1], d[2]);
        l.o = D3(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3))-l.d*20.;
    }
    std::string ref = g.b()?"../proj/main.txt":dir+"/main.txt";
    // two runs in different directories
    pbt::SubResult a = pbt::run_sub([&]() { return digest(ref, root+"/cwd", names, probes, rays); }, 50);
    pbt::SubResult b = pbt::run_sub([&]() { return digest(dir+"/whole.txt", root+"/cwd2", names, probes, rays); }, 50);
    CHECK(b.finished, "the scene in one file is not accepted: ", b.what(), " ", b.err.substr(0, 400));
    CHECK(a.finished, "the scene with included files is not accepted: ", a.what(), " ", a.err.substr(0, 400));
    CHECK(a.payload == b.payload, first_difference(a.payload, b.payload));
    for(const std::string& s : missing)
        CHECK(reported(a, s), "the missing file ", s, " is not reported");
}
