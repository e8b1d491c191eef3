// flavours: rgb fast
// M06: libraries of named materials, textures and maps; the registries of a scene
#include "common.hpp"
#include "lights/area_light.hpp"
#include "materials/material_library.hpp"
#include "primitives/asset.hpp"
#include "primitives/sphere.hpp"
#include "textures/texture_library.hpp"
#include "utility/scene.hpp"
#include <map>
#include <set>

namespace
{
std::map<int, int> freed; // entry -> times destroyed
struct Mat : public SingleBRDF
{
    int id;
    explicit Mat(int i) : SingleBRDF(new Lambertian()), id(i) { }
    ~Mat() override { freed[id]++; }
};
pixBGRA white = 0xffffffff;
Vec2 none(0.f), one(1.f);
struct Tex : public TextureImage
{
    int id;
    explicit Tex(int i) : TextureImage(TexLib.get_dflt_map(), none, one, true), id(i) { }
    ~Tex() override { freed[id]++; }
};
struct Map : public ImageMapUnfiltered
{
    int id;
    explicit Map(int i) : ImageMapUnfiltered(&white, 1), id(i) { }
    ~Map() override { freed[id]++; }
};
struct Anon : public Texture
{
    int id;
    explicit Anon(int i) : id(i) { }
    ~Anon() override { freed[id]++; }
    Spectrum map(const HitPoint*) const override { return SPECTRUM_ONE; }
};
std::string gen_name(pbt::Gen& g)
{
    switch(g.draw(7))
    {
        case 0: return "Default";
        case 1: return "";
        case 2: return std::string("a\0b", 3);
        case 3: return "default";
        case 4: return g.ident(6);
        default: return std::string(1, (char)('a'+g.draw(4)));
    }
}
void expect_freed(std::set<int>& want, const char* after)
{
    for(int id : want)
        CHECK(freed[id] == 1, "after ", after, " entry ", id, " was destroyed ", freed[id], " times");
    for(auto& f : freed)
        CHECK(f.second == (int)want.count(f.first), "after ", after, " entry ", f.first, " was destroyed ", f.second, " times but should be alive");
}
}
PROP(libraries, 60000, 600000, "up to 40 insertions, removals, lookups and clears over the three libraries with clashing, empty and reserved names; every answer and every destruction against a model; non-trivial: a name was inserted twice")
{
    MtlLib.clear();
    TexLib.clear();
    freed.clear();
    const Bsdf* dm = MtlLib.get_default();
    const Texture* dt = TexLib.get_dflt_texture();
    const TextureImage* di = TexLib.get_dflt_teximage();
    const ImageMap* dmap = TexLib.get_dflt_map();
    std::map<std::string, Mat*> mats;
    std::map<std::string, Tex*> texs;
    std::map<std::string, Map*> maps;
    std::vector<int> anons;
    std::set<int> dead;
    std::vector<Bsdf*> refused_m; // ours to destroy
    std::vector<TextureImage*> refused_t;
    std::vector<ImageMap*> refused_i;
    int ops = (int)g.size(1, 40), next = 1;
    for(int k = 0; k<ops; k++)
    {
        std::string n = gen_name(g);
        switch(g.draw(9))
        {
            case 0: case 1:
            {
                Mat* m = new Mat(next++);
                g.note("add material '", n, "' as ", m->id);
                MtlLib.add_inherit(n, m);
                if(n == "Default" || mats.count(n))
                {
                    refused_m.push_back(m);
                    g.nontrivial();
                }
                else
                    mats[n] = m;
                break;
            }
            case 2: case 3:
            {
                Tex* t = new Tex(next++);
                g.note("add texture '", n, "' as ", t->id);
                TexLib.inherit_texture(n, t);
                if(texs.count(n))
                {
                    refused_t.push_back(t);
                    g.nontrivial();
                }
                else
                    texs[n] = t;
                break;
            }
            case 4:
            {
                Map* m = new Map(next++);
                g.note("add map '", n, "' as ", m->id);
                TexLib.inherit_map(n, m);
                if(maps.count(n))
                {
                    refused_i.push_back(m);
                    g.nontrivial();
                }
                else
                    maps[n] = m;
                break;
            }
            case 5:
                anons.push_back(next);
                g.note("add anonymous texture ", next);
                TexLib.inherit_texture(new Anon(next++));
                break;
            case 6:
                g.note("erase material '", n, "'");
                if(n != "Default" && mats.count(n))
                {
                    dead.insert(mats[n]->id);
                    mats.erase(n);
                }
                MtlLib.erase(n);
                break;
            case 7:
                g.note("erase texture '", n, "'");
                if(texs.count(n))
                {
                    dead.insert(texs[n]->id);
                    texs.erase(n);
                }
                TexLib.erase_texture(n);
                break;
            case 8:
                g.note("erase map '", n, "'");
                if(maps.count(n))
                {
                    dead.insert(maps[n]->id);
                    maps.erase(n);
                }
                TexLib.erase_map(n);
                break;
            default:
                if(!g.p(1, 3))
                    break;
                if(g.b())
                {
                    g.note("clear materials");
                    for(auto& m : mats)
                        dead.insert(m.second->id);
                    mats.clear();
                    MtlLib.clear();
                }
                else
                {
                    g.note("clear textures");
                    for(auto& t : texs)
                        dead.insert(t.second->id);
                    for(auto& t : maps)
                        dead.insert(t.second->id);
                    dead.insert(anons.begin(), anons.end());
                    texs.clear();
                    maps.clear();
                    anons.clear();
                    TexLib.clear();
                }
        }
        expect_freed(dead, "an operation");
        std::string q = gen_name(g);
        auto m = mats.find(q);
        const Bsdf* wm = q == "Default"?dm:(m == mats.end()?nullptr:(const Bsdf*)m->second);
        CHECK(MtlLib.get(q) == wm && MtlLib.contains(q) == (wm != nullptr), "material '", q, "' is answered wrongly");
        auto t = texs.find(q);
        const TextureImage* wt = t == texs.end()?nullptr:t->second;
        CHECK(TexLib.get_texture(q) == wt && TexLib.contains_texture(q) == (wt != nullptr), "texture '", q, "' is answered wrongly");
        auto i = maps.find(q);
        const ImageMap* wi = i == maps.end()?nullptr:i->second;
        CHECK(TexLib.get_map(q) == wi && TexLib.contains_map(q) == (wi != nullptr), "map '", q, "' is answered wrongly");
        CHECK(MtlLib.get_default() == dm && MtlLib.get("Default") == dm && TexLib.get_dflt_texture() == dt && TexLib.get_dflt_teximage() == di && TexLib.get_dflt_map() == dmap, "a default entry changed");
    }
    for(auto& m : mats)
        dead.insert(m.second->id);
    for(auto& t : texs)
        dead.insert(t.second->id);
    for(auto& t : maps)
        dead.insert(t.second->id);
    dead.insert(anons.begin(), anons.end());
    MtlLib.clear();
    TexLib.clear();
    expect_freed(dead, "the final clear");
    for(Bsdf* b : refused_m)
        delete b;
    for(TextureImage* b : refused_t)
        delete b;
    for(ImageMap* b : refused_i)
        delete b;
    // the defaults still work
    HitPoint h;
    h.uv = Point2(0.3f, 0.4f);
    CHECK(dt->map(&h).w[0] == 1 && di->map_value(&h).bgra_value == 0xffffffffu, "a default texture is no longer white");
}
namespace
{
std::map<unsigned, int> gone_shapes, gone_assets;
struct S : public Sphere
{
    ~S() override { gone_shapes[get_id()]++; }
};
struct A : public Asset
{
    A(const Shape* s, const Matrix4& m) : Asset(s, m, 1) { }
    ~A() override { gone_assets[get_id()]++; }
};
struct L : public AreaLight
{
    L(const Shape* s, Matrix4& m) : AreaLight(s, m, Spectrum(1.f)) { }
    ~L() override { gone_assets[get_id()]++; }
};
}
PROP(scene, 20000, 200000, "a scene given shapes, instances and lights in any order, some twice, and more lights than it takes; counts, order and destruction against a model; non-trivial: something was given twice or beyond the limit")
{
    gone_shapes.clear();
    gone_assets.clear();
    std::vector<S*> shapes;
    std::vector<L*> refused;
    std::set<unsigned> have_s, have_a;
    std::vector<const AreaLight*> lights;
    std::vector<Asset*> assets;
    std::vector<L*> all_lights;
    {
        Scene scene;
        Matrix4 m;
        m.set_identity();
        int ops = g.p(1, 8)?60+(int)g.draw(40):(int)g.size(1, 30);
        bool many = ops>=60;
        shapes.push_back(new S());
        have_s.insert(shapes[0]->get_id());
        scene.inherit_shape(shapes[0]);
        for(int k = 0; k<ops; k++)
        {
            switch(many?4:g.draw(5))
            {
                case 0:
                    shapes.push_back(new S());
                    have_s.insert(shapes.back()->get_id());
                    scene.inherit_shape(shapes.back());
                    break;
                case 1:
                    scene.inherit_shape(shapes[g.draw(shapes.size()-1)]);
                    g.nontrivial();
                    break;
                case 2:
                    assets.push_back(new A(shapes[g.draw(shapes.size()-1)], m));
                    have_a.insert(assets.back()->get_id());
                    scene.inherit_asset(assets.back());
                    break;
                case 3:
                    if(assets.empty())
                        break;
                    scene.inherit_asset(assets[g.draw(assets.size()-1)]);
                    g.nontrivial();
                    break;
                default:
                {
                    L* l;
                    if(!all_lights.empty() && g.p(1, 5))
                    {
                        l = all_lights[g.draw(all_lights.size()-1)];
                        g.nontrivial();
                        scene.inherit_light(l);
                        break;
                    }
                    l = new L(shapes[g.draw(shapes.size()-1)], m);
                    scene.inherit_light(l);
                    if(lights.size()<_MAX_LIGHTS_)
                    {
                        lights.push_back(l);
                        all_lights.push_back(l);
                        have_a.insert(l->get_id());
                    }
                    else
                    {
                        g.nontrivial();
                        refused.push_back(l);
                    }
                }
            }
            CHECK(scene.size_shapes() == have_s.size(), scene.size_shapes(), " shapes, wants ", have_s.size());
            CHECK(scene.size_assets() == have_a.size(), scene.size_assets(), " instances, wants ", have_a.size());
            CHECK(scene.size_lights() == lights.size(), scene.size_lights(), " lights, wants ", lights.size());
        }
        for(size_t k = 0; k<lights.size(); k++)
            CHECK(scene.get_light((int)k) == lights[k], "light ", k, " is another one");
        CHECK(gone_shapes.empty() && gone_assets.empty(), "something was destroyed while the scene lives");
    }
    for(L* l : refused)
        CHECK(gone_assets[l->get_id()] == 0, "a refused light was destroyed");
    for(unsigned s : have_s)
        CHECK(gone_shapes[s] == 1, "a shape was destroyed ", gone_shapes[s], " times");
    for(unsigned a : have_a)
        CHECK(gone_assets[a] == 1, "an instance was destroyed ", gone_assets[a], " times");
    for(L* l : refused)
        delete l;
}
