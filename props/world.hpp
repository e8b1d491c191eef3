#ifndef WORLD_HPP
#define WORLD_HPP
// textures, masks and materials of scene files
#include "scene.hpp"
#include "parsers/config_driver.hpp"
#include "lights/area_light.hpp"
#include <map>
#include <memory>
#include <sys/stat.h>

namespace
{
// 32 bit TGA, top left origin
std::string tga(const Image& m)
{
    std::string s("\0\0\2\0\0\0\0\0\0\0\0\0", 12);
    s += (char)(m.w&255);
    s += (char)(m.w >> 8);
    s += (char)(m.h&255);
    s += (char)(m.h >> 8);
    s += (char)32;
    s += (char)0x28;
    for(uint32_t p : m.px)
    {
        s += (char)blue(p);
        s += (char)green(p);
        s += (char)red(p);
        s += (char)alpha(p);
    }
    return s;
}
struct Tex
{
    std::string ref, path; // how entries call it, where it is; no path: there is none
    float sc[2] = {1, 1}, sh[2] = {0, 0};
    uint32_t colour = 0; // of the first texel
};
struct Mask
{
    int tex = -1; // none
    ImageChannel chan = ALPHA;
    bool inv = false;
};
const TextureImage* make(const Tex& t)
{
    File f(t.path.c_str());
    Vec2 sh(t.sh[0], t.sh[1]), sc(t.sc[0], t.sc[1]);
    return new TextureImage(f, sh, sc, TRILINEAR);
}
// names in the library, paths, both at once, and names of nothing
std::vector<Tex> gen_textures(pbt::Gen& g, const std::string& dir, std::vector<Words>& stmts, bool flat)
{
    std::vector<Tex> v;
    int n = (int)g.size(1, 4);
    for(int k = 0; k<n; k++)
    {
        Tex t;
        std::string rel = pbt::str(g.b()?"sub/":"", "file", k, ".tga"); // also when another is called like it
        int side = 1 << g.i(0, flat?0:3);
        Image m = gen_image(g, side, side, true);
        if(flat) // far from the threshold of masks
            for(uint32_t& p : m.px)
                p = pack(g.b()?20:240, g.b()?20:240, g.b()?20:240, g.b()?20:240);
        t.colour = m.px[0];
        t.path = dir+"/"+rel;
        pbt::write_file(t.path, tga(m));
        switch(g.draw(3))
        {
            case 0: // only by path
                t.ref = g.b()?rel:t.path;
                break;
            case 1: // by the default name
            {
                stmts.push_back(pair("texture", object(g, {pair("src", {quoted(g, rel)})})));
                t.ref = pbt::str("file", k, ".tga");
                break;
            }
            default:
            {
                t.ref = g.pick({pbt::str("Wall ", k), pbt::str("w/", k), pbt::str("file9", k, ".tga")});
                std::vector<Words> p = {pair("src", {quoted(g, g.b()?rel:t.path)}), pair("name", {quoted(g, t.ref)})};
                if(g.b())
                {
                    Number s = gen_number(g, 0.2, 4);
                    t.sc[0] = t.sc[1] = s.value;
                    p.push_back(pair("scale", {s.text}));
                }
                if(g.b())
                {
                    Number a = gen_number(g, -2, 2), b = gen_number(g, -2, 2);
                    t.sh[0] = a.value;
                    t.sh[1] = b.value;
                    p.push_back(pair("shift", {"[", a.text, ",", b.text, "]"}));
                }
                stmts.push_back(pair("texture", object(g, p)));
                if(g.p(1, 4)) // a file called like the name must not matter
                {
                    Image other = gen_image(g, 2, 2, true);
                    if(t.ref.find('/') == std::string::npos)
                        pbt::write_file(dir+"/"+t.ref, tga(other));
                }
            }
        }
        v.push_back(t);
    }
    if(g.b())
    {
        Tex t;
        t.ref = g.pick({"no such texture", "sub/absent.tga", "/nowhere/absent.png", "sub", "scene.txt"});
        v.push_back(t);
    }
    return v;
}
Mask gen_mask(pbt::Gen& g, const std::vector<Tex>& tex, std::vector<Words>& pairs)
{
    Mask m;
    if(g.p(1, 3))
        return m;
    m.tex = (int)g.draw(tex.size()-1);
    Words w = {quoted(g, tex[m.tex].ref)};
    bool before = g.b();
    if(before && g.p(1, 3))
    {
        m.inv = true;
        w.push_back("inverted");
    }
    if(g.p(2, 3))
    {
        static const char* n[] = {"using channel R", "using channel G", "using channel B", "using channel A"};
        const ImageChannel c[] = {RED, GREEN, BLUE, ALPHA};
        int k = (int)g.draw(3);
        m.chan = c[k];
        w.push_back(n[k]);
    }
    if(!before && g.p(1, 3))
    {
        m.inv = true;
        w.push_back("inverted");
    }
    pairs.push_back(pair("mask", w));
    return m;
}
MaskBoolean make(const Mask& m, const std::vector<Tex>& tex)
{
    if(m.tex<0 || tex[m.tex].path.empty())
        return MaskBoolean(NULL, m.chan, m.inv);
    return MaskBoolean(make(tex[m.tex]), m.chan, m.inv);
}

// ---------------------------------------------------------------- materials
struct Colour
{
    int tex = -1;
    bool uniform = false;
    float v[3];
};
enum Type { T_MATTE, T_GLOSSY, T_METAL, T_GLASS };
struct Mat
{
    std::string name;
    int type = T_MATTE, dist = 1, ior_n = 0, element = METAL_GOLD, normal = -1;
    float rough = 0, aniso = -1, ior[6];
    Colour diffuse, specular;
    // dual
    bool dual = false;
    std::string first, second;
    Mask mask;
};
Words gen_colour(pbt::Gen& g, const std::vector<Tex>& tex, Colour& c)
{
    if(g.b())
    {
        c.tex = (int)g.draw(tex.size()-1);
        return {quoted(g, tex[c.tex].ref)};
    }
    c.uniform = true;
    Triple t = g.p(1, 6)?gen_triple(g, -100, 400):gen_triple(g, 0, 255);
    for(int k = 0; k<3; k++)
        c.v[k] = t.v[k];
    return t.words;
}
std::string material_name(pbt::Gen& g, int k)
{
    return pbt::str(g.pick({"m", "Red ", "caf\xc3\xa9", "it's ", "# ", "{a: }"}), k);
}
Words gen_material(pbt::Gen& g, const std::vector<Tex>& tex, Mat& m)
{
    std::vector<Words> p = {pair("name", {quoted(g, m.name)})};
    if(g.p(4, 5))
    {
        static const char* n[] = {"matte", "glossy", "metal", "glass"};
        m.type = (int)g.draw(3);
        p.push_back(pair("type", {n[m.type]}));
    }
    if(g.p(2, 3))
    {
        Number r = g.p(1, 8)?gen_number(g, -2, 3):gen_number(g, 0, 1);
        if(g.p(1, 8))
            r = written("0");
        if(r.value>0 && r.value<1e-3f) // the lobes are too narrow for single precision
            r = written("0.001");
        m.rough = r.value;
        p.push_back(pair("roughness", {r.text}));
    }
    if(g.p(1, 3))
    {
        Number r = g.p(1, 8)?gen_number(g, 0, 3):gen_number(g, 0, 1);
        if(g.p(1, 3))
            r = written(pbt::str(m.rough));
        if(r.value == -1)
            r = written("0.5");
        m.aniso = r.value;
        p.push_back(pair("anisotropy", {r.text}));
    }
    if(g.p(2, 3))
    {
        static const char* n[] = {"blinn", "beckmann", "ggx"};
        m.dist = (int)g.draw(2);
        p.push_back(pair("distribution", {n[m.dist]}));
    }
    if(g.p(1, 2))
    {
        m.ior_n = (int)g.draw(3)+1;
        if(m.ior_n == 4)
            m.ior_n = 6;
        Words w = {"ior", ":"};
        std::vector<Number> v;
        for(int k = 0; k<m.ior_n; k++)
        {
            v.push_back(k == 0?gen_number(g, 1.05, 2.5):m.ior_n == 6 && k>2?gen_number(g, 0.001, 0.03):gen_number(g, 0.001, 0.02));
            m.ior[k] = v.back().value;
        }
        if(m.ior_n == 1)
            w.push_back(v[0].text);
        else
            for(int k = 0; k<m.ior_n; k++)
            {
                w.push_back(k%3 == 0?"[":",");
                w.push_back(v[k].text);
                if(k%3 == 2 || k == m.ior_n-1)
                    w.push_back("]");
            }
        p.push_back(w);
    }
    if(g.p(1, 2))
        p.push_back(pair("diffuse", gen_colour(g, tex, m.diffuse)));
    if(g.p(1, 2))
        p.push_back(pair("specular", gen_colour(g, tex, m.specular)));
    if(g.p(1, 3))
    {
        m.normal = (int)g.draw(tex.size()-1);
        p.push_back(pair("normal", {quoted(g, tex[m.normal].ref)}));
    }
    if(g.p(1, 2))
    {
        static const char* n[] = {"Ag", "Al", "Au", "Cu", "Fe", "Hg", "Pb", "Pt", "W", "Be", "Bi", "Co", "Cr", "Ge", "K", "Li", "Mg", "Mn", "Mo", "Na", "Nb", "Ni", "Pd", "Rh", "Ta", "Ti", "V", "Zn", "Zr"};
        const metal_t e[] = {METAL_SILVER, METAL_ALUMINIUM, METAL_GOLD, METAL_COPPER, METAL_IRON, METAL_MERCURY, METAL_LEAD, METAL_PLATINUM, METAL_TUNGSTEN, METAL_BERYLLIUM, METAL_BISMUTH, METAL_COBALT, METAL_CHROMIUM, METAL_GERMANIUM, METAL_POTASSIUM, METAL_LITHIUM, METAL_MAGNESIUM, METAL_MANGANESE, METAL_MOLYBDENUM, METAL_SODIUM, METAL_NIOBIUM, METAL_NICKEL, METAL_PALLADIUM, METAL_RHODIUM, METAL_TANTALUM, METAL_TITANIUM, METAL_VANADIUM, METAL_ZINC, METAL_ZIRCONIUM};
        int k = (int)g.draw(28);
        m.element = e[k];
        std::string w = n[k];
        if(g.p(1, 4))
            for(char& c : w)
                c ^= g.b()?32:0;
        p.push_back(pair("element", {w}));
    }
    return pair("material", object(g, p));
}
const Texture* make(const Colour& c, const std::vector<Tex>& tex)
{
    if(c.uniform)
    {
        unsigned char b[3];
        for(int k = 0; k<3; k++)
            b[k] = (unsigned char)std::min(255.f, std::max(0.f, c.v[k]));
        return new TextureUniform(Spectrum(ColorRGB(b[0], b[1], b[2]), false));
    }
    if(c.tex<0 || tex[c.tex].path.empty())
        return TexLib.get_dflt_teximage(); // white
    return make(tex[c.tex]);
}
MicrofacetDist* lobes(const Mat& m, float rx, float ry, bool aniso)
{
    if(aniso)
        return new GGXaniso(rx, ry);
    if(m.dist == 0)
        return new Blinn(2.f/(rx*rx)-2);
    if(m.dist == 1)
        return new Beckmann(rx);
    return new GGXiso(rx);
}
Bsdf* make(const Mat& m, const std::vector<Tex>& tex)
{
    float rx = std::min(1.f, std::max(0.f, m.rough)), ry = m.aniso;
    bool aniso = ry != -1 && ry != rx;
    if(aniso)
    {
        rx = std::max(rx, 0.001f);
        ry = std::min(1.f, std::max(0.001f, ry));
    }
    Spectrum air = cauchy(1.f, 0.f), ior = m.ior_n == 0?cauchy(1.45f, 0.f):m.ior_n == 1?cauchy(m.ior[0], 0):m.ior_n == 2?cauchy(m.ior[0], m.ior[1]):
                                           m.ior_n == 3?cauchy(m.ior[0], m.ior[1], m.ior[2]):sellmeier(m.ior[0], m.ior[1], m.ior[2], m.ior[3], m.ior[4], m.ior[5]);
    Bsdf* b;
    if(m.type == T_MATTE)
        b = new SingleBRDF(rx == 0?(Bdf*)new Lambertian():(Bdf*)new OrenNayar(100*rx), make(m.diffuse, tex));
    else if(m.type == T_GLOSSY)
    {
        MultiBSDF* x = new MultiBSDF();
        x->inherit_bdf(new Lambertian(), make(m.diffuse, tex));
        x->inherit_bdf(new MicrofacetR(lobes(m, rx == 0?0.001f:rx, ry, aniso), new Dielectric(air, cauchy(1.5f, 0))), make(m.specular, tex));
        b = x;
    }
    else if(m.type == T_GLASS)
    {
        MultiBSDF* x = new MultiBSDF();
        if(rx == 0 && !aniso)
        {
            x->inherit_bdf(new Refraction(air, ior), make(m.diffuse, tex));
            x->inherit_bdf(new DielectricReflection(air, ior), make(m.specular, tex));
        }
        else
        {
            x->inherit_bdf(new MicrofacetT(lobes(m, rx, ry, aniso), air, ior), make(m.diffuse, tex));
            x->inherit_bdf(new MicrofacetR(lobes(m, rx, ry, aniso), new Dielectric(air, ior)), make(m.specular, tex));
        }
        b = x;
    }
    else
    {
        Spectrum n(METALS[m.element].n), k(METALS[m.element].k);
        if(rx == 0 && !aniso)
            b = new SingleBRDF(new ConductorReflection(n, k));
        else
            b = new SingleBRDF(new MicrofacetR(lobes(m, rx, ry, aniso), new Conductor(n, k)));
    }
    b->inherit_bump(m.normal<0 || tex[m.normal].path.empty()?new Bump():(Bump*)new TextureNormal(make(tex[m.normal])));
    return b;
}
struct Probe
{
    float uv[2], n[3], wo[3], wi[3], r[3], twist, d[4];
    bool diff, spec;
};
bool same(float a, float b)
{
    return (std::isnan(a) && std::isnan(b)) || a == b || pbt::near(a, b, 1e-5*(1+std::fabs(b)), 2e-3);
}
bool same(const Spectrum& a, const Spectrum& b)
{
    ColorXYZ x = a.to_xyz(), y = b.to_xyz();
    return same(x.r, y.r) && same(x.g, y.g) && same(x.b, y.b);
}
bool same(const D3& a, const D3& b) { return near3(a, b, 2e-4); }
std::string compare(const std::string& name, const Bsdf* got, const Bsdf* want, const std::vector<Probe>& probes)
{
    for(const Probe& p : probes)
    {
        HitPoint h;
        Normal n(p.n[0], p.n[1], p.n[2]);
        D3 z = D3(n).norm(), a = std::fabs(z.x)<0.7?D3(1, 0, 0):D3(0, 1, 0);
        D3 x = z.cross(a).norm(), y = z.cross(x);
        x = (x*std::cos((double)p.twist)+y*std::sin((double)p.twist)).norm();
        y = z.cross(x);
        h.point_h = Point3(0, 0, 0);
        h.normal_h = Normal((float)z.x, (float)z.y, (float)z.z);
        h.dpdu = Vec3((float)x.x, (float)x.y, (float)x.z);
        h.dpdv = Vec3((float)y.x, (float)y.y, (float)y.z);
        h.uv = Point2(p.uv[0], p.uv[1]);
        h.index = 0;
        h.differentials = p.diff;
        h.du = Vec2(p.d[0], p.d[1]);
        h.dv = Vec2(p.d[2], p.d[3]);
        Vec3 wo(p.wo[0], p.wo[1], p.wo[2]), wi(p.wi[0], p.wi[1], p.wi[2]);
        ShadingSpace ma, mb;
        Normal na, nb;
        got->gen_shading_matrix(&h, &ma, &na);
        want->gen_shading_matrix(&h, &mb, &nb);
        std::string where = pbt::str("the material ", name, " at uv ", p.uv[0], " ", p.uv[1], ": ");
        if(!same(D3(na), D3(nb)))
            return pbt::str(where, "the normal is ", D3(na), " instead of ", D3(nb));
        if(std::fabs(D3(nb).dot(D3(wo)))<1e-3 || std::fabs(D3(nb).dot(D3(wi)))<1e-3 || std::fabs(z.dot(D3(wo)))<1e-3 || std::fabs(z.dot(D3(wi)))<1e-3)
            continue; // the lobes of narrow facets are not representable at grazing angles
        Spectrum va = got->value(&wo, &h, &wi, &ma, p.spec), vb = want->value(&wo, &h, &wi, &mb, p.spec);
        if(!same(va, vb))
            return pbt::str(where, "the value is ", va.to_xyz().g, " instead of ", vb.to_xyz().g);
        float pa = got->pdf(&wo, &h, &ma, &wi, p.spec), pb = want->pdf(&wo, &h, &mb, &wi, p.spec);
        if(!same(pa, pb))
            return pbt::str(where, "the density is ", pa, " instead of ", pb);
        Vec3 wa(0.f), wb(0.f);
        bool sa = false, sb = false;
        pa = pb = 0;
        va = got->sample_value(p.r[0], p.r[1], p.r[2], &wo, &h, &ma, &wa, &pa, p.spec, &sa);
        vb = want->sample_value(p.r[0], p.r[1], p.r[2], &wo, &h, &mb, &wb, &pb, p.spec, &sb);
        if(!same(va, vb) || !same(pa, pb))
            return pbt::str(where, "a sample has value ", va.to_xyz().g, " and density ", pa, " instead of ", vb.to_xyz().g, " and ", pb);
        if(pb>0 && (!same(D3(wa), D3(wb)) || sa != sb))
            return pbt::str(where, "a sample goes to ", D3(wa), " instead of ", D3(wb));
    }
    return "";
}
std::vector<Probe> gen_probes(pbt::Gen& g, int n)
{
    std::vector<Probe> v;
    for(int k = 0; k<n; k++)
    {
        Probe p;
        p.uv[0] = g.f(-2, 2);
        p.uv[1] = g.f(-2, 2);
        g.dir(p.n, p.n+1, p.n+2);
        g.dir(p.wo, p.wo+1, p.wo+2);
        g.dir(p.wi, p.wi+1, p.wi+2);
        // mostly on the outside
        D3 nn(p.n[0], p.n[1], p.n[2]);
        for(float* w : {p.wo, p.wi})
            if(nn.dot(D3(w[0], w[1], w[2]))<0 && g.p(3, 4))
                for(int i = 0; i<3; i++)
                    w[i] = -w[i];
        for(int i = 0; i<3; i++)
            p.r[i] = g.f(0.01f, 0.99f);
        p.twist = g.f(0, 6);
        p.diff = g.b();
        for(int i = 0; i<4; i++)
            p.d[i] = g.f(-0.2f, 0.2f);
        p.spec = g.p(3, 4);
        v.push_back(p);
    }
    return v;
}
bool reported(const pbt::SubResult& r, const std::string& name)
{
    return r.err.find(name) != std::string::npos || r.out.find(name) != std::string::npos;
}
void fresh(const std::string& dir)
{
    pbt::scratch_clear();
    mkdir((dir+"/sub").c_str(), 0755);
}
}
#endif
