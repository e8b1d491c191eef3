// flavours: rgb rgbT
// fuzz: survives
// fuzzT: survives
// S06: any bytes as OBJ file, any position of the buffer
#include "obj.hpp"

void pbt::suite_init()
{
    register_materials();
}
#ifdef TESTS
const int MAX_TRIS = 64; // limit of the test build
#else
const int MAX_TRIS = 200;
#endif

static void mutate(pbt::Gen& g, std::string& s)
{
    int n = (int)g.size(0, 6);
    for(int k = 0; k<n && !s.empty(); k++)
    {
        size_t at = g.draw(s.size()-1);
        switch(g.draw(6))
        {
            case 0: s[at] = (char)g.draw(255); break;
            case 1: s.resize(at); break;
            case 2: s.erase(at, g.size(1, 16)); break;
            case 3: s.insert(at, g.bytes(12)); break;
            case 4: s.insert(at, s.substr(g.draw(s.size()-1), g.size(1, 64))); break;
            default:
                s.insert(at, g.pick<std::string>(std::vector<std::string>{
                        "\n", " ", "\t", "\r", "f", "\nf ", "\nf 1", "\nf 1 2", "\nf 1 2 3", "\nf 1/1/1 2/2/2 3/3/3\n", "\nf 0 0 0\n", "\nf -1 -2 -3\n",
                        "\nf -9999 1 2\n", "\nf 1 2 99999999999\n", "\nf 1/ 2/ 3/\n", "\nf 1// 2// 3//\n", "\nf 1//9 2//-9 3//1\n", "\nf a b c\n", "\nf /1 /2 /3\n",
                        "\nv\n", "\nv 1\n", "\nv nan nan nan\n", "\nv 1e39 -1e39 0\n", "\nv 1e30 1e30 1e30\n", "\nvn 0 0 0\n", "\nvt\n", "\no\n", "\ng\n", "\no a\n", "\ng a\n",
                        "\nusemtl\n", "\nusemtl Red\n", "\x07", "\x07\n", std::string("\0", 1), "\xff", "#", "\\\n", "-2147483648", "/", "//", "1e400", "0x10",
                        std::string(300, 'a'), std::string(5000, ' '), std::string(300, '\n')}));
        }
    }
}
// everything a parsed mesh shows, as text
static std::string digest(const std::vector<Parsed>& v)
{
    std::string s;
    for(const Parsed& p : v)
    {
        s += pbt::str(p.name, " ", p.mesh->get_faces_number(), " ", p.materials.size(), "\n");
        for(const Bsdf* b : p.materials)
        {
            int k = 0;
            while(k<4 && MtlLib.get(MATERIALS[k]) != b)
                k++;
            s += (char)('0'+k);
        }
        AABB box = p.mesh->compute_AABB();
        s += pbt::str("\n", D3(box.bounds[0]), D3(box.bounds[1]), "\n");
        size_t n = (size_t)p.mesh->get_faces_number();
        Matrix4 id;
        id.set_identity();
        std::vector<float> d(n+1);
        p.mesh->get_densities_array(&id, d.data());
        for(size_t k = 0; k<n; k++)
            s += pbt::str(d[k], " ");
        if(n>0 && d[n-1]>0 && d[n-1]<1e30f)
            for(int k = 0; k<16; k++)
            {
                Point3 q;
                Normal m;
                p.mesh->sample_point((float)(k+0.5f)/16.f, 0.3f, d.data(), &q, &m);
                s += pbt::str(D3(q), D3(m), "\n");
            }
    }
    return s;
}
const char* const GOOD = "o good\nv 0 0 0\nv 1 0 0\nv 0 1 0\nusemtl Green\nf 1 2 3\n";

static void survive(pbt::Gen& g, const std::string& s)
{
    std::string path = pbt::scratch()+"/a.obj";
    pbt::write_file(path, s);
    size_t lines = (size_t)std::count(s.begin(), s.end(), '\n')+2;
    ParserObj p;
    std::vector<Parsed> res = import_obj(p, path, lines);
    for(const Parsed& x : res)
    {
        CHECK(x.mesh->get_faces_number()>0, "a mesh without triangles was returned");
        // and the mesh can be used
        Ray r(Point3(0.1f, 0.2f, -5.f), Vec3(0, 0, 1));
        HitPoint h;
        float d = FLT_MAX;
        MaskBoolean mask;
        x.mesh->intersect(&r, &d, &h, &mask);
    }
    g.label(pbt::str(std::min<size_t>(res.size(), 3), " meshes"));
    // the importer is usable afterwards
    pbt::write_file(path, GOOD);
    res = import_obj(p, path, 8);
    CHECK(res.size() == 1 && res[0].name == "good" && res[0].mesh->get_faces_number() == 1, "a good file is not imported after ", pbt::str(s.size()), " arbitrary bytes: ", res.size(), " meshes");
    CHECK(pbt::near(res[0].mesh->surface(), 0.5, 1e-5) && res[0].materials[0] == MtlLib.get("Green"), "a good file is imported wrong after arbitrary bytes");
}

PROP(survives, 60000, 1000000, "good texts with up to 6 bytes, stretches or statements changed, removed or inserted, and arbitrary bytes; the importer is then given a good file; non-trivial: 20 bytes or more")
{
    std::string s;
    if(g.p(1, 6))
        s = g.bytes(200);
    else
    {
        s = gen_obj(g, 3, 5, MAX_TRIS).text;
        mutate(g, s);
    }
    g.nontrivial(s.size()>=20);
    if(g.verbose())
        g.note(s);
    survive(g, s);
}

PROP(buffering, 20000, 300000, "the same text, good or damaged, behind a comment of 0 to 9000 bytes which moves every byte to another place of the read buffer; non-trivial: a text of 20 bytes or more with a mesh")
{
    std::string s = gen_obj(g, 4, 12, MAX_TRIS).text;
    if(g.b())
        mutate(g, s);
    size_t pad = g.b()?g.draw(9000):4096-std::min<size_t>(4095, g.draw(s.size()+2));
    std::string moved = "#"+std::string(pad, '.')+"\n"+s;
    if(g.verbose())
        g.note(pad, " bytes before\n", s);
    size_t lines = (size_t)std::count(s.begin(), s.end(), '\n')+3;
    std::string a = pbt::scratch()+"/a.obj", b = pbt::scratch()+"/b.obj";
    pbt::write_file(a, s);
    pbt::write_file(b, moved);
    ParserObj p, q;
    std::vector<Parsed> ra = import_obj(p, a, lines);
    std::string da = digest(ra), db = digest(import_obj(q, b, lines));
    g.nontrivial(s.size()>=20 && !ra.empty());
    CHECK(da == db, "the result depends on the position in the file: a comment of ", pad, " bytes before it turns\n", da.substr(0, 400), "\ninto\n", db.substr(0, 400));
}
