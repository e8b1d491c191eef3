// Wavefront OBJ texts with the triangles they describe.
#ifndef VERIF_OBJ_HPP
#define VERIF_OBJ_HPP
#include "common.hpp"
#include "materials/bdf.hpp"
#include "materials/lambertian.hpp"
#include "materials/material_library.hpp"
#include "parsers/parser_obj.hpp"
#include "primitives/mesh.hpp"
#include <memory>

const char* const MATERIALS[] = {"Red", "Green", "m.01", "a_very_long_material_name-with-dashes"};

inline void register_materials()
{
    for(const char* n : MATERIALS)
        if(!MtlLib.contains(n))
            MtlLib.add_inherit(n, new SingleBRDF(new Lambertian()));
}

struct Corner
{
    Point3 p;
    D3 n;
    Point2 t;
};
struct ObjMesh
{
    std::string name;
    std::vector<std::array<Corner, 3>> tris;
    std::vector<std::string> materials; // one per triangle, "" for the default
};
struct Obj
{
    std::string text;
    std::vector<ObjMesh> meshes;
    int lines = 0;
};

// ------------------------------------------------------------- generation
inline std::string number(pbt::Gen& g, double lo, double hi, float* value)
{
    double v = lo+(hi-lo)*g.d01();
    char b[64];
    switch(g.draw(9))
    {
        case 0: snprintf(b, sizeof b, "%d", (int)std::lround(v)); break;
        case 1: snprintf(b, sizeof b, "%.6f", v); break;
        case 2: snprintf(b, sizeof b, "%.9g", v); break;
        case 3: snprintf(b, sizeof b, "%e", v); break;
        case 4: snprintf(b, sizeof b, "%.2f", v); break;
        case 5: snprintf(b, sizeof b, "%+.3f", v); break;
        case 6: snprintf(b, sizeof b, "%d.", (int)std::lround(v)); break;
        case 7: snprintf(b, sizeof b, "%s.%03d", v<0?"-":"", (int)(std::fabs(v)*37)%1000); break;
        case 8: snprintf(b, sizeof b, "%.3E", v); break;
        default: snprintf(b, sizeof b, "%.17f", v); break;
    }
    *value = strtof(b, NULL);
    return b;
}
struct ObjWriter
{
    pbt::Gen& g;
    Obj o;
    bool crlf, tabs, plain;
    std::vector<Point3> v;
    std::vector<Point2> t;
    std::vector<D3> n;
    std::string material;
    ObjWriter(pbt::Gen& gen) : g(gen)
    {
        plain = g.b(); // no decorations
        crlf = g.p(1, 4);
        tabs = g.p(1, 4);
    }
    std::string sep()
    {
        if(plain)
            return " ";
        std::string s;
        for(int k = (int)g.size(1, 3); k>0; k--)
            s += tabs && g.b()?"\t":" ";
        return s;
    }
    void line(const std::string& s)
    {
        if(!plain)
        {
            if(g.p(1, 8))
                o.text += sep();
            o.text += s;
            if(g.p(1, 6))
                o.text += sep();
            if(g.p(1, 12))
                o.text += sep()+"# "+g.ident(8)+" 1 2 3";
        }
        else
            o.text += s;
        o.text += crlf?"\r\n":"\n";
        o.lines++;
    }
    void noise()
    {
        if(plain)
            return;
        switch(g.draw(11))
        {
            case 0: line(""); break;
            case 1: line("# "+g.ident(30)); break;
            case 2: line("#"+std::string((size_t)g.size(1, 300), 'x')); break;
            case 3: line("s"+sep()+(g.b()?"off":"1")); break;
            case 4: line("mtllib"+sep()+g.ident(8)+".mtl"); break;
            case 5: line("vp"+sep()+"0.1"+sep()+"0.2"); break;
            case 6: line("l 1 2"); break;
            case 7: line("p 1"); break;
            default:break;
        }
    }
    void vertex()
    {
        float x, y, z;
        double s = g.pick({1., 10., 1000.});
        std::string l = "v"+sep()+number(g, -s, s, &x)+sep();
        l += number(g, -s, s, &y)+sep();
        l += number(g, -s, s, &z);
        if(g.p(1, 16))
            l += sep()+"1.0";
        v.push_back(Point3(x, y, z));
        line(l);
    }
    void texture()
    {
        float a, b = 0;
        std::string l = "vt"+sep()+number(g, -2, 2, &a);
        if(plain || !g.p(1, 16))
            l += sep()+number(g, -2, 2, &b);
        t.push_back(Point2(a, b));
        line(l);
    }
    void normal()
    {
        float x, y, z;
        D3 d;
        std::string l;
        l = "vn"+sep()+number(g, -1, 1, &x)+sep();
        l += number(g, -1, 1, &y)+sep();
        l += number(g, 0.1, 1, &z);
        if(D3(x, y, z).len()<0.05)
        {
            x = y = 0;
            z = 1;
            l = "vn 0 0 1";
        }
        n.push_back(D3(x, y, z));
        line(l);
    }
    template <typename T>
    std::string index(size_t k, const std::vector<T>& from)
    {
        if(g.p(1, 3))
            return "-"+std::to_string(from.size()-k);
        return std::to_string(k+1);
    }
    void face(ObjMesh& m, int max_corners)
    {
        int style = (int)g.draw(3);
        if(style&1)
            while(t.empty() || g.p(1, 4))
                texture();
        if(style&2)
            while(n.empty() || g.p(1, 4))
                normal();
        while(v.size()<3 || g.p(2, 3))
            vertex();
        int corners = 3+(int)g.size(0, max_corners-3);
        std::vector<Corner> c;
        std::string l = "f";
        for(int k = 0; k<corners; k++)
        {
            Corner x;
            // mostly different vertices
            size_t iv = g.p(3, 4)?(v.size()*2-1-(size_t)k-g.draw(2))%v.size():g.draw(v.size()-1);
            x.p = v[iv];
            l += sep()+index(iv, v);
            if(style&1)
            {
                size_t it = g.draw(t.size()-1);
                x.t = t[it];
                l += "/"+index(it, t);
            }
            if(style&2)
            {
                size_t in = g.draw(n.size()-1);
                x.n = n[in];
                l += (style&1?"/":"//")+index(in, n);
            }
            c.push_back(x);
        }
        line(l);
        if(!(style&2))
        {
            // the normal of the face, which the first corners give
            D3 f;
            for(int k = 2; k<corners && f.len() == 0; k++)
            {
                Vec3 a = c[k-1].p-c[0].p, b = c[k].p-c[0].p;
                Vec3 x = cross(a, b);
                f = D3(x);
            }
            for(Corner& x : c)
                x.n = f.len()>0?f.norm():f;
        }
        for(int k = 2; k<corners; k++)
        {
            std::array<Corner, 3> tri = {{c[0], c[k-1], c[k]}};
            if(!(style&1))
            {
                tri[0].t = Point2(0, 0);
                tri[1].t = Point2(1, 0);
                tri[2].t = Point2(1, 1);
            }
            m.tris.push_back(tri);
            m.materials.push_back(material);
        }
    }
    void use_material()
    {
        int k = (int)g.draw(5);
        std::string name = k<4?MATERIALS[k]:k == 4?"Default":"no_"+g.ident(10);
        material = MtlLib.contains(name) && k<4?name:"";
        line("usemtl"+sep()+name);
    }
};
// objects named by o (with or without groups), by g, or not named at all
inline Obj gen_obj(pbt::Gen& g, int max_objects, int max_faces, int max_tris)
{
    ObjWriter w(g);
    int naming = (int)g.draw(3); // 0 o, 1 g, 2 none, 3 o with groups
    int objects = naming == 2?1:(int)g.size(1, max_objects);
    for(int k = 0; k<objects; k++)
    {
        ObjMesh m;
        w.noise();
        if(naming != 2)
        {
            m.name = (g.b()?"":g.ident(20))+"obj"+std::to_string(k);
            // vertices may also come before the name of their object
            while(g.p(1, 3))
                w.vertex();
            w.line((naming == 1?"g":"o")+w.sep()+m.name);
        }
        else
            m.name = "Unnamed";
        int faces = (int)g.size(g.p(1, 8)?0:1, max_faces);
        for(int f = 0; f<faces && (int)m.tris.size()+6<=max_tris; f++)
        {
            w.noise();
            if(g.p(1, 4))
                w.use_material();
            if(naming == 3 && g.p(1, 4))
                w.line("g"+w.sep()+g.ident(6));
            w.face(m, 8);
        }
        if(!m.tris.empty())
            w.o.meshes.push_back(m);
    }
    w.noise();
    if(g.p(1, 3)) // no newline at the end
        while(!w.o.text.empty() && (w.o.text.back() == '\n' || w.o.text.back() == '\r'))
            w.o.text.pop_back();
    return w.o;
}

// -------------------------------------------------------------- observation
struct Parsed
{
    std::string name;
    std::unique_ptr<Mesh> mesh;
    std::vector<const Bsdf*> materials; // one per face
};
// imports the whole file with the given parser
inline std::vector<Parsed> import_obj(ParserObj& p, const std::string& path, size_t limit)
{
    std::vector<Parsed> res;
    p.start_parsing(path.c_str());
    Mesh* m = new Mesh(1);
    while(p.get_next_mesh(m))
    {
        Parsed x;
        x.mesh.reset(m);
        x.name = p.get_mesh_name();
        size_t faces = p.get_face_no();
        std::vector<const Bsdf*> mats(std::max<size_t>(p.get_material_no(), 1));
        std::vector<unsigned char> assoc(faces+1);
        p.get_materials(mats.data());
        p.get_material_association(assoc.data());
        for(size_t k = 0; k<faces; k++)
        {
            CHECK(assoc[k]<p.get_material_no(), "face ", k, " of ", x.name, " uses material ", (int)assoc[k], " of ", (int)p.get_material_no());
            x.materials.push_back(mats[assoc[k]]);
        }
        res.push_back(std::move(x));
        CHECK(res.size()<=limit, "more meshes than lines in the file");
        m = new Mesh(1);
    }
    delete m;
    p.end_parsing();
    return res;
}
inline std::unique_ptr<Mesh> reference(const ObjMesh& m)
{
    std::unique_ptr<Mesh> r(new Mesh((unsigned)m.tris.size()));
    for(const auto& t : m.tris)
    {
        Vertex x[3];
        for(int k = 0; k<3; k++)
        {
            x[k].p = t[k].p;
            x[k].n = Normal((float)t[k].n.x, (float)t[k].n.y, (float)t[k].n.z);
            x[k].t = t[k].t;
        }
        r->add_triangle(&x[0], &x[1], &x[2]);
    }
    r->finalize();
    return r;
}
// the first n triangles of a and b: positions by sampling, coordinates by rays
inline void compare(pbt::Gen& g, const Mesh& a, const Mesh& b, const ObjMesh& m)
{
    size_t n = m.tris.size();
    CHECK((size_t)a.get_faces_number() == n, m.name, " has ", a.get_faces_number(), " triangles instead of ", n);
    Matrix4 id;
    id.set_identity();
    std::vector<float> da(n), db(n);
    a.get_densities_array(&id, da.data());
    b.get_densities_array(&id, db.data());
    double total = db[n-1];
    for(size_t k = 0; k<n; k++)
        CHECK(pbt::near(da[k], db[k], 1e-5*total), m.name, ": area up to triangle ", k, " ", da[k], " instead of ", db[k]);
    AABB ba = a.compute_AABB(), bb = b.compute_AABB();
    double span = std::max(D3(bb.bounds[0]).maxabs(), D3(bb.bounds[1]).maxabs())+1e-6;
    for(int k = 0; k<2; k++)
        CHECK(near3(D3(ba.bounds[k]), D3(bb.bounds[k]), span*1e-6), m.name, ": box ", D3(ba.bounds[k]), " instead of ", D3(bb.bounds[k]));
    if(!(total>0))
        return;
    // interior points of a triangle are weighted sums of its corners: a few
    // samples per triangle tell the corners and their order
    size_t rounds = std::min<size_t>(n*4, 200);
    for(size_t k = 0; k<rounds; k++)
    {
        size_t tri = k/4%n;
        float lo = tri?db[tri-1]:0, hi = db[tri];
        if(!(hi-lo>total*1e-3))
            continue;
        float r0 = (float)((lo+(hi-lo)*(0.1+0.2*(double)(k%4)))/total), r1 = g.unit_plain();
        Point3 pa, pb;
        Normal na, nb;
        a.sample_point(r0, r1, db.data(), &pa, &na);
        b.sample_point(r0, r1, db.data(), &pb, &nb);
        CHECK(near3(D3(pa), D3(pb), span*1e-5), m.name, ": triangle ", tri, " passes through ", D3(pa), " instead of ", D3(pb));
        CHECK(near3(D3(na), D3(nb), 2e-3), m.name, ": triangle ", tri, " has normal ", D3(na), " instead of ", D3(nb), " at ", D3(pb));
    }
    // rays towards the middle of triangles
    for(size_t k = 0; k<std::min<size_t>(n, 60); k++)
    {
        const auto& t = m.tris[k];
        D3 p0(t[0].p), p1(t[1].p), p2(t[2].p);
        D3 c = p0*0.5+p1*0.3+p2*0.2, nn = (p1-p0).cross(p2-p0);
        if(nn.len()<1e-3*(p1-p0).len()*(p2-p0).len() || nn.len() == 0)
            continue;
        nn = nn.norm();
        D3 o = c+nn*(0.1*span);
        Ray r(Point3((float)o.x, (float)o.y, (float)o.z), Vec3((float)-nn.x, (float)-nn.y, (float)-nn.z));
        HitPoint ha, hb;
        float fa = FLT_MAX, fb = FLT_MAX;
        MaskBoolean mask;
        bool ra = a.intersect(&r, &fa, &ha, &mask), rb = b.intersect(&r, &fb, &hb, &mask);
        CHECK(ra == rb, m.name, ": ray towards triangle ", k, ra?" hits":" misses");
        if(!rb)
            continue;
        CHECK(pbt::near(fa, fb, span*1e-5), m.name, ": ray towards triangle ", k, " hits at ", fa, " instead of ", fb);
        CHECK(ha.index == hb.index, m.name, ": ray towards triangle ", k, " hits triangle ", ha.index, " instead of ", hb.index);
        CHECK(pbt::near(ha.uv.x, hb.uv.x, 1e-4) && pbt::near(ha.uv.y, hb.uv.y, 1e-4), m.name, ": triangle ", hb.index, " has coordinates ", ha.uv, " instead of ", hb.uv);
        if(D3(hb.normal_h).len()>0.5)
            CHECK(near3(D3(ha.normal_h), D3(hb.normal_h), 2e-3), m.name, ": triangle ", hb.index, " has normal ", D3(ha.normal_h), " instead of ", D3(hb.normal_h));
    }
}
inline void check_import(pbt::Gen& g, const std::vector<Parsed>& res, const Obj& o)
{
    for(size_t k = 0; k<std::min(res.size(), o.meshes.size()); k++)
    {
        const ObjMesh& m = o.meshes[k];
        CHECK(res[k].name == m.name, "mesh ", k, " is named ", res[k].name, " instead of ", m.name);
        CHECK(res[k].materials.size() == m.tris.size(), m.name, " reports ", res[k].materials.size(), " faces instead of ", m.tris.size());
        for(size_t f = 0; f<m.tris.size(); f++)
        {
            const Bsdf* want = m.materials[f].empty()?MtlLib.get_default():MtlLib.get(m.materials[f]);
            CHECK(res[k].materials[f] == want, "face ", f, " of ", m.name, " does not use material ", m.materials[f].empty()?"Default":m.materials[f].c_str());
        }
        std::unique_ptr<Mesh> ref = reference(m);
        compare(g, *res[k].mesh, *ref, m);
    }
    CHECK(res.size() == o.meshes.size(), "the file describes ", o.meshes.size(), " meshes, ", res.size(), " were imported");
}
#endif
