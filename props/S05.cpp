// flavours: rgb rgbT
// fuzz: props
// S05: geometry of OBJ files
#include "obj.hpp"

void pbt::suite_init()
{
    register_materials();
}
#ifdef TESTS
const int MAX_TRIS = 64; // limit of the test build
#else
const int MAX_TRIS = 400;
#endif

PROP(geometry, 40000, 800000, "texts of 1 to 6 objects named by o, g or not at all, polygons of 3 to 8 corners in all index styles, any layout and notation of numbers; non-trivial: 3 triangles or more")
{
    Obj o = gen_obj(g, 6, g.p(1, 8)?120:12, MAX_TRIS);
    size_t tris = 0;
    for(const ObjMesh& m : o.meshes)
        tris += m.tris.size();
    g.nontrivial(tris>=3);
    g.label(pbt::str(o.meshes.size(), " meshes"));
    if(g.verbose())
        g.note(o.text);
    std::string path = pbt::scratch()+"/a.obj";
    pbt::write_file(path, o.text);
    ParserObj p;
    std::vector<Parsed> res = import_obj(p, path, o.lines+1);
    check_import(g, res, o);
}

PROP(reuse, 16000, 300000, "several texts imported one after the other by the same importer, some missing; non-trivial: two texts or more with triangles")
{
    ParserObj p;
    int n = (int)g.size(1, 4), full = 0;
    for(int k = 0; k<n; k++)
    {
        std::string path = pbt::scratch()+"/a"+std::to_string(k)+".obj";
        if(g.p(1, 6))
        {
            std::vector<Parsed> res = import_obj(p, path+"x", 0);
            continue;
        }
        Obj o = gen_obj(g, 3, 6, MAX_TRIS);
        if(g.verbose())
            g.note("file ", k, "\n", o.text);
        full += !o.meshes.empty();
        pbt::write_file(path, o.text);
        std::vector<Parsed> res = import_obj(p, path, o.lines+1);
        check_import(g, res, o);
    }
    g.nontrivial(full>=2);
}
