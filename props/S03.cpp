// flavours: rgb spec
// S03: materials, shapes, worlds and lights of scene files
#include "world.hpp"

PROP(materials, 1500, 40000, "scene files with textures, materials of every type and dual materials in any order, names of missing textures and materials included: every material in the library behaves (shading frame, value, density, sample) like one built directly from the written values, and every missing name is reported; non-trivial: a material that is not a plain matte one")
{
    std::string dir = pbt::scratch();
    fresh(dir);
    std::vector<Words> stmts;
    std::vector<Tex> tex = gen_textures(g, dir, stmts, false);
    std::vector<Mat> mats;
    std::vector<std::string> missing;
    int n = (int)g.size(1, 4);
    bool interesting = false;
    std::vector<Words> written;
    for(int k = 0; k<n; k++)
    {
        Mat m;
        m.name = material_name(g, k);
        stmts.push_back(gen_material(g, tex, m));
        written.push_back(stmts.back());
        interesting = interesting || m.type != T_MATTE || m.rough>0 || m.normal>=0;
        mats.push_back(m);
    }
    // a second definition of a name
    int twice = -1;
    Mat other;
    if(g.p(1, 4))
    {
        twice = (int)g.draw(n-1);
        other.name = mats[twice].name;
        stmts.push_back(gen_material(g, tex, other));
        written.push_back(stmts.back());
    }
    int duals = (int)g.size(0, 2);
    for(int k = 0; k<duals; k++)
    {
        Mat m;
        m.dual = true;
        m.name = pbt::str("dual", k);
        std::vector<Words> p = {pair("name", {quoted(g, m.name)})};
        for(std::string* s : {&m.first, &m.second})
        {
            if(g.p(1, 8))
                continue;
            *s = g.p(1, 6)?std::string("no such material"):mats[g.draw(n-1)].name;
            if(*s == "no such material")
                missing.push_back(*s);
            p.push_back(pair(s == &m.first?"first":"second", {quoted(g, *s)}));
        }
        m.mask = gen_mask(g, tex, p);
        if(m.mask.tex>=0 && tex[m.mask.tex].path.empty())
            missing.push_back(tex[m.mask.tex].ref);
        stmts.push_back(pair("dualmaterial", object(g, p)));
        mats.push_back(m);
        interesting = true;
    }
    shuffle(g, stmts);
    if(twice>=0)
    {
        // the first one stays
        if(std::find(stmts.begin(), stmts.end(), written[n])<std::find(stmts.begin(), stmts.end(), written[twice]))
            mats[twice] = other;
        missing.push_back(other.name);
    }
    for(int k = 0; k<n; k++)
    {
        const Mat& m = mats[k];
        for(int t : {m.type == T_METAL?-1:m.diffuse.tex, m.type == T_METAL?-1:m.specular.tex, m.normal})
            if(t>=0 && tex[t].path.empty())
                missing.push_back(tex[t].ref);
    }
    g.nontrivial(interesting);
    std::string text = layout(g, stmts);
    g.note(text);
    pbt::write_file(dir+"/scene.txt", text);
    std::vector<Probe> probes = gen_probes(g, 5);
    pbt::SubResult r = pbt::run_sub([&]() -> std::string
    {
        Scene sc;
        ConfigDriver driver;
        if(driver.parse(dir+"/scene.txt", &sc) == NULL)
            return "parse returns no renderer";
        std::map<std::string, const Bsdf*> want;
        for(const Mat& m : mats)
        {
            if(!MtlLib.contains(m.name) || MtlLib.get(m.name) == NULL)
                return "there is no material named "+m.name;
            if(m.dual)
            {
                const Bsdf* a = want.count(m.first)?want[m.first]:MtlLib.get_default();
                const Bsdf* b = want.count(m.second)?want[m.second]:MtlLib.get_default();
                want[m.name] = new DualBsdf(a, b, make(m.mask, tex));
            }
            else
                want[m.name] = make(m, tex);
            std::string e = compare(m.name, MtlLib.get(m.name), want[m.name], probes);
            if(!e.empty())
                return e;
        }
        return "";
    });
    CHECK(r.finished, "the scene is not accepted: ", r.what(), " ", r.err.substr(0, 400));
    CHECK(r.payload.empty(), r.payload);
    for(const std::string& s : missing)
        CHECK(reported(r, s), "the missing name ", s, " is not reported");
}

namespace
{
// ---------------------------------------------------------------- instances
struct Shape3
{
    std::string name;
    std::vector<std::array<D3, 3>> tris;
    std::vector<std::string> mats;
    bool ball = false;
    int file = -1;
};
struct Inst
{
    int shape = -1;
    std::string material; // overriding
    bool over = false, light = false, hidden = false;
    int kelvin = -1;
    float colour[3] = {255, 255, 255};
    double m[3][3];
    D3 t;
    D3 point(const D3& p) const { return D3(m[0][0]*p.x+m[0][1]*p.y+m[0][2]*p.z, m[1][0]*p.x+m[1][1]*p.y+m[1][2]*p.z, m[2][0]*p.x+m[2][1]*p.y+m[2][2]*p.z)+t; }
};
void rotate(double (*m)[3], int axis, double deg)
{
    double c = std::cos(deg*M_PI/180), s = std::sin(deg*M_PI/180);
    int i = (axis+1)%3, j = (axis+2)%3;
    for(int k = 0; k<3; k++)
    {
        double a = m[i][k], b = m[j][k];
        m[i][k] = c*a-s*b;
        m[j][k] = s*a+c*b;
    }
}
struct Line
{
    D3 o, d;
};
struct Answer
{
    double t = 1e30;
    int inst = -1, tri = 0;
    bool vague = false;
};
void offer(Answer& a, double t, int inst, int tri, double clear)
{
    if(t<-0.05)
        return;
    if(clear<0)
    {
        if(clear>-2e-3 && t<a.t+0.05)
            a.vague = true;
        return;
    }
    if(clear<2e-3 && t<a.t+0.05)
        a.vague = true;
    if(t<a.t)
    {
        if(a.t-t<0.02)
            a.vague = true;
        a.t = t;
        a.inst = inst;
        a.tri = tri;
    }
    else if(t-a.t<0.02)
        a.vague = true;
}
Answer trace(const Line& l, const std::vector<Inst>& inst, const std::vector<Shape3>& shapes)
{
    Answer a;
    for(size_t k = 0; k<inst.size(); k++)
    {
        const Inst& w = inst[k];
        if(w.shape<0 || w.hidden)
            continue;
        const Shape3& s = shapes[w.shape];
        if(s.ball)
        {
            // into the space of the ball: solve m x = p
            double det = w.m[0][0]*(w.m[1][1]*w.m[2][2]-w.m[1][2]*w.m[2][1])-w.m[0][1]*(w.m[1][0]*w.m[2][2]-w.m[1][2]*w.m[2][0])+w.m[0][2]*(w.m[1][0]*w.m[2][1]-w.m[1][1]*w.m[2][0]);
            auto solve = [&](const D3& p)
            {
                D3 c0(w.m[0][0], w.m[1][0], w.m[2][0]), c1(w.m[0][1], w.m[1][1], w.m[2][1]), c2(w.m[0][2], w.m[1][2], w.m[2][2]);
                return D3(p.dot(c1.cross(c2))/det, p.dot(c2.cross(c0))/det, p.dot(c0.cross(c1))/det);
            };
            D3 o = solve(l.o-w.t), d = solve(l.d);
            double A = d.dot(d), B = o.dot(d), C = o.dot(o)-1, D = B*B-A*C;
            double gap = (o-d*(B/A)).len(); // distance of the line from the centre
            if(gap>1)
            {
                if(gap<1.01)
                    offer(a, -B/A, (int)k, 0, -1e-3);
                continue;
            }
            double clear = 1-gap;
            offer(a, (-B-std::sqrt(D))/A, (int)k, 0, clear);
            continue;
        }
        for(size_t q = 0; q<s.tris.size(); q++)
        {
            D3 p0 = w.point(s.tris[q][0]), e1 = w.point(s.tris[q][1])-p0, e2 = w.point(s.tris[q][2])-p0;
            D3 h = l.d.cross(e2);
            double det = e1.dot(h), area = e1.cross(e2).len();
            if(std::fabs(det)<0.03*area) // edge on
            {
                D3 n = e1.cross(e2).norm();
                if(std::fabs(n.dot(l.o-p0))<0.5*e1.len()+0.5*e2.len()+1)
                    a.vague = true;
                continue;
            }
            D3 sv = l.o-p0;
            double u = sv.dot(h)/det;
            D3 qv = sv.cross(e1);
            double v = l.d.dot(qv)/det, t = e2.dot(qv)/det;
            offer(a, t, (int)k, (int)q, std::min(std::min(u, v), 1-u-v));
        }
    }
    return a;
}
}

PROP(instances, 2500, 60000, "scene files with OBJ files of several objects, materials, masks, worlds and lights in any order, names of missing shapes, materials and masks included; rays aimed at the instances hit the surface, the material and the emission that the entries describe, computed in double precision; the number of instances is that of the entries with an existing shape, and missing names are reported; non-trivial: at least two instances or a mask")
{
    std::string dir = pbt::scratch();
    fresh(dir);
    std::vector<Words> stmts;
    std::vector<Tex> tex = gen_textures(g, dir, stmts, true);
    std::vector<std::string> mats, missing;
    int nm = (int)g.size(0, 3);
    for(int k = 0; k<nm; k++)
    {
        mats.push_back(pbt::str("mat", k));
        stmts.push_back(pair("material", object(g, {pair("name", {quoted(g, mats.back())})})));
    }
    mats.push_back("absent material");
    std::vector<Shape3> shapes(1);
    shapes[0].name = "Sphere";
    shapes[0].ball = true;
    int files = (int)g.size(0, 2);
    std::vector<Words> sources;
    for(int f = 0; f<files; f++)
    {
        std::string obj;
        int objects = (int)g.size(1, 3), verts = 0;
        std::string current;
        for(int o = 0; o<objects; o++)
        {
            Shape3 s;
            s.file = f;
            s.name = pbt::str(g.pick({"box", "Obj_", "a.b"}), f, o);
            if(shapes.size()>1 && g.p(1, 8)) // defined already
            {
                s.name = shapes[1+g.draw(shapes.size()-2)].name;
                missing.push_back(s.name);
            }
            obj += "o "+s.name+"\n";
            int nt = (int)g.size(1, 4);
            for(int q = 0; q<nt; q++)
            {
                std::array<D3, 3> t;
                D3 c(g.i(-100, 100)/100., g.i(-100, 100)/100., g.i(-100, 100)/100.);
                t[0] = c;
                t[1] = D3(g.i(-100, 100)/100., g.i(-100, 100)/100., g.i(-100, 100)/100.);
                t[2] = D3(g.i(-100, 100)/100., g.i(-100, 100)/100., g.i(-100, 100)/100.);
                D3 e = t[1]-t[0], e2 = t[2]-t[0];
                if(e.cross(e2).len()<0.3)
                {
                    t[1] = t[0]+D3(1, 0, 0.25);
                    t[2] = t[0]+D3(0, 1, 0.5);
                }
                for(int i = 0; i<3; i++)
                    obj += pbt::str("v ", t[i].x, " ", t[i].y, " ", t[i].z, "\n");
                if(g.p(1, 3))
                {
                    current = mats[g.draw(mats.size()-1)];
                    if(current != "absent material")
                        obj += "usemtl "+current+"\n";
                    else
                        obj += "usemtl absent_mtl\n";
                }
                obj += pbt::str("f ", verts+1, " ", verts+2, " ", verts+3, "\n");
                verts += 3;
                s.tris.push_back(t);
                s.mats.push_back(current == "absent material"?"":current);
            }
            shapes.push_back(s);
        }
        std::string rel = pbt::str(g.b()?"sub/":"", "model", f, ".obj");
        pbt::write_file(dir+"/"+rel, obj);
        g.note(obj);
        stmts.push_back(pair("shape", {quoted(g, g.b()?rel:dir+"/"+rel)}));
        sources.push_back(stmts.back());
    }
    if(g.p(1, 5))
    {
        stmts.push_back(pair("shape", {quoted(g, g.pick({"gone.obj", "sub", "sub/gone.obj"}))}));
    }
    std::vector<Inst> inst;
    bool masked = false;
    int n = (int)g.size(1, 5), alive = 0, lights = 0;
    for(int k = 0; k<n; k++)
    {
        Inst w;
        std::vector<Words> p;
        w.light = g.p(1, 3);
        std::string name;
        if(g.p(1, 6))
            name = g.pick({"nobody", "sphere", "Sphere ", "model0.obj"});
        else
        {
            w.shape = (int)g.draw(shapes.size()-1);
            name = shapes[w.shape].name;
        }
        if(w.shape<0)
            missing.push_back(name);
        p.push_back(pair("name", {quoted(g, name)}));
        for(int i = 0; i<3; i++)
            for(int j = 0; j<3; j++)
                w.m[i][j] = i == j;
        if(g.p(2, 3))
        {
            if(g.b())
            {
                Number s = gen_number(g, 0.4, 3);
                for(int i = 0; i<3; i++)
                    w.m[i][i] = s.value;
                p.push_back(pair("scale", {s.text}));
            }
            else
            {
                Triple s = gen_triple(g, 0.4, 3);
                for(int i = 0; i<3; i++)
                    w.m[i][i] = s.v[i];
                p.push_back(pair("scale", s.words));
            }
        }
        if(g.p(2, 3))
        {
            Triple s = g.b()?gen_triple(g, -360, 360):triple(written(g.pick({"0", "90", "-45"})), written(g.pick({"0", "90", "30"})), written(g.pick({"0", "90", "180"})));
            for(int a = 0; a<3; a++)
                rotate(w.m, a, s.v[a]);
            p.push_back(pair("rotation", s.words));
        }
        if(g.p(3, 4))
        {
            Triple s = gen_triple(g, -6, 6);
            w.t = D3(s.v[0], s.v[1], s.v[2]);
            p.push_back(pair("position", s.words));
        }
        if(w.light)
        {
            if(g.b())
            {
                w.kelvin = (int)g.i(1000, 12000);
                p.push_back(pair("temperature", {std::to_string(w.kelvin)}));
            }
            else if(g.b())
            {
                Triple c = g.p(1, 4)?gen_triple(g, -100, 500):gen_triple(g, 0, 255);
                for(int i = 0; i<3; i++)
                    w.colour[i] = c.v[i];
                p.push_back(pair("color", c.words));
            }
        }
        else
        {
            if(g.b())
            {
                w.over = true;
                w.material = mats[g.draw(mats.size()-1)];
                p.push_back(pair("material", {quoted(g, w.material)}));
                if(w.material == "absent material" && w.shape>=0)
                    missing.push_back(w.material);
            }
            size_t before = p.size();
            if(g.p(1, 3))
            {
                Mask m = gen_mask(g, tex, p);
                if(p.size()>before)
                {
                    masked = true;
                    const Tex& t = tex[m.tex];
                    if(!t.path.empty())
                    {
                        int v = m.chan == RED?red(t.colour):m.chan == GREEN?green(t.colour):m.chan == BLUE?blue(t.colour):alpha(t.colour);
                        w.hidden = (v<128) != m.inv;
                    }
                    else if(w.shape>=0)
                        missing.push_back(t.ref);
                }
            }
        }
        if(w.shape>=0)
        {
            alive++;
            lights += w.light;
        }
        stmts.push_back(pair(w.light?"light":"world", object(g, p, true)));
        inst.push_back(w);
    }
    shuffle(g, stmts);
    // of several shapes with a name the first one stays
    auto rank = [&](int k) { return shapes[k].file<0?-1:(int)(std::find(stmts.begin(), stmts.end(), sources[shapes[k].file])-stmts.begin()); };
    for(Inst& w : inst)
        for(int k = 0; w.shape>=0 && k<(int)shapes.size(); k++)
            if(shapes[k].name == shapes[w.shape].name && (rank(k)<rank(w.shape) || (rank(k) == rank(w.shape) && k<w.shape)))
                w.shape = k;
    g.nontrivial(alive>=2 || masked);
    std::string text = layout(g, stmts);
    g.note(text);
    pbt::write_file(dir+"/scene.txt", text);
    std::vector<Line> rays;
    for(int k = 0; k<12; k++)
    {
        const Inst& w = inst[g.draw(inst.size()-1)];
        D3 at(g.f(-0.6f, 0.6f), g.f(-0.6f, 0.6f), g.f(-0.6f, 0.6f));
        if(w.shape>=0 && !shapes[w.shape].ball)
        {
            const std::array<D3, 3>& t = shapes[w.shape].tris[g.draw(shapes[w.shape].tris.size()-1)];
            float a = g.f(0.05f, 0.9f), b = g.f(0.02f, 0.95f-a);
            at = t[0]*(1-a-b)+t[1]*a+t[2]*b;
        }
        at = w.point(at);
        float d[3];
        g.dir(d, d+1, d+2);
        Line l;
        l.d = D3((float)d[0], (float)d[1], (float)d[2]).norm();
        D3 o = at-l.d*(g.b()?25.:40.);
        Point3 q((float)o.x, (float)o.y, (float)o.z);
        l.o = D3(q);
        rays.push_back(l);
    }
    pbt::SubResult r = pbt::run_sub([&]() -> std::string
    {
        Scene sc;
        ConfigDriver driver;
        if(driver.parse(dir+"/scene.txt", &sc) == NULL)
            return "parse returns no renderer";
        if((int)sc.size_assets() != alive)
            return pbt::str("the scene has ", sc.size_assets(), " instances instead of ", alive);
        if((int)sc.size_lights() != lights)
            return pbt::str("the scene has ", sc.size_lights(), " lights instead of ", lights);
        sc.k.buildTree();
        int judged = 0;
        for(const Line& l : rays)
        {
            Answer a = trace(l, inst, shapes);
            if(a.vague)
                continue;
            judged++;
            Ray ray(Point3((float)l.o.x, (float)l.o.y, (float)l.o.z), Vec3((float)l.d.x, (float)l.d.y, (float)l.d.z));
            ray.direction.normalize();
            HitPoint h;
            bool hit = alive>0 && sc.k.intersect(&ray, &h);
            std::string what = pbt::str("the ray from ", l.o, " towards ", l.d);
            if(!hit)
            {
                if(a.inst>=0)
                    return pbt::str(what, " misses instance ", a.inst, " at distance ", a.t);
                continue;
            }
            double t = (D3(h.point_h)-l.o).len();
            if(a.inst<0)
                return pbt::str(what, " hits something at distance ", t);
            if(std::fabs(t-a.t)>4e-3)
                return pbt::str(what, " hits at distance ", t, " instead of ", a.t, " on instance ", a.inst);
            const Inst& w = inst[a.inst];
            const Bsdf* want = MtlLib.get_default();
            if(!w.light)
            {
                std::string m = w.over?w.material:shapes[w.shape].ball?std::string():shapes[w.shape].mats[a.tri];
                if(MtlLib.contains(m) && !m.empty())
                    want = MtlLib.get(m);
            }
            if(h.asset_h->is_light() != w.light)
                return pbt::str(what, " hits ", w.light?"no light":"a light", " on instance ", a.inst);
            const Bsdf* got = h.asset_h->get_material(h.index);
            if(got != want)
                return pbt::str("instance ", a.inst, " has the wrong material at triangle ", a.tri);
            if(w.light)
            {
                unsigned char b[3];
                for(int k = 0; k<3; k++)
                    b[k] = (unsigned char)std::min(255.f, std::max(0.f, w.colour[k]));
                Spectrum e = w.kelvin>=0?Spectrum(w.kelvin):Spectrum(ColorRGB(b[0], b[1], b[2]), true);
                if(!same(((const AreaLight*)h.asset_h)->emissive_spectrum(), e))
                    return pbt::str("instance ", a.inst, " emits the wrong light");
            }
        }
        return judged?"":"-";
    });
    CHECK(r.finished, "the scene is not accepted: ", r.what(), " ", r.err.substr(0, 400));
    if(r.payload == "-")
        g.label("no ray judged");
    else
        CHECK(r.payload.empty(), r.payload);
    for(const std::string& s : missing)
        CHECK(reported(r, s), "the missing name ", s, " is not reported");
}
