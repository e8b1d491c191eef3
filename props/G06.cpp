// flavours: rgb fast
#include "common.hpp"
#include "primitives/mesh.hpp"
#include "primitives/triangle.hpp"
#include "textures/mask_boolean.hpp"
#include <algorithm>

// fills vs with n triangles of the chosen family
static void gen_soup(pbt::Gen& g, int n, std::vector<Triangle>& out)
{
    int kind = (int)g.draw(9);
    g.label(pbt::str("family ", kind));
    float span = g.logf(0.5f, 50.f), size = g.logf(0.05f, 5.f);
    int growth = (int)g.draw(5);
    Point3 c0(g.f(-5, 5), g.f(-5, 5), g.f(-5, 5));
    for(int k = 0; k<n; k++)
    {
        D3 c, e[3];
        double s = size;
        switch(kind)
        {
            case 0: // uniform soup
                c = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*span;
                break;
            case 1: // grid in a plane
                c = D3(k%16, k/16, 0)*(double)size*0.9;
                break;
            case 2: // all centres on one point
                c = D3(c0);
                break;
            case 3: // on a line
                c = D3(0, k*size*1.7, 0);
                break;
            case 4: // clusters
                c = D3((double)g.draw(2), (double)g.draw(2), (double)g.draw(2))*(span*4.)+D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1));
                break;
            case 5: // nested, growing
                s = 0.01*std::pow(1.1+0.1*(double)growth, std::min(k, 45));
                c = D3(0, 0, 0);
                break;
            case 6: // growing distance
                c = D3(std::pow(1.5, std::min(k, 40))*0.1, 0, 0);
                s = 0.3*std::pow(1.5, std::min(k, 40))*0.1;
                break;
            case 7: // repeats of a few triangles
                if(k>3)
                {
                    out.push_back(out[g.draw(3)]);
                    continue;
                }
                c = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*span;
                break;
            case 8: // parallel layers
                c = D3(g.f(-0.1f, 0.1f), g.f(-0.1f, 0.1f), k*0.05);
                break;
            case 9: // one huge, many small
                c = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*span;
                s = k == n/2?span*4:size*0.2;
                break;
        }
        bool flat = kind == 1 || kind == 8;
        for(int q = 0; q<3; q++)
        {
            e[q] = D3(g.f(-1, 1), g.f(-1, 1), flat?0:g.f(-1, 1));
            e[q] = c+e[q]*s;
        }
        Vertex v[3];
        for(int q = 0; q<3; q++)
        {
            v[q].p = Point3((float)e[q].x, (float)e[q].y, (float)e[q].z);
            v[q].n = Normal((float)(k%5)-2, (float)(q+1), (float)(k%7)-3);
            v[q].t = Point2((float)(q%2), (float)(q/2)+k*0.01f);
        }
        out.push_back(Triangle(v[0], v[1], v[2]));
    }
}
// distance of p to the border of the triangle, negative outside
static double margin(const Triangle& t, const D3& p)
{
    D3 v[3] = {D3(t.a.p), D3(t.b.p), D3(t.c.p)};
    D3 n = (v[1]-v[0]).cross(v[2]-v[0]);
    if(n.len() == 0)
        return -INFINITY;
    n = n.norm();
    double m = INFINITY;
    for(int k = 0; k<3; k++)
    {
        D3 e = v[(k+1)%3]-v[k];
        if(e.len() == 0)
            return -INFINITY;
        m = std::min(m, n.cross(e).norm().dot(p-v[k]));
    }
    return m;
}
static void run(pbt::Gen& g, int n, int rays)
{
    std::vector<Triangle> ts;
    gen_soup(g, n, ts);
    Mesh mesh(g.b()?n:1);
    for(auto& t : ts)
        mesh.add_triangle(&t.a, &t.b, &t.c);
    mesh.finalize();
    CHECK(mesh.get_faces_number() == n, "faces ", mesh.get_faces_number());
    if(n<=40)
        for(auto& t : ts)
            g.note("triangle ", t.a.p, t.b.p, t.c.p);
    int hits = 0;
    for(int q = 0; q<rays; q++)
    {
        const Triangle& aim = ts[g.draw(n-1)];
        double u = g.d01(), w = g.d01()*(1-u);
        D3 target = D3(aim.a.p)*(1-u-w)+D3(aim.b.p)*u+D3(aim.c.p)*w;
        Point3 o;
        Vec3 d;
        switch(g.draw(2))
        {
            case 0: // towards a triangle from anywhere
            {
                D3 dir(gen_dir(g));
                D3 p = target-dir*(double)g.logf(0.05f, 200.f);
                o = Point3((float)p.x, (float)p.y, (float)p.z);
                d = Vec3((float)dir.x, (float)dir.y, (float)dir.z);
                break;
            }
            case 1: // between two triangles
            {
                const Triangle& from = ts[g.draw(n-1)];
                o = from.a.p;
                D3 v = target-D3(o);
                if(v.len()<1e-9)
                    v = D3(1, 0, 0);
                v = v.norm();
                d = Vec3((float)v.x, (float)v.y, (float)v.z);
                break;
            }
            case 2:
                o = gen_point(g, 50.f);
                d = gen_dir(g);
                break;
        }
        if(g.p(1, 4))
            d = d*g.logf(0.05f, 20.f);
        float limit = g.p(2, 3)?FLT_MAX:g.logf(0.02f, 300.f), dist = limit;
        Ray r(o, d);
        HitPoint h, bh;
        memset((void*)&h, 0, sizeof(h));
        h.index = 424242;
        MaskBoolean none;
        bool res = mesh.intersect(&r, &dist, &h, &none);
        g.note(r, " limit ", limit, res?" hit at ":" miss, limit now ", dist, " face ", h.index);
        // exhaustive search
        double nearest = INFINITY, sure = INFINITY;
        int who = -1;
        for(int k = 0; k<n; k++)
        {
            float td = limit;
            HitPoint th;
            memset((void*)&th, 0, sizeof(th));
            if(!ts[k].intersect(&r, &td, &th, &none))
                continue;
            if(td<nearest)
            {
                nearest = td;
                who = k;
            }
            D3 P = D3(o)+D3(d)*(double)td;
            double need = 1e-5*(D3(o).maxabs()+P.maxabs()+D3(d).maxabs()*td)+1e-6;
            if(td<sure && margin(ts[k], P)>need)
                sure = td;
        }
        if(!res)
        {
            CHECK(!std::isfinite(sure), "triangle ", who, " is hit at ", sure, " but the mesh is missed");
            CHECK(dist == limit && h.index == 424242, "a miss changed the record or the distance");
            continue;
        }
        hits++;
        CHECK(dist<=limit, "distance ", dist, " beyond the limit");
        double slack = 1e-5*dist+1e-5*D3(o).maxabs()/D3(d).len();
        CHECK(dist<=sure+slack, "a nearer triangle is hit at ", sure, ", the mesh reports ", dist);
        CHECK(dist>=nearest-slack, "distance ", dist, " before the nearest triangle at ", nearest);
        CHECK(h.index<(unsigned)n, "face index ", h.index);
        float td = limit;
        memset((void*)&bh, 0, sizeof(bh));
        bool again = ts[h.index].intersect(&r, &td, &bh, &none);
        CHECK(again && td == dist, "the reported face ", h.index, " is ", again?pbt::str("hit at ", td):"not hit", ", the reported distance is ", dist, ", nearest face ", who, " at ", nearest);
        CHECK(h.point_h == bh.point_h && h.normal_h == bh.normal_h && h.uv == bh.uv && near3(D3(h.dpdu), D3(bh.dpdu), 1e-30+1e-5*D3(bh.dpdu).maxabs()), "point ", h.point_h, " normal ", h.normal_h, " uv ", h.uv, " of the mesh, point ", bh.point_h, " normal ", bh.normal_h, " uv ", bh.uv, " of the face");
    }
    g.nontrivial(n>=4 && hits>0);
}
#ifdef FLAVOUR_rgb
PROP(small, 300000, 5000000, "meshes of 1 to 40 triangles of ten families, 12 rays each, against every triangle tried in turn; non-trivial: 4 or more triangles (a tree is built) and at least one hit")
{
    run(g, (int)g.size(1, 40), 12);
}
PROP_CPU(large, 10000, 200000, "meshes of 40 to 1500 triangles of ten families, 20 rays each, against every triangle tried in turn; non-trivial: at least one hit", 40)
{
    run(g, (int)g.size(40, 1500), 20);
}
#else
PROP_CPU(large_fast, 15000, 300000, "optimised build: meshes of up to 4000 triangles, 30 rays each, against every triangle tried in turn; non-trivial: at least one hit", 40)
{
    run(g, (int)g.size(4, 4000), 30);
}
#endif
