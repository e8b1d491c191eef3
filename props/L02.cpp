// flavours: rgb fast
// L02: shadow tests
#include "common.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "utility/occlusion_tester.hpp"
#include <cstring>
#include <memory>

namespace
{
Mesh* pieces(pbt::Gen& g)
{
    int n = (int)g.size(1, 8);
    Mesh* m = new Mesh((unsigned)n);
    for(int k = 0; k<n; k++)
    {
        Vertex v[3];
        D3 p[3] = {D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1)), D3(), D3()};
        p[1] = p[0]+D3(g.f(0.3f, 1), g.f(-1, 1), g.f(-1, 1));
        p[2] = p[0]+D3(g.f(-1, -0.3f), g.f(-1, 1), g.f(-1, 1));
        if((p[1]-p[0]).cross(p[2]-p[0]).len()<0.2)
            p[2] = p[0]+D3(-0.7, 0.6, 0.8);
        if((p[1]-p[0]).cross(p[2]-p[0]).len()<0.2)
            p[2] = p[0]+D3(-0.7, -0.6, -0.8);
        for(int q = 0; q<3; q++)
        {
            v[q].p = Point3((float)p[q].x, (float)p[q].y, (float)p[q].z);
            v[q].n = Normal(0, 0, 1);
            v[q].t = Point2((float)(q%2), (float)(q/2));
        }
        m->add_triangle(&v[0], &v[1], &v[2]);
    }
    m->finalize();
    return m;
}
struct World
{
    Scene scene;
    std::vector<const Asset*> assets;
    std::vector<D3> centres;
    std::vector<double> sizes, least;
    int lights = 0;
    void build(pbt::Gen& g, int n)
    {
        std::vector<const Shape*> shapes = {new Sphere(), new Box(), pieces(g)};
        for(const Shape* s : shapes)
            scene.inherit_shape(s);
        double span = g.logf(2, 20);
        for(int k = 0; k<n; k++)
        {
            int what = (int)g.draw(2);
            Placement p;
            double s = g.logf(0.2f, 4.f);
            p.scale = what == 0?D3(s, s, s):D3(s, s*g.logf(0.3f, 3.f), s*g.logf(0.3f, 3.f));
            p.rot = what == 1?D3():D3(g.f(-3, 3), g.f(-3, 3), g.f(-3, 3));
            p.pos = D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*span;
            Matrix4 m = p.m();
            const Asset* a;
            if(what != 1 && g.p(1, 4))
            {
                AreaLight* l = new AreaLight(shapes[what], m, SPECTRUM_ONE);
                a = l;
                scene.inherit_light(l);
                lights++;
            }
            else
            {
                a = new Asset(shapes[what], m, 1);
                scene.inherit_asset(a);
            }
            assets.push_back(a);
            centres.push_back(p.pos);
            sizes.push_back(std::max(p.scale.x, std::max(p.scale.y, p.scale.z)));
            least.push_back(std::min(p.scale.x, std::min(p.scale.y, p.scale.z)));
            g.note("instance ", k, ": ", what == 0?"sphere":what == 1?"box":"triangles", " ", p);
        }
        scene.k.buildTree();
    }
    // 1 blocked, 0 free, -1 too close to tell
    int look(const Ray& r, float distance) const
    {
        double eps = 3e-5*(D3(r.origin).maxabs()+distance)+3e-5;
        D3 d(r.direction), u = d.cross(std::fabs(d.x)<0.6?D3(1, 0, 0):D3(0, 1, 0)).norm(), v = d.cross(u).norm();
        int seen = -2;
        for(int k = 0; k<9; k++)
        {
            double e = k>4?eps*60:eps; // silhouettes of spheres are blurred
            D3 o = D3(r.origin)+(k == 0?D3():((k-1)%4<2?u:v)*(k%2?e:-e));
            Ray q(Point3((float)o.x, (float)o.y, (float)o.z), r.direction);
            bool blocked = false;
            for(const Asset*const& a : assets)
            {
                float t = FLT_MAX;
                HitPoint h;
                memset((void*)&h, 0, sizeof h);
                if(!a->intersect(&q, &t, &h))
                    continue;
                // what is judged: the distance found, for the segment itself
                if(k == 0 && std::fabs(t-distance+1e-3)<1e-4+eps+2e-5*t+2e-6*t*t/least[&a-&assets[0]])
                    return -1;
                if(t<0.03)
                    return -1;
                blocked = blocked || t+1e-3<distance;
            }
            if(seen != -2 && seen != (int)blocked)
                return -1;
            seen = blocked;
        }
        return seen;
    }
};
void history(pbt::Gen& g, int n, int queries)
{
    World w;
    w.build(g, n);
    OcclusionTester tester(&w.scene);
    int blocked = 0, free_after = 0;
    bool asked[DEFAULT_BOUNCES] = {false};
    Ray last(Point3(0, 0, 0), Vec3(0, 0, 1));
    float last_distance = 1;
    for(int q = 0; q<queries; q++)
    {
        Ray r;
        float distance;
        if(q>0 && g.p(1, 4)) // the same segment again, or nearly
        {
            r = last;
            distance = last_distance;
            if(g.b())
                distance *= g.f(0.2f, 2.f);
        }
        else
        {
            int to = (int)g.draw(n-1), from = (int)g.draw(n-1);
            D3 b = w.centres[to]+D3(g.f(-1, 1), g.f(-1, 1), g.f(-1, 1))*w.sizes[to], a;
            if(g.p(2, 3))
                a = w.centres[from]+D3(g.f(-2, 2), g.f(-2, 2), g.f(-2, 2))*w.sizes[from];
            else
                a = D3(g.f(-40, 40), g.f(-40, 40), g.f(-40, 40));
            if((b-a).len()<0.05)
                continue;
            D3 d = (b-a).norm();
            r = Ray(Point3((float)a.x, (float)a.y, (float)a.z), Vec3((float)d.x, (float)d.y, (float)d.z));
            distance = (float)(b-a).len()*g.pick({1.f, 0.5f, 1.7f});
            if(g.p(1, 3)) // just before or behind something
            {
                float t = FLT_MAX;
                HitPoint h;
                memset((void*)&h, 0, sizeof h);
                if(w.assets[to]->intersect(&r, &t, &h))
                    distance = t+(g.b()?1.f:-1.f)*g.logf(0.002f, 1.f);
                if(distance<0.01f)
                    distance = 0.01f;
            }
        }
        r.ricochet = (unsigned char)g.draw(g.b()?0:DEFAULT_BOUNCES-1);
        last = r;
        last_distance = distance;
        int want = w.look(r, distance);
        bool got = tester.is_occluded(&r, distance);
        if(want<0)
            continue;
        if(want)
            blocked++;
        else if(asked[r.ricochet])
            free_after++;
        asked[r.ricochet] = asked[r.ricochet] || want;
        OcclusionTester fresh(&w.scene);
        CHECK(got == (want != 0), "query ", q, " ", r, " over ", distance, " is reported as ", got?"blocked":"free", ", a new tester says ", fresh.is_occluded(&r, distance)?"blocked":"free");
    }
    g.nontrivial(blocked>0 && free_after>0);
}
}

#ifdef FLAVOUR_rgb
PROP(histories, 120000, 800000, "scenes of 1 to 12 instances (some of them lights) and up to 40 shadow queries on one tester, with repeated and similar segments and any number of bounces: each answer is that of testing every instance, no matter what was asked before; non-trivial: a blocked query and a free one after a blocked one on the same bounce")
{
    history(g, (int)g.size(1, 12), (int)g.size(2, 40));
}
#else
PROP(long_histories, 25000, 80000, "optimised build: scenes of up to 60 instances and up to 300 shadow queries; non-trivial: a blocked query and a free one after a blocked one on the same bounce")
{
    history(g, (int)g.size(1, 60), (int)g.size(20, 300));
}
#endif
