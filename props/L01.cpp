// flavours: rgb fast
// L01: area lights
#include "lamp.hpp"

namespace
{
Spectrum some_light(pbt::Gen& g)
{
    return Spectrum(ColorRGB((unsigned char)g.i(40, 255), (unsigned char)g.i(0, 255), (unsigned char)g.i(0, 255)), true);
}
bool same(const Spectrum& a, const Spectrum& b)
{
    ColorXYZ x = a.to_xyz(), y = b.to_xyz();
    return pbt::near(x.r, y.r, 1e-6, 1e-5) && pbt::near(x.g, y.g, 1e-6, 1e-5) && pbt::near(x.b, y.b, 1e-6, 1e-5);
}
// a light and how it is placed
Lamp gen(pbt::Gen& g, int kind)
{
    Placement p = gen_placement(g, 0.3f, 5.f, 10.f);
    if(kind == L_SPHERE)
        p.scale = D3(1, 1, 1)*std::fabs(p.scale.x);
    Lamp l = gen_lamp(g, kind, p, some_light(g));
    static const char* n[] = {"sphere", "quad", "box", "triangles", "smooth triangles"};
    g.note(n[kind], " ", p, " area ", l.area);
    g.label(n[kind]);
    return l;
}
Point3 gen_viewer(pbt::Gen& g, const Lamp& l)
{
    float d[3];
    g.dir(d, d+1, d+2);
    D3 p = l.centre+D3(d[0], d[1], d[2])*(l.size*(double)g.logf(0.05f, 20.f));
    return Point3((float)p.x, (float)p.y, (float)p.z);
}
// density per solid angle when the hit part is seen, and the tolerance
double density(const Lamp& l, const Touch& t, const D3& d, bool shade, double* tol)
{
    double c = std::fabs(d.dot(shade?t.shade:t.flat)), v = t.t*t.t/(c*l.area);
    *tol = v*(1e-3+2e-4/c+1e-5*(l.centre.maxabs()+l.size)/t.t/c);
    if(l.ball) // cancellation in the quadratic equation
        *tol += v*1e-6*std::pow((t.t+l.centre.maxabs())/l.size+1, 2)/(c*c);
    return v;
}
bool smooth_wrong()
{
    Mesh mesh(1);
    Vertex v[3];
    v[0].p = Point3(-1, -1, 0);
    v[1].p = Point3(1, -1, 0);
    v[2].p = Point3(0, 2, 0);
    for(Vertex& x : v)
    {
        x.n = Normal(0.6f, 0, 0.8f);
        x.t = Point2(0, 0);
    }
    mesh.add_triangle(&v[0], &v[1], &v[2]);
    mesh.finalize();
    Matrix4 m;
    m.set_identity();
    AreaLight l(&mesh, m, SPECTRUM_ONE);
    Point3 p(0, 0, 3);
    Vec3 d(0, 0, -1);
    return std::fabs(l.pdf(&p, &d)-9/(0.8*3))<1e-2; // and not 9/3
}
}
KNOWN(hidden_points)
{
    return hidden_points_kept()?"AreaLight::sample_visible_surface moves points hidden by the light itself (the far side of a sphere) to the part in front without adding their density, closed lights are too bright (Light.AreaLight_sample_visible_surface expects it)":"";
}
KNOWN(smooth_normals)
{
    return smooth_wrong()?"AreaLight converts the density of points into one of directions with the interpolated normal instead of that of the facet, lights with smoothed normals get wrong densities":"";
}

PROP(sample, 400000, 3000000, "a light (sphere, quad, box, triangles with flat or smoothed normals) under any placement, a point and two random numbers: the direction points at the drawn point of the surface, the distance is that of the light in this direction and the value is the emission when the front of the light is seen and black otherwise, the density is that of the visible part and what pdf() reports; non-trivial: the light is scaled")
{
    int kind = (int)g.draw(L_KINDS-1);
    Lamp l = gen(g, kind);
    for(int rep = 0; rep<6; rep++)
    {
        Point3 p = gen_viewer(g, l);
        float r0 = below_one(g.unit()), r1 = below_one(g.unit());
        D3 o(p);
        Point3 on;
        Normal n;
        l.shape->sample_point(r0, r1, l.cd.data(), &on, &n);
        D3 to = l.m.point(D3(on))-o;
        if(to.len()<0.05*l.size || to.len()<0.05)
            continue;
        D3 d = to.norm();
        Vec3 wi(0.f);
        float pdf = -1, distance = -1;
        Spectrum v = l.light->sample_visible_surface(r0, r1, &p, &wi, &pdf, &distance);
        g.nontrivial(std::fabs(l.area-4*M_PI)>1e-3);
        Touch t = l.touch(o, d);
        double c = t.hit?std::fabs(d.dot(t.flat)):0, cs = t.hit?std::fabs(d.dot(t.shade)):0;
        CHECK(pdf>=0 && !std::isnan(pdf), "the density is ", pdf);
        if(pdf == 0)
            CHECK(v.is_black(), "a value without density");
        if(t.vague || !t.hit || c<0.03 || cs<0.03)
            continue;
        if(kind == L_SMOOTH && (c<0.2 || cs<0.2 || t.t>4*l.size)) // the place on the facet is not accurate enough
            continue;
        std::string what = pbt::str("seen from ", o, " with ", r0, " ", r1, ": ");
        double eps = 1e-5*(o.maxabs()+l.centre.maxabs()+l.size)/t.t+2e-5;
        CHECK(near3(D3(wi), d, eps), what, "the direction is ", wi, " instead of ", d);
        CHECK(std::fabs(distance-t.t)<=t.t*3e-4/c+3*eps*t.t/c, what, "the distance is ", distance, " instead of ", t.t);
        bool front = t.flat.dot(d)<0;
        if(std::fabs(t.shade.dot(t.flat)-1)<1e-6 || (t.shade.dot(d)<0) == front)
        {
            if(front)
                CHECK(same(v, l.light->emissive_spectrum()), what, "the value is not the emission");
            else
                CHECK(v.is_black(), what, "the back of the light is not black");
        }
        double tol, want = density(l, t, d, false, &tol);
        float q = l.light->pdf(&p, &wi);
        bool ok = std::fabs(pdf-want)<=tol && std::fabs(q-want)<=tol;
        if(!ok && kind == L_SMOOTH && smooth_wrong())
        {
            double w = density(l, t, d, true, &tol);
            ok = std::fabs(pdf-w)<=tol && std::fabs(q-w)<=tol;
        }
        CHECK(ok, what, "the densities are ", pdf, " and ", q, " instead of ", want, " (flat ", t.flat, " shading ", t.shade, " towards ", d, ")");
    }
}

PROP(directions, 400000, 3000000, "a light under any placement, a point and any direction: pdf() is the density of the part of the light seen in this direction, and zero when the light is not there; non-trivial: the light is hit")
{
    int kind = (int)g.draw(L_SOUP);
    Lamp l = gen(g, kind);
    for(int rep = 0; rep<6; rep++)
    {
        Point3 p = gen_viewer(g, l);
        float e[3];
        g.dir(e, e+1, e+2);
        D3 o(p), d = D3(e[0], e[1], e[2]);
        if(g.p(3, 4)) // towards it
            d = l.centre+d*(l.size*(double)g.f(0, 1.3f))-o;
        if(d.len()<1e-3)
            continue;
        d = d.norm();
        Vec3 wi((float)d.x, (float)d.y, (float)d.z);
        d = D3(wi);
        Touch t = l.touch(o, d);
        if(t.vague || (t.hit && std::fabs(d.dot(t.flat))<0.03))
            continue;
        g.nontrivial(t.hit);
        float q = l.light->pdf(&p, &wi);
        if(!t.hit)
        {
            CHECK(q == 0, "from ", o, " towards ", d, " there is no light, the density is ", q);
            continue;
        }
        double tol, want = density(l, t, d, false, &tol);
        CHECK(std::fabs(q-want)<=tol, "from ", o, " towards ", d, " the density is ", q, " instead of ", want);
    }
}

PROP(irradiance, 3000, 60000, "a light under any placement and a receiver that sees it from some distance, possibly from behind or with part of it below the horizon: the mean of value times cosine over density of 4096 evenly spread samples is the irradiance computed by quadrature over the surface with double precision visibility; non-trivial: the irradiance is not zero")
{
    static const bool kept = hidden_points_kept();
    int kind = (int)g.draw(L_SOUP);
    Lamp l = gen(g, kind);
    float e[3];
    g.dir(e, e+1, e+2);
    D3 away(e[0], e[1], e[2]);
    D3 o = l.centre+away*(l.size*(double)g.logf(1.6f, 8.f));
    if(kind == L_BOX && l.facets[0].flat.dot(l.facets[0].p[0]-l.centre)<0) // from inside
        o = l.m.point(D3(0.1, 0.05, -0.12));
    g.dir(e, e+1, e+2);
    D3 n(e[0], e[1], e[2]);
    if(g.p(2, 3))
        n = (n*0.4-away).norm();
    Point3 p((float)o.x, (float)o.y, (float)o.z);
    o = D3(p);
    g.note("receiver at ", o, " normal ", n);
    for(const Facet& f : l.facets)
        g.note("facet ", f.p[0], f.p[1], f.p[2], f.flat, " angle ", f.flat.dot((o-f.p[0]).norm()));
    double want = 0, wrong = 0, scale = 0, open = 0;
    bool bad = false;
    std::vector<Patch> ps = patches(l, l.ball?32:24);
    for(const Patch& a : ps)
    {
        D3 to = a.p-o, d = to.norm();
        double r = to.len(), cr = std::max(0., n.dot(d)), cl = -a.flat.dot(d);
        if(r<0.02 || r<3*a.edge) // too coarse
            bad = true;
        scale += a.da/(r*r);
        Touch t = l.touch(o, d);
        if(t.vague)
            open += cr*a.da*(0.05+std::fabs(cl))/(r*r);
        bool seen = std::fabs(t.t-r)<1e-3+1e-3*r;
        if(l.ball)
            seen = cl>0;
        if(cl>0 && seen)
            want += cr*cl*a.da/(r*r);
        // the hidden ones count as well, with the density of what is in front
        if(t.hit && t.flat.dot(d)<0)
            wrong += cr*a.da/l.area*std::fabs(t.flat.dot(d))*l.area/(t.t*t.t);
    }
    if(bad)
        g.discard();
    g.nontrivial(want>0.01*scale);
    double sum = 0, y = l.light->emissive_spectrum().to_xyz().g;
    double s0 = g.d01(), s1 = g.d01();
    const int N = 4096;
    for(int k = 0; k<N; k++)
    {
        Vec3 wi;
        float pdf = 0, dist;
        Spectrum v = l.light->sample_visible_surface(below_one(radical((unsigned)k+1, 2)+s0), below_one(radical((unsigned)k+1, 3)+s1), &p, &wi, &pdf, &dist);
        if(pdf>0 && !v.is_black())
            sum += v.to_xyz().g/y*std::max(0., n.dot(D3(wi)))/pdf;
    }
    sum /= N;
    double tol = 0.02*want+0.01*scale+open, tolw = 0.02*wrong+0.01*scale+open;
    bool ok = std::fabs(sum-want)<=tol || (kept && kind != L_QUAD && std::fabs(sum-wrong)<=tolw);
    CHECK(ok, "the irradiance is ", sum, " instead of ", want, " (", wrong, " when hidden points count)");
}

PROP(emitted, 6000, 100000, "a light under any placement and 1024 evenly spread random numbers: rays start on the surface where the shape is sampled, have unit length and leave the front uniformly over the hemisphere; the density is that of the area times the hemisphere and what pdf() reports; non-trivial: the light is scaled")
{
    int kind = (int)g.draw(L_SOUP);
    Lamp l = gen(g, kind);
    g.nontrivial(std::fabs(l.area-4*M_PI)>1e-3);
    float r0 = below_one(g.unit()), r1 = below_one(g.unit());
    Point3 on;
    Normal no;
    l.shape->sample_point(r0, r1, l.cd.data(), &on, &no);
    D3 at = l.m.point(D3(on)), n = l.inv.vec_transposed(D3(no)).norm();
    double s0 = g.d01(), s1 = g.d01(), mom[3][3] = {{0}};
    D3 mean;
    const int N = 1024;
    double want = 1/(2*M_PI*l.area);
    bool sided = kind == L_SPHERE; // the sampled normal of a triangle may be on either side
    for(int k = 0; k<N; k++)
    {
        Ray r;
        float pdf = 0;
        Spectrum v = l.light->sample_surface(r0, r1, below_one(radical((unsigned)k+1, 2)+s0), below_one(radical((unsigned)k+1, 3)+s1), &r, &pdf);
        D3 d(r.direction);
        CHECK(same(v, l.light->emissive_spectrum()), "the value is not the emission");
        CHECK(near3(D3(r.origin), at, 1e-5*(at.maxabs()+l.size)+1e-5), "the ray starts at ", r.origin, " instead of ", at);
        CHECK(pbt::near(d.len(), 1, 1e-4), "the direction has length ", d.len());
        CHECK(pbt::near(pdf, want, 1e-6, 2e-3), "the density is ", pdf, " instead of ", want);
        CHECK(pbt::near(l.light->pdf(&r), want, 1e-6, 2e-3), "pdf is ", l.light->pdf(&r), " instead of ", want);
        if(sided)
            CHECK(d.dot(n)>=-1e-4, "the ray enters the light");
        mean = mean+d*(1./N);
        for(int i = 0; i<3; i++)
            for(int j = 0; j<3; j++)
                mom[i][j] += d[i]*d[j]/N;
    }
    if(mean.dot(n)<0 && !sided)
        n = -n;
    CHECK(near3(mean, n*0.5, 0.03), "the mean direction is ", mean, " instead of ", n*0.5);
    for(int i = 0; i<3; i++)
        for(int j = 0; j<3; j++)
            CHECK(pbt::near(mom[i][j], i == j?1./3:0, 0.03), "the directions are not uniform: moment ", i, j, " is ", mom[i][j]);
}
