// flavours: rgb
#include "common.hpp"

static const double R = 1e-6; // relative rounding allowance of a few operations

// values whose products neither overflow nor vanish
static float val(pbt::Gen& g)
{
    switch(g.draw(4))
    {
        case 0: return (float)((int)g.draw(10)-5);
        case 1:
        {
            float m = g.logf(1e-6f, 1e6f);
            return g.b()?-m:m;
        }
        default: return g.f(-100.f, 100.f);
    }
}

#define EXACT(a, b) CHECK(pbt::near((a), (b), 1e-30, 2.5e-7), #a, " = ", (a), " expected ", (b))

template <typename V>
static void common_ops(pbt::Gen& g)
{
    float a[3] = {val(g), val(g), val(g)}, b[3] = {val(g), val(g), val(g)};
    if(g.p(1, 8)) // share components
        b[g.draw(2)] = a[g.draw(2)];
    float s = val(g);
    const V x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
    g.note("a=", x, " b=", y, " s=", s);
    bool zero_b = b[0] == 0 || b[1] == 0 || b[2] == 0;
    g.nontrivial(a[0] != a[1] && a[1] != a[2] && b[0] != b[1]);
    V add = x+y, sub = x-y, mul = x*y, adds = x+s, subs = x-s, muls = x*s, neg = -x, notx = !x;
    V ia = x, ib = x, ic = x, id = x, ie = x, if_ = x;
    ia += y;
    ib -= y;
    ic *= y;
    id += s;
    ie -= s;
    if_ *= s;
    for(int k = 0; k<3; k++)
    {
        EXACT(x[k], a[k]);
        EXACT(add[k], (double)a[k]+b[k]);
        EXACT(sub[k], (double)a[k]-b[k]);
        EXACT(mul[k], (double)a[k]*b[k]);
        EXACT(adds[k], (double)a[k]+s);
        EXACT(subs[k], (double)a[k]-s);
        EXACT(muls[k], (double)a[k]*s);
        EXACT(neg[k], -(double)a[k]);
        EXACT(notx[k], -(double)a[k]);
        EXACT(ia[k], (double)a[k]+b[k]);
        EXACT(ib[k], (double)a[k]-b[k]);
        EXACT(ic[k], (double)a[k]*b[k]);
        EXACT(id[k], (double)a[k]+s);
        EXACT(ie[k], (double)a[k]-s);
        EXACT(if_[k], (double)a[k]*s);
    }
    if(!zero_b)
    {
        V d = x/y, e = x;
        e /= y;
        for(int k = 0; k<3; k++)
        {
            EXACT(d[k], (double)a[k]/b[k]);
            EXACT(e[k], (double)a[k]/b[k]);
        }
    }
    if(s != 0)
    {
        V d = x/s, e = x;
        e /= s;
        for(int k = 0; k<3; k++)
        {
            EXACT(d[k], (double)a[k]/s);
            EXACT(e[k], (double)a[k]/s);
        }
    }
    D3 A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
    double da = std::fabs(A.x*B.x)+std::fabs(A.y*B.y)+std::fabs(A.z*B.z);
    CHECK(pbt::near(x.dot(y), A.dot(B), R*da), "dot ", x.dot(y), " expected ", A.dot(B));
    CHECK(pbt::near(dot(x, y), A.dot(B), R*da), "dot function");
    CHECK(pbt::near(absdot(x, y), std::fabs(A.dot(B)), R*da), "absdot");
    CHECK(pbt::near(x.length2(), A.dot(A), 0, R), "length2");
    CHECK(pbt::near(x.length(), A.len(), 0, R), "length ", x.length(), " expected ", A.len());
    CHECK(pbt::near(x.distance(y), (A-B).len(), R*(A.maxabs()+B.maxabs())), "distance");
    CHECK(pbt::near(distance(x, y), (A-B).len(), R*(A.maxabs()+B.maxabs())), "distance function");
    if(A.len()>1e-12)
    {
        V n = normalize(x), m = x;
        m.normalize();
        D3 N = A.norm();
        // a vector whose squared length is within 1e-5 of one counts as normalised
        CHECK(near3(D3(n), N, 1.1e-5), "normalize ", n, " expected ", N);
        CHECK(near3(D3(m), N, 1.1e-5), "normalize in place ", m, " expected ", N);
        CHECK(n.is_normalized() || pbt::near(D3(n).dot(D3(n)), 1, 1.1e-5), "result is not normalised");
        if(std::fabs(A.dot(A)-1)>2e-5)
            CHECK(!x.is_normalized(), "is_normalized on length ", A.len());
        if(std::fabs(A.dot(A)-1)<5e-6)
            CHECK(x.is_normalized(), "not is_normalized on length ", A.len());
    }
    // extremes
    V mx = max(x, y), mn = min(x, y), mxi = x, mni = x;
    mxi.max(y);
    mni.min(y);
    for(int k = 0; k<3; k++)
    {
        CHECK(mx[k] == std::fmax(a[k], b[k]) && mxi[k] == mx[k], "max component ", k);
        CHECK(mn[k] == std::fmin(a[k], b[k]) && mni[k] == mn[k], "min component ", k);
    }
    // clamping to a box
    Vec3 lo(std::fmin(b[0], s), std::fmin(b[1], s), std::fmin(b[2], s));
    Vec3 hi(std::fmax(b[0], s), std::fmax(b[1], s), std::fmax(b[2], s));
    V cl = clamp(x, lo, hi), cli = x, sa = saturate(x), sai = x;
    cli.clamp(lo, hi);
    sai.saturate();
    for(int k = 0; k<3; k++)
    {
        CHECK(cl[k] == std::fmin(std::fmax(a[k], lo[k]), hi[k]) && cli[k] == cl[k], "clamp component ", k);
        CHECK(sa[k] == std::fmin(std::fmax(a[k], 0.f), 1.f) && sai[k] == sa[k], "saturate component ", k);
    }
    // comparison
    bool same = true, far = false;
    for(int k = 0; k<3; k++)
    {
        same = same && a[k] == b[k];
        far = far || std::fabs((double)a[k]-b[k])>1e-6;
    }
    CHECK((x == y) != (x != y), "== and != agree");
    CHECK(x == x, "reflexive");
    if(same)
        CHECK(x == y, "equal components");
    if(far)
        CHECK(!(x == y), "different components compare equal");
    // access
    float arr[3];
    x.to_array(arr);
    CHECK(arr[0] == a[0] && arr[1] == a[1] && arr[2] == a[2], "to_array");
    V w(arr);
    CHECK(w.x == a[0] && w.y == a[1] && w.z == a[2], "array constructor");
    int k = (int)g.draw(2);
    w[k] = s;
    for(int j = 0; j<3; j++)
        CHECK(w[j] == (j == k?s:a[j]), "indexed store");
    V u(s);
    CHECK(u.x == s && u.y == s && u.z == s, "splat constructor");
    V t(Vec2(a[0], a[1]), a[2]);
    CHECK(t.x == a[0] && t.y == a[1] && t.z == a[2], "Vec2 constructor");
    // operands are untouched
    CHECK(x.x == a[0] && x.y == a[1] && x.z == a[2] && y.x == b[0] && y.y == b[1] && y.z == b[2], "operands changed");
    // text form names the components in order
    std::ostringstream o;
    o << std::fixed << "[" << a[0] << ", " << a[1] << ", " << a[2] << "]";
    CHECK(x.to_string().find(o.str()) != std::string::npos, "to_string ", x.to_string(), " expected ", o.str());
}

PROP(vec3_ops, 400000, 6000000, "two vectors and a scalar through every operation; non-trivial: distinct components")
{
    common_ops<Vec3>(g);
    Vec3 a(val(g), val(g), val(g)), b(val(g), val(g), val(g));
    D3 A(a), B(b), C = A.cross(B);
    double tol = R*A.maxabs()*B.maxabs()*2;
    Vec3 o;
    a.cross(b, &o);
    g.note("cross of ", a, " and ", b);
    CHECK(near3(D3(a.cross(b)), C, tol) && near3(D3(cross(a, b)), C, tol) && near3(D3(o), C, tol), "cross ", a.cross(b), " ", cross(a, b), " ", o, " expected ", C);
    Normal n(b);
    CHECK(n.x == b.x && n.y == b.y && n.z == b.z, "Normal from Vec3");
    Vec3 back(n);
    CHECK(back.x == b.x && back.y == b.y && back.z == b.z, "Vec3 from Normal");
    double da = std::fabs(A.x*B.x)+std::fabs(A.y*B.y)+std::fabs(A.z*B.z);
    CHECK(pbt::near(a.dot(n), A.dot(B), R*da) && pbt::near(n.dot(a), A.dot(B), R*da) && pbt::near(dot(a, n), A.dot(B), R*da) && pbt::near(dot(n, a), A.dot(B), R*da), "mixed dot");
    CHECK(pbt::near(absdot(a, n), std::fabs(A.dot(B)), R*da) && pbt::near(absdot(n, a), std::fabs(A.dot(B)), R*da), "mixed absdot");
}
PROP(normal_ops, 300000, 4000000, "two normals and a scalar through every operation; non-trivial: distinct components")
{
    common_ops<Normal>(g);
}

PROP(vec2_ops, 300000, 4000000, "two 2D vectors and points through every operation; non-trivial: distinct components")
{
    float a[2] = {val(g), val(g)}, b[2] = {val(g), val(g)}, s = val(g);
    if(g.p(1, 8))
        b[g.draw(1)] = a[g.draw(1)];
    const Vec2 x(a[0], a[1]), y(b[0], b[1]);
    g.note("a=", x, " b=", y, " s=", s);
    g.nontrivial(a[0] != a[1] && b[0] != b[1]);
    struct C2
    {
        static double c(const Vec2& v, int k) { return k == 0?v.x:v.y; }
        static double c(const Point2& v, int k) { return k == 0?v.x:v.y; }
    };
    Vec2 i1 = x, i2 = x, i3 = x, i4 = x, i5 = x, i6 = x;
    i1 += y;
    i2 -= y;
    i3 *= y;
    i4 += s;
    i5 -= s;
    i6 *= s;
    Vec2 r1 = x+y, r2 = x-y, r3 = x*y, r4 = x+s, r5 = x-s, r6 = x*s, n1 = -x, n2 = !x;
    Vec2 cmax = max(x, y), cmin = min(x, y), cmaxi = x, cmini = x, sat = saturate(x), sati = x;
    cmaxi.max(y);
    cmini.min(y);
    sati.saturate();
    Vec2 lo(std::fmin(b[0], s), std::fmin(b[1], s)), hi(std::fmax(b[0], s), std::fmax(b[1], s));
    Vec2 cl = clamp(x, lo, hi), cli = x;
    cli.clamp(lo, hi);
    for(int k = 0; k<2; k++)
    {
        EXACT(C2::c(r1, k), (double)a[k]+b[k]);
        EXACT(C2::c(r2, k), (double)a[k]-b[k]);
        EXACT(C2::c(r3, k), (double)a[k]*b[k]);
        EXACT(C2::c(r4, k), (double)a[k]+s);
        EXACT(C2::c(r5, k), (double)a[k]-s);
        EXACT(C2::c(r6, k), (double)a[k]*s);
        EXACT(C2::c(i1, k), (double)a[k]+b[k]);
        EXACT(C2::c(i2, k), (double)a[k]-b[k]);
        EXACT(C2::c(i3, k), (double)a[k]*b[k]);
        EXACT(C2::c(i4, k), (double)a[k]+s);
        EXACT(C2::c(i5, k), (double)a[k]-s);
        EXACT(C2::c(i6, k), (double)a[k]*s);
        EXACT(C2::c(n1, k), -(double)a[k]);
        EXACT(C2::c(n2, k), -(double)a[k]);
        CHECK(C2::c(cmax, k) == std::fmax(a[k], b[k]) && C2::c(cmaxi, k) == C2::c(cmax, k), "max ", k);
        CHECK(C2::c(cmin, k) == std::fmin(a[k], b[k]) && C2::c(cmini, k) == C2::c(cmin, k), "min ", k);
        CHECK(C2::c(sat, k) == std::fmin(std::fmax(a[k], 0.f), 1.f) && C2::c(sati, k) == C2::c(sat, k), "saturate ", k);
        double e = std::fmin(std::fmax(a[k], C2::c(lo, k)), C2::c(hi, k));
        CHECK(C2::c(cl, k) == e && C2::c(cli, k) == e, "clamp ", k);
    }
    if(b[0] != 0 && b[1] != 0)
    {
        Vec2 d = x/y, e = x;
        e /= y;
        for(int k = 0; k<2; k++)
        {
            EXACT(C2::c(d, k), (double)a[k]/b[k]);
            EXACT(C2::c(e, k), (double)a[k]/b[k]);
        }
    }
    if(s != 0)
    {
        Vec2 d = x/s, e = x;
        e /= s;
        for(int k = 0; k<2; k++)
        {
            EXACT(C2::c(d, k), (double)a[k]/s);
            EXACT(C2::c(e, k), (double)a[k]/s);
        }
    }
    double ad = (double)a[0]*b[0]+(double)a[1]*b[1], aa = std::fabs((double)a[0]*b[0])+std::fabs((double)a[1]*b[1]);
    CHECK(pbt::near(x.dot(y), ad, R*aa) && pbt::near(dot(x, y), ad, R*aa), "dot");
    double l2 = (double)a[0]*a[0]+(double)a[1]*a[1];
    CHECK(pbt::near(x.length2(), l2, 0, R) && pbt::near(lengthSquared(x), l2, 0, R), "length2");
    CHECK(pbt::near(x.length(), std::sqrt(l2), 0, R) && pbt::near(length(x), std::sqrt(l2), 0, R), "length");
    double dist = std::hypot((double)a[0]-b[0], (double)a[1]-b[1]);
    double dt = R*(std::fabs(a[0])+std::fabs(a[1])+std::fabs(b[0])+std::fabs(b[1]));
    CHECK(pbt::near(x.distance(y), dist, dt) && pbt::near(distance(x, y), dist, dt), "distance");
    if(l2>1e-20)
    {
        Vec2 n = normalize(x), m = x;
        m.normalize();
        double l = std::sqrt(l2);
        CHECK(pbt::near(n.x, a[0]/l, 1.1e-5) && pbt::near(n.y, a[1]/l, 1.1e-5), "normalize");
        CHECK(pbt::near(m.x, a[0]/l, 1.1e-5) && pbt::near(m.y, a[1]/l, 1.1e-5), "normalize in place");
    }
    if(std::fabs(l2-1)>2e-5)
        CHECK(!x.is_normalized(), "is_normalized on squared length ", l2);
    if(std::fabs(l2-1)<1e-7)
        CHECK(x.is_normalized(), "not is_normalized on squared length ", l2);
    float arr[2];
    x.to_array(arr);
    Vec2 fa(arr), sp(s);
    CHECK(arr[0] == a[0] && arr[1] == a[1] && fa.x == a[0] && fa.y == a[1] && sp.x == s && sp.y == s, "array and splat constructors");
    bool far = std::fabs((double)a[0]-b[0])>1e-6 || std::fabs((double)a[1]-b[1])>1e-6;
    CHECK((x == y) != (x != y) && x == x, "comparison");
    if(far)
        CHECK(!(x == y), "different vectors compare equal");
    if(a[0] == b[0] && a[1] == b[1])
        CHECK(x == y, "equal vectors compare different");
    // points
    Point2 p(a[0], a[1]), q(b[0], b[1]);
    Vec2 pq = p-q;
    Point2 pa = p+y, ps = p-y, pi = p, pj = p;
    pi += y;
    pj -= y;
    Point2 pmx = max(p, q), pmn = min(p, q), pmxi = p, pmni = p;
    pmxi.max(q);
    pmni.min(q);
    for(int k = 0; k<2; k++)
    {
        EXACT(C2::c(pq, k), (double)a[k]-b[k]);
        EXACT(pa[k], (double)a[k]+b[k]);
        EXACT(ps[k], (double)a[k]-b[k]);
        EXACT(pi[k], (double)a[k]+b[k]);
        EXACT(pj[k], (double)a[k]-b[k]);
        CHECK(pmx[k] == std::fmax(a[k], b[k]) && pmxi[k] == pmx[k], "point max");
        CHECK(pmn[k] == std::fmin(a[k], b[k]) && pmni[k] == pmn[k], "point min");
    }
    CHECK(pbt::near(p.distance(q), dist, dt) && pbt::near(distance(p, q), dist, dt), "point distance");
    CHECK((p == q) != (p != q) && p == p, "point comparison");
    if(far)
        CHECK(!(p == q), "different points compare equal");
    p[1] = s;
    CHECK(p.y == s && p.x == a[0], "indexed store");
}

PROP(point3_ops, 300000, 4000000, "two points and a vector through every operation; non-trivial: distinct components")
{
    float a[3] = {val(g), val(g), val(g)}, b[3] = {val(g), val(g), val(g)};
    if(g.p(1, 8))
        b[g.draw(2)] = a[g.draw(2)];
    const Point3 p(a[0], a[1], a[2]), q(b[0], b[1], b[2]);
    const Vec3 v(b[0], b[1], b[2]);
    g.note("p=", p, " q=", q);
    g.nontrivial(a[0] != a[1] && a[1] != a[2] && b[0] != b[1]);
    Vec3 d = p-q;
    Point3 s1 = p+v, s2 = p-v, i1 = p, i2 = p, mx = max(p, q), mn = min(p, q), mxi = p, mni = p;
    i1 += v;
    i2 -= v;
    mxi.max(q);
    mni.min(q);
    for(int k = 0; k<3; k++)
    {
        EXACT(d[k], (double)a[k]-b[k]);
        EXACT(s1[k], (double)a[k]+b[k]);
        EXACT(s2[k], (double)a[k]-b[k]);
        EXACT(i1[k], (double)a[k]+b[k]);
        EXACT(i2[k], (double)a[k]-b[k]);
        CHECK(mx[k] == std::fmax(a[k], b[k]) && mxi[k] == mx[k], "max ", k);
        CHECK(mn[k] == std::fmin(a[k], b[k]) && mni[k] == mn[k], "min ", k);
        CHECK(p[k] == a[k], "component ", k);
    }
    D3 A(p), B(q);
    CHECK(pbt::near(p.distance(q), (A-B).len(), R*(A.maxabs()+B.maxabs())), "distance");
    CHECK(pbt::near(distance(p, q), (A-B).len(), R*(A.maxabs()+B.maxabs())), "distance function");
    bool far = (A-B).maxabs()>1e-6;
    CHECK((p == q) != (p != q) && p == p, "comparison");
    if(far)
        CHECK(!(p == q), "different points compare equal");
    if(A.x == B.x && A.y == B.y && A.z == B.z)
        CHECK(p == q, "equal points compare different");
    Ray r(p, v);
    float t = val(g);
    Point3 at = r.apply(t);
    for(int k = 0; k<3; k++)
        CHECK(pbt::near(at[k], (double)a[k]+(double)b[k]*t, R*(std::fabs(a[k])+std::fabs((double)b[k]*t))), "ray point ", k, " = ", at[k]);
    Ray r2(a[0], a[1], a[2], b[0], b[1], b[2]);
    CHECK(r2.origin.x == a[0] && r2.origin.y == a[1] && r2.origin.z == a[2] && r2.direction.x == b[0] && r2.direction.y == b[1] && r2.direction.z == b[2], "ray constructor");
}

PROP(reflect_refract, 400000, 6000000, "mirror and refraction of a direction at a normal; non-trivial: oblique incidence")
{
    Vec3 n = gen_dir(g), s = gen_dir(g);
    D3 N = D3(n), S = D3(s);
    float eta = g.logf(0.3f, 3.f);
    double c = S.dot(N);
    g.note("s=", s, " n=", n, " eta=", eta);
    g.nontrivial(std::fabs(c)<0.999 && std::fabs(c)>0.001);
    D3 want = S-N*(2*c);
    Vec3 m = s;
    m.reflect(n);
    CHECK(near3(D3(m), want, 1e-5) && near3(D3(reflect(s, n)), want, 1e-5), "reflect ", m, " expected ", want);
    Vec3 m2 = s;
    m2.reflect(Normal(n));
    CHECK(near3(D3(m2), want, 1e-5) && near3(D3(reflect(s, Normal(n))), want, 1e-5), "reflect about a Normal");
    if(c<0)
    {
        s = -s;
        S = -S;
        c = -c;
    }
    double sin2t = std::fmax(0., 1-c*c)*eta*eta;
    Vec3 a = s, b = s;
    bool ra = a.refract(n, eta), rb = b.refract(Normal(n), eta);
    Vec3 fa = refract(s, n, eta), fb = refract(s, Normal(n), eta);
    if(sin2t>1+1e-5)
    {
        g.label("total internal reflection");
        CHECK(!ra && !rb, "refracted beyond the critical angle");
        CHECK(near3(D3(a), S, 0) && near3(D3(b), S, 0), "vector changed on total internal reflection");
        CHECK(D3(fa).len() == 0 && D3(fb).len() == 0, "non zero result on total internal reflection");
    }
    else if(sin2t<1-1e-5)
    {
        CHECK(ra && rb, "not refracted below the critical angle");
        double ct = std::sqrt(1-sin2t);
        D3 T = S*(-(double)eta)+N*(c*eta-ct);
        double tol = 1e-5+3e-6/ct;
        CHECK(near3(D3(a), T, tol) && near3(D3(b), T, tol) && near3(D3(fa), T, tol) && near3(D3(fb), T, tol), "refracted ", a, " ", b, " ", fa, " ", fb, " expected ", T);
    }
}
