// flavours: rgb
#include "common.hpp"

static Matrix4 raw(pbt::Gen& g)
{
    float v[16];
    int kind = (int)g.draw(3);
    for(int i = 0; i<16; i++)
    {
        switch(kind)
        {
            case 0: v[i] = (float)((int)g.draw(8)-4);
                break;
            case 1: v[i] = g.f(-10.f, 10.f);
                break;
            case 2: v[i] = g.f(-1000.f, 1000.f);
                break;
            default:
                // affine
                v[i] = i>=12?(i == 15?1.f:0.f):g.f(-20.f, 20.f);
        }
    }
    return Matrix4(v);
}
static double at(const Matrix4& m, int i, int j)
{
    float v[16];
    m.to_array(v);
    return v[i*4+j];
}

PROP(matrix_algebra, 250000, 4000000, "sums, products and transpositions of arbitrary matrices against double precision; non-trivial: neither factor symmetric")
{
    Matrix4 a = raw(g), b = raw(g);
    g.note("A=", a.to_string(), "\nB=", b.to_string());
    DM A(a), B(b), P = A*B, PA = A.abs()*B.abs();
    Matrix4 s1 = a+b, s2 = a-b, p = a*b, i1 = a, i2 = a, i3 = a, f1, f2, f3, t, tt;
    i1 += b;
    i2 -= b;
    i3 *= b;
    sum(&a, &b, &f1);
    sub(&a, &b, &f2);
    mul(&a, &b, &f3);
    a.transpose(&t);
    t.transpose(&tt);
    bool sym = true;
    for(int i = 0; i<4; i++)
        for(int j = 0; j<4; j++)
        {
            double e = A.m[i][j]+B.m[i][j], tol = 1e-6*(std::fabs(A.m[i][j])+std::fabs(B.m[i][j]));
            CHECK(pbt::near(at(s1, i, j), e, tol) && pbt::near(at(i1, i, j), e, tol) && pbt::near(at(f1, i, j), e, tol), "sum element ", i, j);
            e = A.m[i][j]-B.m[i][j];
            CHECK(pbt::near(at(s2, i, j), e, tol) && pbt::near(at(i2, i, j), e, tol) && pbt::near(at(f2, i, j), e, tol), "difference element ", i, j);
            tol = 2e-6*PA.m[i][j];
            CHECK(pbt::near(at(p, i, j), P.m[i][j], tol), "product element ", i, j, " = ", at(p, i, j), " expected ", P.m[i][j]);
            CHECK(pbt::near(at(i3, i, j), P.m[i][j], tol), "compound product element ", i, j, " = ", at(i3, i, j), " expected ", P.m[i][j]);
            CHECK(pbt::near(at(f3, i, j), P.m[i][j], tol), "product function element ", i, j, " = ", at(f3, i, j), " expected ", P.m[i][j]);
            CHECK(at(t, i, j) == A.m[j][i], "transposed element ", i, j);
            CHECK(at(tt, i, j) == A.m[i][j], "twice transposed element ", i, j);
            sym = sym && A.m[i][j] == A.m[j][i];
        }
    g.nontrivial(!sym);
    // squaring in place
    Matrix4 sq = a;
    sq *= sq;
    DM S = A*A, SA = A.abs()*A.abs();
    for(int i = 0; i<4; i++)
        for(int j = 0; j<4; j++)
            CHECK(pbt::near(at(sq, i, j), S.m[i][j], 2e-6*SA.m[i][j]), "square element ", i, j);
    // identity is neutral
    Matrix4 id;
    id.set_identity();
    CHECK(a*id == a && id*a == a, "identity is not neutral");
    CHECK((a == b) != (a != b), "comparison");
    bool far = false;
    for(int i = 0; i<16; i++)
        far = far || std::fabs(A.m[i/4][i%4]-B.m[i/4][i%4])>1e-4;
    if(far)
        CHECK(!(a == b), "different matrices compare equal");
    CHECK(a == a && !(a != a), "reflexive");
    // one element decides
    float v[16];
    a.to_array(v);
    int k = (int)g.draw(15);
    v[k] += 1.f;
    Matrix4 d(v);
    CHECK(d != a && !(d == a), "matrices that differ in element ", k, " compare equal");
    Matrix4 z = a;
    z.set_zero();
    for(int i = 0; i<16; i++)
        CHECK(at(z, i/4, i%4) == 0, "zero matrix");
}

PROP(matrix_builders, 200000, 3000000, "translation, scale, rotation and camera frame matrices applied to points and vectors; non-trivial: generic argument")
{
    Vec3 v = gen_vec(g, 100.f);
    Point3 p = gen_point(g, 100.f);
    float a = g.p(1, 3)?(float)((int)g.draw(8)-4)*0.785398163f:(float)((g.d01()*2-1)*6.5);
    g.note("v=", v, " p=", p, " angle=", a);
    g.nontrivial(v.x != 0 && v.y != 0 && v.z != 0 && v.x != v.y);
    Matrix4 m;
    double sc = D3(p).maxabs()+D3(v).maxabs()+1;
    m.set_translation(v);
    CHECK(near3(D3(m*p), D3(p)+D3(v), 1e-6*sc), "translated point");
    CHECK(near3(D3(m*v), D3(v), 1e-6*sc), "translation must not move a vector");
    CHECK(near3(D3(m.get_translation()), D3(v), 0), "get_translation");
    m.set_scale(v);
    CHECK(near3(D3(m*p), D3((double)v.x*p.x, (double)v.y*p.y, (double)v.z*p.z), 1e-6*sc*sc), "scaled point");
    CHECK(near3(D3(m.get_scale()), D3(std::fabs(v.x), std::fabs(v.y), std::fabs(v.z)), 1e-6*sc), "get_scale");
    m.set_scale(a);
    CHECK(near3(D3(m*p), D3(p)*(double)a, 1e-5*sc), "uniformly scaled point");
    for(int ax = 0; ax<3; ax++)
    {
        if(ax == 0)
            m.set_rotate_x(a);
        else if(ax == 1)
            m.set_rotate_y(a);
        else
            m.set_rotate_z(a);
        DM R = d_rot(ax, a);
        CHECK(near3(D3(m*p), R.point(D3(p)), 3e-6*sc), "point rotated about axis ", ax, " = ", m*p, " expected ", R.point(D3(p)));
        CHECK(near3(D3(m*v), R.vec(D3(v)), 3e-6*sc), "vector rotated about axis ", ax);
    }
    Placement pl = gen_placement(g);
    Matrix4 pm = pl.m();
    g.note(pl);
    Vec3 gs = pm.get_scale();
    D3 as(std::fabs(pl.scale.x), std::fabs(pl.scale.y), std::fabs(pl.scale.z));
    CHECK(near3(D3(gs), as, 1e-5*as.maxabs()), "get_scale of a placement ", gs, " expected ", as);
    CHECK(near3(D3(pm.get_translation()), pl.pos, 1e-5*(1+pl.pos.maxabs())), "get_translation of a placement");
    DM D(pm);
    CHECK(near3(D3(pm*p), D.point(D3(p)), 2e-6*(D.abs().point(D3(sc, sc, sc)).maxabs())), "placed point");
    CHECK(near3(D3(pm*v), D.vec(D3(v)), 2e-6*(D.abs().vec(D3(sc, sc, sc)).maxabs())), "placed vector");
    Ray r(p, v);
    r.ricochet = (unsigned char)g.draw(7);
    Ray tr = pm*r;
    CHECK(near3(D3(tr.origin), D3(pm*p), 1e-5*(1+D3(pm*p).maxabs())) && near3(D3(tr.direction), D3(pm*v), 1e-5*(1+D3(pm*v).maxabs())), "placed ray");
}

PROP(projective_point, 100000, 1000000, "points under matrices with a projective row; non-trivial: divisor different from one")
{
    Matrix4 a = raw(g);
    Point3 p(g.f(-5.f, 5.f), g.f(-5.f, 5.f), g.f(-5.f, 5.f));
    DM A(a);
    double w = A.m[3][0]*p.x+A.m[3][1]*p.y+A.m[3][2]*p.z+A.m[3][3];
    double wa = std::fabs(A.m[3][0]*p.x)+std::fabs(A.m[3][1]*p.y)+std::fabs(A.m[3][2]*p.z)+std::fabs(A.m[3][3]);
    if(std::fabs(w)<1e-2*wa || w == 0)
    {
        g.label("divisor too close to zero");
        return;
    }
    g.nontrivial(w != 1);
    g.note("A=", a.to_string(), " p=", p);
    D3 e = A.point(D3(p))*(1/w);
    DM B = A.abs();
    D3 ea = B.point(D3(std::fabs(p.x), std::fabs(p.y), std::fabs(p.z)))*(1/std::fabs(w));
    CHECK(near3(D3(a*p), e, 1e-6*(ea.maxabs()*(2+2*wa/std::fabs(w)))), "projected point ", a*p, " expected ", e);
}

PROP(inverse_general, 150000, 3000000, "inverses of arbitrary well conditioned 4x4 matrices; non-trivial: not affine")
{
    Matrix4 a = raw(g);
    DM A(a);
    // Gauss-Jordan in double precision
    double w[4][8];
    double norm = 0;
    for(int i = 0; i<4; i++)
        for(int j = 0; j<4; j++)
        {
            w[i][j] = A.m[i][j];
            w[i][j+4] = i == j;
            norm = std::fmax(norm, std::fabs(A.m[i][j]));
        }
    bool singular = norm == 0;
    for(int c = 0; c<4 && !singular; c++)
    {
        int piv = c;
        for(int i = c+1; i<4; i++)
            if(std::fabs(w[i][c])>std::fabs(w[piv][c]))
                piv = i;
        if(std::fabs(w[piv][c])<1e-9*norm)
        {
            singular = true;
            break;
        }
        for(int j = 0; j<8; j++)
            std::swap(w[c][j], w[piv][j]);
        for(int i = 0; i<4; i++)
            if(i != c)
            {
                double f = w[i][c]/w[c][c];
                for(int j = 0; j<8; j++)
                    w[i][j] -= f*w[c][j];
            }
    }
    if(singular)
    {
        g.label("singular");
        return;
    }
    double inorm = 0;
    for(int i = 0; i<4; i++)
        for(int j = 4; j<8; j++)
        {
            w[i][j] /= w[i][i];
            inorm = std::fmax(inorm, std::fabs(w[i][j]));
        }
    double cond = norm*inorm;
    if(cond>1e4)
    {
        g.label("badly conditioned");
        return;
    }
    g.note("A=", a.to_string());
    g.nontrivial(A.m[3][0] != 0 || A.m[3][1] != 0 || A.m[3][2] != 0 || A.m[3][3] != 1);
    {
        // without one of its rows or columns it is singular
        float v[16];
        a.to_array(v);
        int k = (int)g.draw(3);
        bool row = g.b();
        for(int j = 0; j<4; j++)
            v[row?k*4+j:j*4+k] = 0;
        Matrix4 s(v), out;
        CHECK(!s.inverse(&out), "a matrix with a zero ", row?"row":"column", " is reported as invertible");
    }
    Matrix4 inv;
    CHECK(a.inverse(&inv), "an invertible matrix is reported as singular");
    for(int i = 0; i<4; i++)
        for(int j = 0; j<4; j++)
            // cofactor expansion loses up to a few powers of the condition number
            CHECK(pbt::near(at(inv, i, j), w[i][j+4], 2e-5*inorm*cond), "inverse element ", i, j, " = ", at(inv, i, j), " expected ", w[i][j+4]);
}

PROP(placement_inverse, 300000, 4000000, "placements (scale 1e-3..1e3, rotation, translation), their inverse, points, directions and normals; non-trivial: rotated or non uniform")
{
    Placement pl = gen_placement(g, g.p(1, 3)?1e-3f:0.05f, g.p(1, 3)?1e3f:20.f);
    Matrix4 m = pl.m(), inv;
    g.note(pl);
    bool nonuni = pl.scale.x != pl.scale.y || pl.scale.y != pl.scale.z;
    g.nontrivial(nonuni || pl.rot.maxabs()>0);
    if(pl.scale.maxabs()<0.02)
        g.label("scale below 0.02");
    DM D(m), DI;
    D.affine_inverse(&DI);
    CHECK(m.inverse(&inv), "placement reported as singular");
    D3 as(std::fabs(pl.scale.x), std::fabs(pl.scale.y), std::fabs(pl.scale.z));
    double cond = as.maxabs()/std::fmin(as.x, std::fmin(as.y, as.z));
    double in = 1/std::fmin(as.x, std::fmin(as.y, as.z));
    for(int i = 0; i<3; i++)
        for(int j = 0; j<4; j++)
        {
            double tol = 4e-6*cond*cond*in*(j == 3?1+pl.pos.maxabs()*2:1);
            CHECK(pbt::near(at(inv, i, j), DI.m[i][j], tol), "inverse element ", i, j, " = ", at(inv, i, j), " expected ", DI.m[i][j]);
        }
    // inverses undo, in both orders
    Point3 p(g.f(-3.f, 3.f), g.f(-3.f, 3.f), g.f(-3.f, 3.f));
    Point3 back = inv*(m*p);
    double tol = 1e-5*cond*cond*(1+in)*(3+pl.pos.maxabs()*2+3*as.maxabs());
    if(tol<0.1)
    {
        g.label("round trip checked");
        CHECK(near3(D3(back), D3(p), tol), "inverse does not undo: ", back, " from ", p);
    }
    // the normal of a transformed plane is perpendicular to the transformed plane
    Vec3 n = gen_dir(g), t = gen_dir(g);
    D3 T = D3(n).cross(D3(t));
    if(T.len()<0.1)
        return;
    T = T.norm();
    Normal tn = transform_normal(Normal(n), &inv);
    D3 E = DI.vec_transposed(D3(n));
    CHECK(near3(D3(tn), E, 1e-5*cond*cond*in), "transformed normal ", tn, " expected ", E);
    D3 TT = D.vec(T);
    double c = D3(tn).norm().dot(TT.norm());
    CHECK(std::fabs(c)<=1e-5*cond*cond, "transformed normal is not perpendicular: cosine ", c);
}

PROP(lookat, 200000, 3000000, "camera frames from position, target and up; non-trivial: oblique up vector")
{
    Point3 pos = gen_point(g, 50.f);
    Vec3 d = gen_dir(g), up = gen_dir(g);
    float dist = g.logf(0.01f, 100.f);
    Point3 target = pos+d*dist;
    D3 dir = D3(target)-D3(pos);
    if(dir.len()<1e-3*dist || dir.len()<1e-5*(1+D3(pos).maxabs())*100)
        return;
    dir = dir.norm();
    D3 U = D3(up).norm();
    double c = std::fabs(dir.dot(U));
    if(c>0.999)
    {
        g.label("up parallel to view");
        return;
    }
    float ul = g.p(1, 3)?g.logf(0.1f, 10.f):1.f;
    Vec3 sup = up*ul;
    g.note("pos=", pos, " target=", target, " up=", sup);
    g.nontrivial(c>0.01);
    Matrix4 m;
    m.set_lookAt_inverse(pos, target, sup);
    D3 left = U.cross(dir).norm(), nu = dir.cross(left);
    double k = 1/std::sqrt(1-c*c);
    double tol = 3e-5*k+1e-6*k*(1+D3(pos).maxabs())/dist;
    // x axis: up x view, y axis: the up vector made perpendicular, z axis: view
    CHECK(near3(D3(m*Vec3(1, 0, 0)), left, tol), "x axis ", m*Vec3(1, 0, 0), " expected ", left);
    CHECK(near3(D3(m*Vec3(0, 1, 0)), nu, tol), "y axis ", m*Vec3(0, 1, 0), " expected ", nu);
    CHECK(near3(D3(m*Vec3(0, 0, 1)), dir, tol), "z axis ", m*Vec3(0, 0, 1), " expected ", dir);
    CHECK(near3(D3(m*Point3(0, 0, 0)), D3(pos), 1e-6*(1+D3(pos).maxabs())), "origin");
}
