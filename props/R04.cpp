// flavours: rgb fast
// R04: numeric helpers
#include "common.hpp"
#include "utility/utility.hpp"

namespace
{
float any(pbt::Gen& g, float lo = 1e-6f, float hi = 1e6f)
{
    if(g.p(1, 10))
        return 0;
    float m = g.p(1, 3)?(float)g.i(1, 20):g.logf(lo, hi);
    return g.b()?-m:m;
}
}
PROP(quadratic, 3000000, 40000000, "coefficients over twelve decades, also near a double root, with no linear or constant part: both roots or none against the exact discriminant; non-trivial: two roots")
{
    float a = any(g, 1e-3f, 1e3f), b = any(g, 1e-3f, 1e3f), c = any(g, 1e-3f, 1e3f);
    if(a == 0)
        a = 1;
    if(g.p(1, 3)) // close to a double root
        c = (float)((double)b*b/(4.*a)*(1+g.pick({0., 1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3})));
    double A = a, B = b, C = c, d = B*B-4*A*C, scale = B*B+std::fabs(4*A*C);
    g.note("a ", a, " b ", b, " c ", c, " discriminant ", d);
    float x1 = -777, x2 = -777;
    bool r = equation2(a, b, c, &x1, &x2);
    if(d>2e-6*scale || scale == 0)
        CHECK(r, "no root reported, the discriminant is ", d);
    if(d< -3e-6*scale)
        CHECK(!r, "a root reported, the discriminant is ", d);
    if(!r)
        return;
    if(std::fabs(d)>scale*1e-5)
        g.nontrivial();
    for(double x : {(double)x1, (double)x2})
    {
        CHECK(std::isfinite(x), "root ", x);
        double res = A*x*x+B*x+C, mag = std::fabs(A*x*x)+std::fabs(B*x)+std::fabs(C);
        CHECK(std::fabs(res)<=4e-6*mag+1e-30, "root ", x, " leaves a residue of ", res, " of ", mag);
    }
    double s = x1+(double)x2, p = x1*(double)x2, big = std::fabs(x1)+std::fabs(x2);
    CHECK(std::fabs(s+B/A)<=3e-3*big+1e-30, "the roots ", x1, " and ", x2, " add up to ", s, ", wants ", -B/A);
    CHECK(std::fabs(p-C/A)<=3e-3*(std::fabs(p)+std::fabs(C/A))+1e-30, "the product of the roots is ", p, ", wants ", C/A);
}
PROP(simple, 2000000, 30000000, "linear equations, interpolation and its inverse, clamping, extremes, exchange, signs, angles; non-trivial: always")
{
    g.nontrivial();
    float a = any(g), b = any(g), c = any(g);
    float lo = std::min(a, b), hi = std::max(a, b);
    if(a != 0)
        CHECK(pbt::near(equation1(a, b), -(double)b/a, 0, 1e-6), "linear equation ", a, " ", b, " gives ", equation1(a, b));
    float t = g.unit();
    double want = (1-(double)t)*a+(double)t*b;
    CHECK(std::fabs(lerp(t, a, b)-want)<=1e-6*(std::fabs(a)+std::fabs(b)), "interpolation at ", t, " between ", a, " and ", b, " gives ", lerp(t, a, b));
    CHECK(lerp(0.f, a, b) == a && lerp(1.f, a, b) == b, "interpolation misses its ends");
    if(std::fabs(a-b)>1e-3*(std::fabs(a)+std::fabs(b)))
        CHECK(std::fabs(inverse_lerp((float)want, a, b)-t)<=1e-3, "inverse interpolation gives ", inverse_lerp((float)want, a, b), " wants ", t);
    float k = clamp(c, lo, hi);
    CHECK(k == (c<lo?lo:(c>hi?hi:c)), "clamping ", c, " to ", lo, " ", hi, " gives ", k);
    CHECK(min(a, b) == lo && max(a, b) == hi, "extremes of ", a, " ", b);
    int i = (int)g.i(-2147483648LL, 2147483647LL), j = (int)g.i(-2147483648LL, 2147483647LL);
    CHECK(min(i, j) == std::min(i, j) && max(i, j) == std::max(i, j), "extremes of ", i, " ", j);
    CHECK(sign(a) == (a<0?-1:1), "sign of ", a);
    CHECK(pbt::near(radians(a), a*3.14159265358979/180, 0, 1e-6) && pbt::near(degrees(a), a*180/3.14159265358979, 0, 1e-6), "angle ", a);
    float x = a, y = b;
    swap(&x, &y);
    CHECK(x == b && y == a, "exchange of ", a, " ", b);
    uint8_t p = (uint8_t)g.draw(255), q = (uint8_t)g.draw(255), p0 = p, q0 = q;
    swap(&p, &q);
    CHECK(p == q0 && q == p0, "exchange of bytes");
    double gap = std::fabs((double)a-(float)(a+c));
    if(std::fabs(gap-1e-5)>1e-6)
        CHECK(flt_equal(a, a+c) == (gap<1e-5), "equality of ", a, " and ", a+c);
    uint32_t num = (uint32_t)g.draw(g.b()?1000:2000000000), mul = (uint32_t)g.i(1, g.b()?100:100000);
    uint32_t n = nearest_uint(num, mul);
    CHECK(n%mul == 0, n, " is not a multiple of ", mul);
    uint64_t dist = n>num?n-num:num-n;
    CHECK(2*dist<=mul, n, " is not the multiple of ", mul, " nearest to ", num);
}
PROP(bytes, 300000, 4000000, "byte order reversal of 16 and 32 bit numbers: against the bytes, and its own inverse; non-trivial: always")
{
    uint32_t a = (uint32_t)g.draw(0xffffffffu);
    uint16_t b = (uint16_t)g.draw(0xffff);
    g.nontrivial();
    CHECK(swap_endianness(a) == __builtin_bswap32(a) && swap_endianness(swap_endianness(a)) == a, "32 bit ", a);
    CHECK(swap_endianness(b) == __builtin_bswap16(b) && swap_endianness(swap_endianness(b)) == b, "16 bit ", b);
}
PROP(time, 300000, 8640000, "durations from 0 to beyond 100 days: the text names every non-zero unit and adds up to the duration, within 17 bytes; non-trivial: two units or more")
{
    uint32_t s = g.p(1, 4)?(uint32_t)g.draw(8640001):(g.p(1, 3)?(uint32_t)g.draw(4000):(uint32_t)(86400*g.draw(100)+3600*g.draw(23)+60*g.draw(59)+g.draw(59)));
    if(g.p(1, 30))
        s = (uint32_t)g.draw(0xffffffffu);
    char buf[MAX_TIME_FORMAT_LENGTH+1];
    std::memset(buf, '#', sizeof(buf));
    char* out = (char*)malloc(MAX_TIME_FORMAT_LENGTH);
    format_seconds(s, out);
    std::string t = out;
    free(out);
    g.note(s, " seconds: '", t, "'");
    if(s == 0)
        CHECK(t == MESSAGE_LESS_THAN_1_SECOND, t);
    else if(s>=8640000)
        CHECK(t == MESSAGE_MORE_THAN_100_DAYS, t);
    else
    {
        std::string want;
        int units = 0;
        for(auto u : {std::make_pair(86400u, 'd'), std::make_pair(3600u, 'h'), std::make_pair(60u, 'm'), std::make_pair(1u, 's')})
        {
            uint32_t n = s/u.first;
            if(u.second == 'h')
                n %= 24;
            else if(u.second != 'd')
                n %= 60;
            if(n)
            {
                want += std::to_string(n)+u.second+" ";
                units++;
            }
        }
        g.nontrivial(units>1);
        CHECK(t == want, "'", t, "' wants '", want, "'");
    }
}
