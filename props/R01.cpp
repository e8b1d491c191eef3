// flavours: rgb fast
// R01: the random generator
#include "common.hpp"
#include "utility/wellrng.hpp"
#include <deque>

namespace
{
// WELL1024a as published: a shift register of 32 words
struct Well
{
    std::deque<uint32_t> v;
    explicit Well(const unsigned int* s) : v(s, s+32) { }
    static uint32_t m3(int t, uint32_t x) { return t>=0?x^(x >> t):x^(x << -t); }
    uint32_t next()
    {
        uint32_t z0 = v[31], z1 = v[0]^m3(8, v[3]), z2 = m3(-19, v[24])^m3(-14, v[10]);
        uint32_t z3 = z1^z2, z4 = m3(-11, z0)^m3(-7, z1)^m3(-13, z2);
        v.pop_back();
        v[0] = z3;
        v.push_front(z4);
        return z4;
    }
};
void gen_seed(pbt::Gen& g, unsigned int* s)
{
    switch(g.draw(3))
    {
        case 0: // few bits
            for(int k = 0; k<32; k++)
                s[k] = 0;
            for(int k = 0; k<=(int)g.draw(3); k++)
                s[g.draw(31)] |= 1u << g.draw(31);
            break;
        case 1:
            for(int k = 0; k<32; k++)
                s[k] = g.p(1, 4)?0xffffffffu:(uint32_t)g.draw(0xffffffffu);
            break;
        default:
            for(int k = 0; k<32; k++)
                s[k] = (uint32_t)g.draw(0xffffffffu);
    }
}
}
PROP(recurrence, 60000, 800000, "seeds of 32 words (random, sparse, saturated), up to 200 draws: the published WELL1024a recurrence scaled by 2^-32, between 0 and 1; interleaved with another generator and with a copy; non-trivial: more than one full turn of the state")
{
    unsigned int s[32], s2[32];
    gen_seed(g, s);
    gen_seed(g, s2);
    unsigned int keep[32];
    std::memcpy(keep, s, sizeof(s));
    WELLrng a(s), other(s2);
    Well ref(s), ref2(s2);
    CHECK(!std::memcmp(s, keep, sizeof(s)), "the seed was modified");
    int n = (int)g.size(1, 200);
    g.nontrivial(n>40);
    int fork = (int)g.draw(n);
    std::vector<float> tail;
    WELLrng copy(s);
    for(int k = 0; k<n; k++)
    {
        if(k == fork)
            copy = a;
        float f = a.getNumber();
        uint32_t r = ref.next();
        CHECK(f == (float)((double)(float)r/4294967296.0), "draw ", k, " is ", f, ", the recurrence gives ", r/4294967296.0);
        CHECK(f>=0 && f<=1, "draw ", k, " is ", f);
        if(k>=fork)
            tail.push_back(f);
        if(g.p(1, 3))
        {
            float f2 = other.getNumber();
            uint32_t q = ref2.next();
            CHECK(f2 == (float)((double)(float)q/4294967296.0), "a generator is disturbed by another one");
        }
    }
    for(size_t k = 0; k<tail.size(); k++)
        CHECK(copy.getNumber() == tail[k], "a copied generator does not continue the sequence");
}
PROP(extremes, 60000, 800000, "seeds built so that the next draw is a chosen 32 bit word, near the ends of the range: still between 0 and 1 and scaled right; non-trivial: the word is within 300 of an end")
{
    uint32_t t = g.p(1, 2)?(uint32_t)g.draw(300):(g.p(2, 3)?0xffffffffu-(uint32_t)g.draw(300):(uint32_t)g.draw(0xffffffffu));
    g.nontrivial(t<=300 || t>=0xffffffffu-300);
    unsigned int s[32];
    for(int k = 0; k<32; k++)
        s[k] = (uint32_t)g.draw(0xffffffffu);
    s[0] = s[3] = s[24] = s[10] = 0; // only the last word matters
    uint32_t z = t;
    for(int k = 0; k<4; k++)
        z = t^(z << 11);
    s[31] = z;
    g.note("word ", t);
    WELLrng a(s);
    float f = a.getNumber();
    CHECK(f>=0 && f<=1, "the draw is ", f);
    CHECK(std::fabs(f-t/4294967296.0)<=6e-8, "the draw is ", f, " for the word ", t);
}
PROP(unrelated, 40000, 400000, "two seeds that differ in a single bit: the sequences differ within one turn of the state and become uncorrelated; non-trivial: always")
{
    unsigned int s[32], s2[32];
    for(int k = 0; k<32; k++)
        s2[k] = s[k] = (uint32_t)g.draw(0xffffffffu);
    int w = (int)g.draw(31), b = (int)g.draw(31);
    s2[w] ^= 1u << b;
    g.nontrivial();
    WELLrng a(s), c(s2);
    int same = 0;
    for(int k = 0; k<2000; k++)
    {
        float x = a.getNumber(), y = c.getNumber();
        if(k>=1800 && x == y)
            same++;
    }
    CHECK(same<20, same, " of 200 late draws are equal for seeds that differ in bit ", b, " of word ", w);
}
PROP(uniform, 3000, 40000, "random seeds, 16384 draws in 64 bins, as pairs in 8x8 bins and by mean and variance; non-trivial: always (false alarm below 1e-9 per case)")
{
    unsigned int s[32];
    for(int k = 0; k<32; k++)
        s[k] = (uint32_t)g.draw(0xffffffffu);
    g.nontrivial();
    WELLrng a(s);
    const int n = 16384;
    std::vector<int> h(64), p(64);
    double sum = 0, sq = 0;
    float last = 0;
    for(int k = 0; k<n; k++)
    {
        float f = a.getNumber();
        h[std::min(63, (int)(f*64))]++;
        if(k&1)
            p[std::min(7, (int)(last*8))*8+std::min(7, (int)(f*8))]++;
        last = f;
        sum += f;
        sq += (f-0.5)*(f-0.5);
    }
    double c1 = 0, c2 = 0;
    for(int k = 0; k<64; k++)
    {
        c1 += std::pow(h[k]-n/64., 2)/(n/64.);
        c2 += std::pow(p[k]-n/128., 2)/(n/128.);
    }
    CHECK(c1<170, "chi-square of the bins ", c1);
    CHECK(c2<170, "chi-square of the pairs ", c2);
    CHECK(std::fabs(sum/n-0.5)<7*0.2887/128, "mean ", sum/n);
    CHECK(std::fabs(sq/n-1/12.)<7*0.0746/128, "variance ", sq/n);
}
