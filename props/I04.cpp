// flavours: rgb rgbT
#include "pbt.hpp"
#include "utility/array2D.hpp"
#include <memory>
#include <sanitizer/allocator_interface.h>

template <typename T>
T gen_value(pbt::Gen& g);
template <>
int gen_value<int>(pbt::Gen& g) { return (int)g.draw(0xFFFFFFFFu); }
template <>
uint8_t gen_value<uint8_t>(pbt::Gen& g) { return (uint8_t)g.draw(255); }
struct Pix
{
    float a, b, c;
    bool operator==(const Pix& o) const { return a == o.a && b == o.b && c == o.c; }
};
template <>
Pix gen_value<Pix>(pbt::Gen& g) { return Pix{g.unit_plain(), g.unit_plain(), (float)g.draw(9)}; }

// model: a plain row-major vector of the requested side, with "unknown" cells
template <typename T>
struct Model
{
    int side;
    std::vector<T> v;
    std::vector<char> known;
};

template <typename T>
void compare(const Array2D<T>& a, const Model<T>& m, const char* what)
{
    for(int y = 0; y<m.side; y++)
        for(int x = 0; x<m.side; x++)
            if(m.known[y*m.side+x])
                CHECK(a.get(x, y) == m.v[y*m.side+x], what, " element ", x, ",", y, " of side ", m.side);
}

template <typename T>
void history(pbt::Gen& g, int max_side)
{
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
        std::vector<std::unique_ptr<Array2D<T>>> arr;
        std::vector<Model<T>> mod;
        int steps = (int)g.size(1, 12);
        bool copied = false;
        for(int s = 0; s<steps; s++)
        {
            int op = arr.empty()?(int)g.draw(1):(int)g.draw(7);
            if(op == 0 && arr.size()<4)
            {
                int side = (int)g.size(1, max_side);
                g.note("Array2D(", side, ")");
                arr.emplace_back(new Array2D<T>((uint32_t)side));
                mod.push_back({side, std::vector<T>(side*side), std::vector<char>(side*side, 0)});
            }
            else if(op == 1 && arr.size()<4)
            {
                int side = (int)g.size(1, max_side);
                g.note("Array2D(values,", side, ")");
                Model<T> m{side, std::vector<T>(side*side), std::vector<char>(side*side, 1)};
                for(auto& e : m.v)
                    e = gen_value<T>(g);
                arr.emplace_back(new Array2D<T>(m.v.data(), (uint32_t)side));
                mod.push_back(m);
            }
            else if(!arr.empty())
            {
                size_t k = g.draw(arr.size()-1);
                Array2D<T>& a = *arr[k];
                Model<T>& m = mod[k];
                if(op<=3)
                {
                    int n = (int)g.size(1, 60);
                    g.note("set ", n, " cells of #", k);
                    for(int i = 0; i<n; i++)
                    {
                        int x = (int)g.draw(m.side-1), y = (int)g.draw(m.side-1);
                        T v = gen_value<T>(g);
                        a.set(x, y, v);
                        m.v[y*m.side+x] = v;
                        m.known[y*m.side+x] = 1;
                        CHECK(a.get(x, y) == v, "get after set ", x, ",", y);
                    }
                }
                else if(op == 4)
                {
                    g.note("zero #", k);
                    a.zero_out();
                    T z;
                    memset((void*)&z, 0, sizeof(z));
                    std::fill(m.v.begin(), m.v.end(), z);
                    std::fill(m.known.begin(), m.known.end(), 1);
                }
                else if(op == 5)
                {
                    size_t j = g.draw(arr.size()-1);
                    g.note("#", k, " = #", j);
                    copied = true;
                    a = *arr[j];
                    if(j != k)
                        mod[k] = mod[j];
                }
                else if(op == 6 && arr.size()<4)
                {
                    g.note("copy of #", k);
                    copied = true;
                    arr.emplace_back(new Array2D<T>(a));
                    Model<T> mm = m;
                    mod.push_back(mm);
                }
                else if(op == 7 && arr.size()>1)
                {
                    g.note("destroy #", k);
                    arr.erase(arr.begin()+k);
                    mod.erase(mod.begin()+k);
                }
            }
            if(s%3 == 0)
                for(size_t k = 0; k<arr.size(); k++)
                    compare(*arr[k], mod[k], "history");
        }
        for(size_t k = 0; k<arr.size(); k++)
            compare(*arr[k], mod[k], "end");
        g.nontrivial(!arr.empty() && steps>1);
        if(copied)
            g.label("history with copy or assignment");
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    CHECK(after<=before+64*1024, "memory grew by ", (long)(after-before), " bytes over the history");
}

PROP(array_history_int, 24000, 300000, "history of construct/set/zero/assign/copy/destroy on up to four arrays; non-trivial: more than one step")
{
    history<int>(g, 90);
}
PROP(array_history_bytes, 12000, 150000, "same with one byte elements")
{
    history<uint8_t>(g, 70);
}
PROP(array_history_pixels, 12000, 150000, "same with three float elements")
{
    history<Pix>(g, 40);
}
PROP(array_large, 600, 6000, "one large array (side up to 1100) with boundary and random cells; all non-trivial")
{
    int side = (int)g.i(64, 1100);
    Array2D<int> a((uint32_t)side);
    std::map<std::pair<int, int>, int> m;
    int n = (int)g.i(50, 400);
    g.note("side ", side, " cells ", n);
    for(int i = 0; i<n; i++)
    {
        int x = g.p(1, 3)?side-1:(int)g.draw(side-1), y = g.p(1, 3)?side-1:(int)g.draw(side-1);
        if(g.p(1, 4))
            x &= ~7;
        if(g.p(1, 4))
            y |= 7;
        if(y>=side)
            y = side-1;
        a.set(x, y, i+1);
        m[{x, y}] = i+1;
    }
    Array2D<int> c(a);
    for(auto& e : m)
    {
        CHECK(a.get(e.first.first, e.first.second) == e.second, "cell ", e.first.first, ",", e.first.second);
        CHECK(c.get(e.first.first, e.first.second) == e.second, "copied cell ", e.first.first, ",", e.first.second);
    }
    g.nontrivial();
}
