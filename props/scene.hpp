// Scene files: the pieces of text they are made of, in any layout, and an
// independent recogniser of their grammar.
#ifndef VERIF_SCENE_HPP
#define VERIF_SCENE_HPP
#include "common.hpp"
#include "images.hpp"
#include <cstdlib>
#include <string>
#include <vector>

namespace
{
typedef std::vector<std::string> Words;
inline Words operator+(Words a, const Words& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
struct Number
{
    std::string text;
    float value;
};
// one of the notations of a number; the value is what was written
inline Number written(const std::string& t)
{
    Number n;
    n.text = t;
    n.value = (float)std::strtod(t.c_str(), NULL);
    return n;
}
inline Number notation(pbt::Gen& g, double v)
{
    char b[64];
    switch(g.draw(6))
    {
        case 1: snprintf(b, sizeof b, "%.6f", v); break;
        case 2: snprintf(b, sizeof b, "%.7e", v); break;
        case 3: snprintf(b, sizeof b, "%.3E", v); break;
        case 4: snprintf(b, sizeof b, "%.0f", v); break;
        case 5: snprintf(b, sizeof b, "%.2f", v); break;
        default: snprintf(b, sizeof b, "%g", v);
    }
    std::string s = b;
    if(g.p(1, 6)) // no zero before the dot
    {
        size_t z = s.find("0.");
        if(z != std::string::npos && (z == 0 || s[z-1] == '-'))
            s.erase(z, 1);
    }
    if(g.p(1, 8) && s[0] != '-')
        s = "+"+s;
    if(g.p(1, 12) && s[0] != '-' && s[0] != '+')
        s = "00"+s;
    return written(s);
}
inline Number gen_number(pbt::Gen& g, double lo, double hi)
{
    double v = g.p(1, 3)?std::floor(lo+(hi-lo)*g.d01()):lo+(hi-lo)*g.d01();
    if(v<lo)
        v = lo;
    Number n = notation(g, v);
    if(n.value<lo || n.value>hi) // rounded away
        n = written(pbt::str(v));
    return n;
}
struct Triple
{
    Words words;
    float v[3];
};
inline Triple triple(const Number& a, const Number& b, const Number& c)
{
    Triple t;
    t.words = {"[", a.text, ",", b.text, ",", c.text, "]"};
    t.v[0] = a.value;
    t.v[1] = b.value;
    t.v[2] = c.value;
    return t;
}
inline Triple gen_triple(pbt::Gen& g, double lo, double hi)
{
    Number a = gen_number(g, lo, hi), b = gen_number(g, lo, hi), c = gen_number(g, lo, hi);
    return triple(a, b, c);
}
inline std::string quoted(pbt::Gen& g, const std::string& s)
{
    bool s1 = s.find('\'') != std::string::npos, s2 = s.find('"') != std::string::npos;
    if(s2 || (!s1 && g.p(1, 3)))
        return "'"+s+"'";
    return "\""+s+"\"";
}
// an object: the pairs in any order, with commas here and there
inline Words object(pbt::Gen& g, std::vector<Words> pairs, bool first_stays = false)
{
    size_t from = first_stays?1:0;
    for(size_t i = pairs.size(); i>from+1; i--)
        std::swap(pairs[i-1], pairs[from+g.draw(i-1-from)]);
    Words w = {"{"};
    bool commas = g.b();
    for(size_t i = 0; i<pairs.size(); i++)
    {
        w = w+pairs[i];
        if(commas && (i+1<pairs.size() || g.p(1, 4)))
            w.push_back(",");
    }
    w.push_back("}");
    return w;
}
inline Words pair(const std::string& key, const Words& value) { return Words{key, ":"}+value; }
inline bool wordish(char c)
{
    return (c>='a' && c<='z') || (c>='A' && c<='Z') || (c>='0' && c<='9') || c == '.' || c == '+' || c == '-';
}
// joins the words with any white space and comments
inline std::string layout(pbt::Gen& g, const std::vector<Words>& stmts)
{
    uint64_t style = g.draw(7);
    Lcg r(1+g.draw(0xffff));
    std::string s;
    char last = '\n';
    auto gap = [&](bool needed)
    {
        if(style == 0)
        {
            s += " ";
            return;
        }
        if(style == 1)
        {
            s += needed?" ":"";
            return;
        }
        static const char* ws[] = {" ", "\n", "\t", "\r\n", "  ", "\n\n", " \t ", "\r"};
        int n = r.below(3)+(needed?1:0);
        for(int i = 0; i<n; i++)
            s += ws[r.below(style<5?3:8)];
        if(style>=4 && r.below(6) == 0)
        {
            static const char* cm[] = {"# a comment\n", "#\n", "# out: 'x.ppm' { spp: 3\n", "## \" unbalanced ' } ]\n", "#\xc3\xa9\r\n"};
            s += cm[r.below(5)];
            if(style == 7 && r.below(8) == 0)
                s += "#"+std::string(200+(size_t)r.below(20000), '-')+"\n";
        }
    };
    for(const Words& w : stmts)
    {
        if(style == 2)
            s += "\n";
        for(const std::string& x : w)
        {
            gap(wordish(last) && wordish(x[0]));
            s += x;
            last = x.back();
        }
        if(style == 0)
            s += "\n";
    }
    if(style>=3 && r.below(2))
        s += r.below(2)?"\n":" # the end";
    return s;
}
inline void shuffle(pbt::Gen& g, std::vector<Words>& s)
{
    if(!g.b())
        return;
    for(size_t i = s.size(); i>1; i--)
        std::swap(s[i-1], s[g.draw(i-1)]);
}

// ------------------------------------------------------------- recogniser
struct Token
{
    std::string kind, text; // kind: the keyword or punctuation itself, UINT INT FLOAT STRING ELEMENT CHANNEL END BAD
};
struct Grammar
{
    std::vector<Token> t;
    size_t at = 0;
    bool strange = false; // something the documentation leaves open
    explicit Grammar(const std::string& s) { scan(s); }
    static size_t number(const std::string& s, size_t i, std::string& kind)
    {
        size_t n = s.size(), best = 0, j = i;
        auto digit = [&](size_t k) { return k<n && s[k]>='0' && s[k]<='9'; };
        if(j<n && (s[j] == '+' || s[j] == '-'))
            j++;
        size_t d = j;
        while(digit(j))
            j++;
        if(j>d)
        {
            best = j;
            kind = s[i] == '-'?"INT":"UINT";
        }
        size_t m = best; // mantissa of a float
        if(j<n && s[j] == '.' && digit(j+1))
        {
            m = j+1;
            while(digit(m))
                m++;
            best = m;
            kind = "FLOAT";
        }
        if(m && m<n && (s[m] == 'e' || s[m] == 'E'))
        {
            size_t e = m+1;
            if(e<n && (s[e] == '+' || s[e] == '-'))
                e++;
            if(digit(e))
            {
                while(digit(e))
                    e++;
                best = e;
                kind = "FLOAT";
            }
        }
        return best?best-i:0;
    }
    static size_t text(const std::string& s, size_t i)
    {
        size_t n = s.size(), last = 0;
        if(s[i] == '"')
        {
            for(size_t j = i+1; j<n; j++)
            {
                if(s[j] == '"')
                    return j+1-i;
                if(s[j] == '\\')
                {
                    if(j+1>=n || s[j+1] == '\n')
                        return 0;
                    j++;
                }
            }
            return 0;
        }
        for(size_t j = i+1; j<n; j++) // the longest
            if(s[j] == '\'')
            {
                last = j+1-i;
                if(s[j-1] != '\\' || j-1 == i)
                    return last;
            }
        return last;
    }
    void scan(const std::string& s)
    {
        static const char* keys[] = {"out", "integrator", "path", "resolution", "spp", "width", "height", "value0", "value1", "sampler", "random", "stratified", "filter", "type", "box", "tent", "triangle", "gauss", "gaussian", "mitchell", "lanczos", "unfiltered", "trilinear", "ewa", "camera", "perspective", "panorama", "orthographic", "position", "target", "up", "fov", "shape", "world", "light", "name", "rotation", "scale", "shift", "temperature", "material", "dualmaterial", "texture", "src", "matte", "glossy", "metal", "glass", "ior", "roughness", "anisotropy", "distribution", "diffuse", "specular", "normal", "blinn", "beckmann", "ggx", "color", "element", "inverted", "mask", "first", "second"};
        static const char* elements[] = {"ag", "al", "au", "be", "bi", "co", "cr", "cu", "fe", "ge", "hg", "k", "li", "mg", "mn", "mo", "na", "nb", "ni", "pb", "pd", "pt", "rh", "ta", "ti", "v", "w", "zn", "zr"};
        size_t i = 0, n = s.size();
        while(i<n)
        {
            char c = s[i];
            if(c == ' ' || c == '\t' || c == '\r' || c == '\n')
            {
                i++;
                continue;
            }
            if(c == '#')
            {
                while(i<n && s[i] != '\n' && s[i] != '\r')
                    i++;
                continue;
            }
            Token k;
            size_t len = 0;
            if(strchr(":[]{},", c) && c)
            {
                k.kind = std::string(1, c);
                len = 1;
            }
            else if(c == '"' || c == '\'')
            {
                len = text(s, i);
                k.kind = "STRING";
                for(size_t q = i; q<i+len; q++)
                    if(s[q] == '\\' || s[q] == 0)
                        strange = true;
            }
            else
            {
                std::string kind;
                len = number(s, i, kind);
                k.kind = kind;
                if(!len)
                {
                    for(const char* w : keys)
                        if(strlen(w)>len && s.compare(i, strlen(w), w) == 0)
                        {
                            len = strlen(w);
                            k.kind = w;
                        }
                    for(const char* w : elements)
                        if(strlen(w)>len)
                        {
                            bool same = i+strlen(w)<=n;
                            for(size_t q = 0; same && w[q]; q++)
                                same = (s[i+q]|32) == w[q] && s[i+q]>='A';
                            if(same)
                            {
                                len = strlen(w);
                                k.kind = "ELEMENT";
                            }
                        }
                    if(len<15 && s.compare(i, 14, "using channel ") == 0 && i+14<n && strchr("RGBA", s[i+14]))
                    {
                        len = 15;
                        k.kind = "CHANNEL";
                    }
                    if(!len && s.compare(i, 4, "bump") == 0)
                        strange = true;
                    if(!len && (c == 'E' || c == 'e' || c == '.'))
                        strange = true; // E10 and 1. are called numbers by the documentation
                    if(!len && i>0 && s[i-1]>='0' && s[i-1]<='9' && c == '.')
                        strange = true;
                }
            }
            if(!len)
            {
                k.kind = "BAD";
                t.push_back(k);
                return;
            }
            k.text = s.substr(i, len);
            if(k.kind == "UINT" || k.kind == "INT")
            {
                std::string d = k.text;
                if(d[0] == '+' || d[0] == '-')
                    d.erase(0, 1);
                while(d.size()>1 && d[0] == '0')
                    d.erase(0, 1);
                if(d.size()>10 || (d.size() == 10 && d>="2147483647"))
                    k.kind = "FLOAT";
            }
            t.push_back(k);
            i += len;
        }
        Token e;
        e.kind = "END";
        t.push_back(e);
    }
    const std::string& peek(size_t k = 0) const
    {
        static const std::string end = "END";
        return at+k<t.size()?t[at+k].kind:end;
    }
    bool take(const char* k)
    {
        if(peek() != k)
            return false;
        at++;
        return true;
    }
    bool one(std::initializer_list<const char*> l)
    {
        for(const char* k : l)
            if(take(k))
                return true;
        return false;
    }
    bool num() { return one({"UINT", "INT", "FLOAT"}); }
    bool vec(int n)
    {
        if(!take("["))
            return false;
        for(int i = 0; i<n; i++)
            if((i && !take(",")) || !num())
                return false;
        return take("]");
    }
    bool vec_or_num(int n) { return peek() == "["?vec(n):num(); }
    bool masked()
    {
        if(!take("STRING"))
            return false;
        while(one({"CHANNEL", "inverted"}))
            ;
        return true;
    }
    // one key: value of an object; name is counted, not judged
    bool entry(const std::string& obj)
    {
        if(take(","))
            return true;
        std::string k = peek();
        at++;
        if(!take(":"))
            return false;
        if(obj == "resolution")
            return (k == "width" || k == "height") && take("UINT");
        if(obj == "filter")
        {
            if(k == "type")
                return one({"box", "tent", "triangle", "gauss", "gaussian", "mitchell", "lanczos"});
            if(k == "texture")
                return one({"unfiltered", "trilinear", "ewa"});
            return (k == "value0" || k == "value1") && num();
        }
        if(obj == "camera")
        {
            if(k == "type")
                return one({"orthographic", "perspective", "panorama"});
            if(k == "fov")
                return num();
            return (k == "position" || k == "target" || k == "up") && vec(3);
        }
        if(obj == "world" || obj == "light")
        {
            if(k == "position" || k == "rotation")
                return vec(3);
            if(k == "scale")
                return vec_or_num(3);
            if(k == "material")
                return take("STRING");
            if(k == "mask")
                return masked();
            if(obj == "light" && k == "temperature")
                return take("UINT");
            return obj == "light" && k == "color" && vec(3);
        }
        if(obj == "texture")
        {
            if(k == "scale")
                return vec_or_num(2);
            if(k == "shift")
                return vec(2);
            return k == "name" && take("STRING");
        }
        if(obj == "dualmaterial")
        {
            if(k == "mask")
                return masked();
            return (k == "first" || k == "second") && take("STRING");
        }
        if(k == "type")
            return one({"matte", "glossy", "metal", "glass"});
        if(k == "ior")
        {
            if(peek() != "[")
                return num();
            if(peek(4) == "]")
                return vec(2);
            return vec(3) && (peek() != "[" || vec(3));
        }
        if(k == "roughness" || k == "anisotropy")
            return num();
        if(k == "distribution")
            return one({"blinn", "beckmann", "ggx"});
        if(k == "diffuse" || k == "specular")
            return peek() == "["?vec(3):take("STRING");
        if(k == "normal")
            return take("STRING");
        return k == "element" && take("ELEMENT");
    }
    bool braces(const std::string& obj)
    {
        const char* key = obj == "texture"?"src":obj == "material" || obj == "dualmaterial"?"name":NULL;
        if(!take("{"))
            return false;
        if(obj == "world" || obj == "light") // the name comes first
        {
            if(!take("name") || !take(":") || !take("STRING"))
                return false;
            while(peek() != "}")
                if(!entry(obj))
                    return false;
            at++;
            return true;
        }
        int entries = 0, keys = 0;
        while(peek() != "}")
        {
            if(key && peek() == key)
            {
                at++;
                if(!take(":") || !take("STRING"))
                    return false;
                keys++;
            }
            else if(!entry(obj))
                return false;
            entries++;
        }
        at++;
        return key?keys == 1:entries>0;
    }
    bool file()
    {
        if(peek() == "END")
            return false;
        while(peek() != "END")
        {
            if(take(","))
                continue;
            std::string k = peek();
            at++;
            if(!take(":"))
                return false;
            bool ok = false;
            if(k == "out" || k == "shape")
                ok = take("STRING");
            else if(k == "spp")
                ok = take("UINT");
            else if(k == "integrator")
                ok = take("path");
            else if(k == "sampler")
                ok = one({"random", "stratified"});
            else if(k == "material" && peek() == "STRING")
                ok = take("STRING");
            else if(k == "resolution" || k == "filter" || k == "camera" || k == "world" || k == "light" || k == "texture" || k == "material" || k == "dualmaterial")
                ok = braces(k);
            if(!ok)
                return false;
        }
        return true;
    }
};
}
#endif
