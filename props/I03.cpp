// flavours: rgb
// fuzz: props
// I03: damaged image files
#include "images.hpp"

namespace
{
const size_t LIMIT = 1 << 20; // pixels that are decoded at most
// what a user of the library does with a file it is given
struct Verdict
{
    bool valid, sized, read, tried;
    int w, h;
};
Verdict open_image(const std::string& path, const std::string& ext)
{
    Verdict v;
    v.w = v.h = 0;
    v.read = v.tried = false;
    v.valid = img_valid(path.c_str(), ext.c_str());
    v.sized = img_dimensions(path.c_str(), ext.c_str(), &v.w, &v.h);
    size_t n = 0;
    if(v.sized && v.w>0 && v.h>0)
        n = (size_t)v.w*v.h;
    if(n>LIMIT)
        return v;
    v.tried = true;
    // exactly the announced size; nothing when no size was announced
    Pixels p(n);
    v.read = img_read8(path.c_str(), ext.c_str(), p.p);
    if(v.read)
    {
        volatile uint32_t sum = 0; // touches what is claimed to be there
        for(size_t i = 0; i<n; i++)
            sum = sum+p.p[i];
    }
    return v;
}
void judge(const Verdict& v, const std::string& what)
{
    if(v.read)
        CHECK(v.sized && v.w>0 && v.h>0, what, " was decoded, but has no dimensions (", v.w, "x", v.h, ")");
}
uint32_t interesting(pbt::Gen& g)
{
    return g.pick({0u, 1u, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0xffffu, 0x10000u, 255u, 256u, 3u, 4u, 65535u, 0xfffffffeu, 1000000u, 2u, 16u, 24u, 32u, 8u});
}
void mutate(pbt::Gen& g, std::string& s)
{
    int n = (int)g.size(1, 6);
    for(int k = 0; k<n && !s.empty(); k++)
    {
        // headers are hit more often than bodies
        size_t at = g.b()?g.draw(std::min<size_t>(s.size(), 64)-1):g.draw(s.size()-1);
        switch(g.draw(7))
        {
            case 0: s[at] = (char)g.draw(255); break;
            case 1: s[at] = (char)(s[at]^(1 << g.draw(7))); break;
            case 2: s.resize(at); break;
            case 3: s.erase(at, g.size(1, 16)); break;
            case 4: s.insert(at, g.bytes(16)); break;
            case 5: s.insert(at, s.substr(g.draw(s.size()-1), g.size(1, 64))); break;
            case 6: // a number of the header, little or big endian
            {
                uint32_t v = interesting(g);
                int len = g.b()?2:4;
                bool big = g.b();
                for(int i = 0; i<len && at+i<s.size(); i++)
                    s[at+i] = (char)(v >> 8*(big?len-1-i:i));
                break;
            }
            default: // a number in text
                s.replace(at, std::min<size_t>(s.size()-at, g.size(1, 3)), g.pick<std::string>(std::vector<std::string>{"0", "-1", "99999999999", "4294967295", "65536", "P3", "P6", "#", "\n#\n", "1e9", " ", "x"}));
        }
    }
}
}

PROP_CPU(damaged, 60000, 600000, "a good file of any format with up to six bytes, numbers or stretches changed, removed or inserted, opened under its own or another extension; non-trivial: the file differs from the good one", 25)
{
    std::string ext = g.pick(extensions());
    std::string path = pbt::scratch()+"/image."+ext;
    Encoded e = encode(g, ext, (int)g.size(1, 20), (int)g.size(1, 20), path);
    std::string s = e.bytes;
    mutate(g, s);
    std::string as = g.p(1, 8)?g.pick(extensions()):ext;
    g.note(e.what, " as ", as, ", ", s.size(), " bytes");
    g.label(ext);
    g.nontrivial(s != e.bytes || as != ext);
    pbt::write_file(path, s);
    Verdict v = open_image(path, as);
    g.label(v.read?"decoded":v.sized?"sized":v.valid?"valid":"refused");
    judge(v, e.what);
}

PROP_CPU(noise, 60000, 600000, "arbitrary bytes, with or without the first bytes of a format; non-trivial: 8 bytes or more", 25)
{
    std::string ext = g.pick(extensions());
    std::string s;
    if(g.b())
    {
        if(ext == "ppm") s = g.b()?"P6":"P3";
        else if(ext == "bmp") s = "BM";
        else if(ext == "tga") s = std::string("\0\0\x0a\0\0\0\0\0\0\0\0\0", 12);
        else if(ext == "png") s = "\x89PNG\r\n\x1a\n";
        else if(ext[0] == 'j') s = "\xff\xd8\xff";
        else s = g.b()?std::string("II*\0", 4):std::string("MM\0*", 4);
    }
    s += g.bytes(200);
    g.note(ext, " ", s.size(), " bytes");
    g.nontrivial(s.size()>=8);
    std::string path = pbt::scratch()+"/image."+ext;
    pbt::write_file(path, s);
    judge(open_image(path, ext), "noise");
}

PROP_CPU(truncated, 40000, 400000, "a good file cut anywhere before its end (JPEG: before its first pixel); non-trivial: something is left", 25)
{
    std::string ext = g.pick<std::string>(std::vector<std::string>{"ppm", "bmp", "tga", "png", "tif", "jpg"});
    std::string path = pbt::scratch()+"/image."+ext;
    Encoded e = encode(g, ext, (int)g.size(1, 24), (int)g.size(1, 24), path);
    // cut so that at least one pixel is incomplete
    size_t end = e.bytes.size();
    if(ext == "ppm" && e.what.find("P3") != std::string::npos)
        while(end>0 && isspace((unsigned char)e.bytes[end-1]))
            end--;
    if(ext == "ppm" && e.what.find("P3") != std::string::npos)
        while(end>0 && isdigit((unsigned char)e.bytes[end-1]))
            end--; // a shorter number is a number as well
    else if(ext == "bmp")
        end -= 3; // up to three bytes of padding
    else if(ext == "jpg") // missing pixels are made up by the JPEG library
        end = std::min(end, e.bytes.find("\xff\xda"));
    else if(ext == "png")
        end -= 12; // the mark of the end carries no pixels
    if(e.what.find("bmp") == 0)
        end = std::min(end, e.bytes.size()-4);
    size_t cut = g.draw(end-1);
    g.note(e.m.w, "x", e.m.h, " ", e.what, " ", cut, " of ", e.bytes.size(), " bytes");
    g.nontrivial(cut>0);
    pbt::write_file(path, e.bytes.substr(0, cut));
    Verdict v = open_image(path, ext);
    CHECK(!v.read, e.m.w, "x", e.m.h, " ", e.what, " cut after ", cut, " of ", e.bytes.size(), " bytes was decoded without complaint");
}

PROP_CPU(absent, 3000, 30000, "files that do not exist, folders, empty files and files without a known extension; non-trivial: every case", 25)
{
    std::string ext = g.p(1, 4)?g.ident(4):g.pick(extensions());
    std::string path = pbt::scratch()+"/image."+ext;
    int kind = (int)g.draw(2);
    if(kind == 0)
        path += "x";
    else if(kind == 1)
        path = pbt::scratch();
    else
        pbt::write_file(path, "");
    g.note(ext, " kind ", kind);
    g.nontrivial();
    Verdict v = open_image(path, ext);
    CHECK(!v.valid && !v.sized && !v.read, "valid ", v.valid, " dimensions ", v.sized, " read ", v.read, " of ", kind == 0?"no file":kind == 1?"a folder":"an empty file", " as ", ext);
}
