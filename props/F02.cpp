// flavours: rgb fast spec
// F02: the saved image
#include "film.hpp"
#include "images.hpp"
#include "utility/file.hpp"
#include <sys/stat.h>
#include <unistd.h>

namespace
{
// every sample counts for its own pixel only
class Narrow : public Filter
{
public:
    Narrow() : Filter(0.4f, 0.4f) { }
    float weight(float, float) const { return 1; }
};

std::string decode_any(const std::string& path, const std::string& ext, Image& m)
{
    if(ext != "jpg" && ext != "jpeg")
        return decode_file(path, ext, m);
    FILE* f = fopen(path.c_str(), "rb");
    if(f == NULL)
        return "there is no such file";
    unsigned char magic[2] = {0, 0};
    if(fread(magic, 1, 2, f) != 2 || magic[0] != 0xff || magic[1] != 0xd8)
    {
        fclose(f);
        return "this is no JPEG file";
    }
    rewind(f);
    jpeg_decompress_struct c;
    jpeg_error_mgr err;
    c.err = jpeg_std_error(&err);
    jpeg_create_decompress(&c);
    jpeg_stdio_src(&c, f);
    jpeg_read_header(&c, TRUE);
    c.out_color_space = JCS_RGB;
    jpeg_start_decompress(&c);
    m.w = (int)c.output_width;
    m.h = (int)c.output_height;
    m.px.clear();
    std::vector<uint8_t> row((size_t)m.w*3);
    while(c.output_scanline<c.output_height)
    {
        JSAMPROW r = row.data();
        jpeg_read_scanlines(&c, &r, 1);
        for(int x = 0; x<m.w; x++)
            m.px.push_back(pack(row[3*x], row[3*x+1], row[3*x+2]));
    }
    jpeg_finish_decompress(&c);
    jpeg_destroy_decompress(&c);
    fclose(f);
    return "";
}

struct Content
{
    int w, h;
    bool flat; // one colour all over
    std::vector<D3> mean; // XYZ, negative components already dropped
    std::vector<double> mag;
    std::vector<char> hit;
};

// one or more samples on the centre of (most) pixels
Content fill(pbt::Gen& g, ImageFilm& film, const Filter* f, int w, int h, bool flat)
{
    Content c;
    c.w = w;
    c.h = h;
    c.flat = flat;
    (void)f;
    c.mean.resize((size_t)w*h);
    c.mag.resize((size_t)w*h);
    c.hit.assign((size_t)w*h, 0);
    std::vector<D3> palette;
    int n = flat?1:(int)g.size(1, 12);
    for(int i = 0; i<n; i++)
        palette.push_back(gen_colour(g));
    for(D3& p : palette)
        p = D3((float)p.x, (float)p.y, (float)p.z);
    Lcg r(1+g.draw(0xffff));
    bool holes = !flat && g.b();
    ExecutorData ex;
    ex.startx = ex.starty = 0;
    ex.endx = w;
    ex.endy = h;
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            size_t k = (size_t)y*w+x;
            if(holes && r.below(5) == 0)
                continue;
            int m = flat?1:1+r.below(3);
            for(int i = 0; i<m; i++)
            {
                D3 col = palette[(size_t)r.below((int)palette.size())];
                Sample s;
                s.posx = (float)x+0.5f;
                s.posy = (float)y+0.5f;
                film.add_pixel(&s, colour(col), &ex);
                D3 cut(std::max(0., col.x), std::max(0., col.y), std::max(0., col.z));
                c.mean[k] = c.mean[k]+cut*(1./m);
                c.mag[k] = std::max(c.mag[k], cut.maxabs());
            }
            c.hit[k] = 1;
        }
    film.add_pixel_forced(&ex);
    return c;
}

void compare(const Content& c, const std::string& path, const std::string& ext)
{
    Image m;
    std::string e = decode_any(path, ext, m);
    CHECK(e.empty(), path, ": ", e);
    CHECK(m.w == c.w && m.h == c.h, "a film of ", c.w, "x", c.h, " is saved as ", m.w, "x", m.h);
    bool lossy = ext == "jpg" || ext == "jpeg";
    for(int y = 0; y<c.h; y++)
        for(int x = 0; x<c.w; x++)
        {
            size_t k = (size_t)y*c.w+x;
            int b[3] = {red(m.px[k]), green(m.px[k]), blue(m.px[k])};
            if(!c.hit[k])
            {
                if(!lossy)
                    CHECK(b[0]+b[1]+b[2] == 0, "pixel ", x, ",", y, " without samples is ", b[0], " ", b[1], " ", b[2]);
                continue;
            }
            if(lossy && !c.flat)
                continue;
            D3 l = xyz_to_linear(c.mean[k]);
            for(int i = 0; i<3; i++)
            {
                if(lossy)
                {
                    double v = std::min(1., std::max(0., encode(std::max(0., l[i]))))*255;
                    CHECK(std::fabs(v-b[i])<=12, "pixel ", x, ",", y, " channel ", i, " is ", b[i], " instead of ", v);
                }
                else
                    CHECK(developed(b[i], l[i], 1e-6+2e-5*c.mag[k]), "pixel ", x, ",", y, " channel ", i, " is ", b[i], " instead of ", 255*encode(std::max(0., l[i])));
            }
        }
}

bool supported(const std::string& e)
{
    static const char* all[] = {"ppm", "bmp", "tga", "png", "jpg", "jpeg", "tif", "tiff"};
    for(const char* a : all)
        if(e == a)
            return true;
    return false;
}

struct Name
{
    std::string asked, path, ext; // as asked, where it has to be, in which format
    bool added;
};

Name gen_name(pbt::Gen& g, const std::string& dir)
{
    static const char* stems[] = {"out", "a", ".hidden", "two.dots", "with space", "100%s", "ends.", "\xc3\xbc", "png", "x.ppm"};
    static const char* exts[] = {"ppm", "bmp", "tga", "png", "jpg", "jpeg", "tif", "tiff"};
    static const char* others[] = {"", ".", ".gif", ".PNG", ".ppm2", ".pp", ".exr", ".jpg ", ".tar.gz", ".webp"};
    Name n;
    std::string base = g.p(1, 3)?g.ident(8):std::string(stems[g.draw(9)]);
    if(g.p(2, 3))
        base += std::string(".")+exts[g.draw(7)];
    else
        base += others[g.draw(9)];
    size_t dot = base.rfind('.');
    std::string e = dot == std::string::npos || dot == 0?"":base.substr(dot+1);
    n.added = !supported(e);
    n.ext = n.added?"ppm":e;
    n.path = dir+"/"+base+(n.added?".ppm":"");
    switch(g.draw(4))
    {
        case 1: n.asked = base; break;
        case 2: n.asked = "./"+base; break;
        case 3: n.asked = dir+"/./sub/..//"+base; break;
        case 4: n.asked = "sub/../"+base; break;
        default: n.asked = dir+"/"+base;
    }
    if(n.added && g.p(1, 6))
        n.asked += "/";
    return n;
}

struct In
{
    std::string old;
    explicit In(const std::string& to)
    {
        char b[4096];
        CHECK(getcwd(b, sizeof b) != NULL);
        old = b;
        CHECK(chdir(to.c_str()) == 0);
    }
    ~In()
    {
        if(chdir(old.c_str()) != 0)
            abort();
    }
};

PROP_CPU(saved, 12000, 200000, "films up to 40x40 (and long thin ones) holding known colours, under names with every supported extension, others and none, relative and absolute, decoded by libpng, libtiff, libjpeg and independent readers; non-trivial: 4 pixels or more", 25)
{
    pbt::scratch_clear();
    std::string dir = pbt::scratch();
    mkdir((dir+"/sub").c_str(), 0755);
    In in(dir);
    Name n = gen_name(g, dir);
    int w = g.p(1, 10)?(int)g.size(1, 300):(int)g.size(1, 40), h = w>40?(int)g.size(1, 4):(int)g.size(1, 40);
    if(g.p(1, 4))
        std::swap(w, h);
    bool lossy = n.ext == "jpg" || n.ext == "jpeg";
    g.note("'", n.asked, "' ", w, "x", h);
    g.label(n.added?"ppm added":n.ext.c_str());
    g.nontrivial(w*h>=4);
    Narrow box;
    if(g.p(1, 6))
        pbt::write_file(n.path, std::string((size_t)g.size(1, 5000), 'z')); // overwritten
    ImageFilm film(w, h, n.asked.c_str());
    film.set_filter(&box);
    Content c = fill(g, film, &box, w, h, lossy);
    CHECK(film.save_image(), "the picture was not saved");
    compare(c, n.path, n.ext);
    if(g.p(1, 5)) // saving does not wear the film out
    {
        CHECK(film.save_image(), "the picture was not saved again");
        compare(c, n.path, n.ext);
    }
    // nothing else appears
    std::vector<File> all;
    File(dir.c_str()).ls(&all);
    for(const File& f : all)
        CHECK(f.absolute_path() == n.path || std::string(f.filename()) == "sub", "saving ", n.asked, " left ", f.absolute_path());
}

PROP(refused, 400, 6000, "output names that are folders, lie in missing folders or below files: the program stops with a message and writes nothing; non-trivial: always")
{
    pbt::scratch_clear();
    std::string dir = pbt::scratch();
    mkdir((dir+"/sub").c_str(), 0755);
    In in(dir);
    g.nontrivial();
    Name n = gen_name(g, dir);
    std::string file = n.path.substr(dir.size()+1), asked, culprit;
    int how = (int)g.draw(3);
    switch(how)
    {
        case 0: // the file is a folder
            CHECK(mkdir(n.path.c_str(), 0755) == 0);
            asked = n.asked;
            culprit = n.path;
            break;
        case 1: // what was asked is a folder, before anything is added to it
        {
            std::string d = n.added?n.path.substr(0, n.path.size()-4):n.path;
            CHECK(mkdir(d.c_str(), 0755) == 0);
            asked = n.asked;
            culprit = d;
            break;
        }
        case 2:
            asked = "missing/"+file;
            culprit = dir+"/missing";
            break;
        default:
            pbt::write_file(dir+"/plain", "text");
            asked = "plain/"+file;
            culprit = dir+"/plain";
    }
    std::string clean = culprit; // as a File shows it: no dot at the end is lost
    g.note("'", asked, "' how ", how);
    pbt::SubResult r = pbt::run_sub([&]
    {
        ImageFilm film(4, 4, asked.c_str());
        return std::string("constructed");
    });
    CHECK(!r.finished, "the output ", asked, " was accepted");
    CHECK(r.exited && r.code != 0, "the program did not stop properly: ", r.what(), " ", r.err);
    CHECK(r.err.find("CRITICAL") != std::string::npos && r.err.find(clean) != std::string::npos, "the message does not name ", clean, ": ", r.err);
    std::vector<File> sub;
    File((dir+"/sub").c_str()).ls(&sub);
    CHECK(sub.empty());
    if(how<=1)
    {
        std::vector<File> made;
        File(culprit.c_str()).ls(&made);
        CHECK(made.empty(), "something was written in the folder");
    }
}

PROP(unwritable, 1500, 20000, "the folder of the output disappears, or a folder takes the name of the output, before saving: save_image returns false and works once the obstacle is gone; non-trivial: always")
{
    pbt::scratch_clear();
    std::string dir = pbt::scratch()+"/deep";
    mkdir(dir.c_str(), 0755);
    mkdir((dir+"/sub").c_str(), 0755);
    g.nontrivial();
    Name n = gen_name(g, dir);
    int w = (int)g.size(1, 12), h = (int)g.size(1, 12);
    Narrow box;
    std::unique_ptr<ImageFilm> film;
    {
        In in(dir);
        film.reset(new ImageFilm(w, h, n.asked.c_str()));
    }
    film->set_filter(&box);
    bool lossy = n.ext == "jpg" || n.ext == "jpeg";
    Content c = fill(g, *film, &box, w, h, lossy);
    bool gone = g.b();
    g.note("'", n.asked, "' ", gone?"folder gone":"name taken");
    std::string away = pbt::scratch()+"/away";
    if(gone)
        CHECK(rename(dir.c_str(), away.c_str()) == 0);
    else
        CHECK(mkdir(n.path.c_str(), 0755) == 0);
    bool ok = true;
    {
        pbt::SubResult r = pbt::run_sub([&] { return std::string(film->save_image()?"saved":"refused"); });
        CHECK(r.finished, "saving did not return: ", r.what(), " ", r.err);
        ok = r.payload == "saved";
    }
    CHECK(!ok, "save_image claims to have written ", n.path);
    if(gone)
        CHECK(rename(away.c_str(), dir.c_str()) == 0);
    else
        CHECK(rmdir(n.path.c_str()) == 0, "the obstacle changed");
    CHECK(film->save_image(), "the picture was not saved");
    compare(c, n.path, n.ext);
}
}
