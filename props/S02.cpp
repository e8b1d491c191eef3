// flavours: rgb fast
// program: 1
// S02: any bytes as scene file
#include "scene.hpp"
#include "parsers/config_driver.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

namespace
{
std::string any_name(pbt::Gen& g)
{
    return quoted(g, g.pick({"Sphere", "A", "B", "t.ppm", "tex", "missing", "", ".", "..", "/", "d", "m.obj", "a b", "%s%n", "c.txt", "broken.txt", "no.txt", "d/t.ppm", "#x", "{}"}));
}
Words any_number(pbt::Gen& g)
{
    switch(g.draw(9))
    {
        case 0: return {"0"};
        case 1: return {"1"};
        case 2: return {"-1"};
        case 3: return {".5"};
        case 4: return {g.pick({"1e30", "-1e30", "1e39", "1e400", "1e-400", "-0", "99999999999", "2147483647", "-2147483648", "255", "1e18"})};
        default: return {gen_number(g, -20, 20).text};
    }
}
Words any_vector(pbt::Gen& g, int n)
{
    Words w = {"["};
    for(int k = 0; k<n; k++)
    {
        if(k)
            w.push_back(",");
        w = w+any_number(g);
    }
    w.push_back("]");
    return w;
}
Words tame_vector(pbt::Gen& g) { return gen_triple(g, -20, 20).words; }
Words masked(pbt::Gen& g)
{
    Words w = {any_name(g)};
    int n = (int)g.draw(3);
    for(int k = 0; k<n; k++)
        w.push_back(g.pick({"inverted", "using channel R", "using channel G", "using channel B", "using channel A"}));
    return w;
}
std::vector<Words> some(pbt::Gen& g, const std::vector<Words>& choices, bool one)
{
    std::vector<Words> v;
    for(const Words& w : choices)
        if(g.p(1, 3))
            v.push_back(w);
    if(g.p(1, 8))
        v.push_back({","});
    if(g.p(1, 8))
        v.push_back(choices[g.draw(choices.size()-1)]);
    if(v.empty() && one)
        v.push_back({","});
    return v;
}
// a sentence of the grammar
Words statement(pbt::Gen& g, bool tame)
{
    auto vec = [&]() { return tame || g.p(3, 4)?tame_vector(g):any_vector(g, 3); };
    std::vector<Words> v;
    Words key;
    switch(g.draw(13))
    {
        case 0: return pair("out", {quoted(g, g.pick({"o.ppm", "x.png", "noext", "d/o.ppm"}))});
        case 1: return pair("spp", {g.pick({"1", "4", "9", "121", "7"})});
        case 2: return pair("integrator", {"path"});
        case 3: return pair("sampler", {g.pick({"random", "stratified"})});
        case 4: return pair("shape", {any_name(g)});
        case 5: return {","};
        case 6: return pair("resolution", object(g, some(g, {pair("width", {g.pick({"32", "64", "33", "800", "17"})}), pair("height", {g.pick({"1", "32", "600", "17"})})}, true)));
        case 7:
            return pair("filter", object(g, some(g, {pair("type", {g.pick({"box", "tent", "triangle", "gauss", "gaussian", "mitchell", "lanczos"})}), pair("value0", any_number(g)), pair("value1", any_number(g)),
                                                     pair("texture", {g.pick({"unfiltered", "trilinear", "ewa"})})}, true)));
        case 8:
            return pair("camera", object(g, some(g, {pair("type", {g.pick({"orthographic", "perspective", "panorama"})}), pair("position", {"[", "0", ",", ".5", ",", gen_number(g, -9, -2).text, "]"}),
                                                     pair("fov", tame?Words{"60"}:any_number(g))}, true)));
        case 9:
        {
            bool light = g.b();
            std::vector<Words> c = {pair("position", vec()), pair("rotation", vec()), pair("scale", tame?Words{gen_number(g, 0.1, 3).text}:g.b()?any_number(g):any_vector(g, 3)), pair("material", {any_name(g)}), pair("mask", masked(g))};
            if(light)
            {
                c.push_back(pair("temperature", {g.pick({"0", "1", "2700", "6500", "100000", "2147483646"})}));
                c.push_back(pair("color", any_vector(g, 3)));
            }
            v = some(g, c, false);
            v.insert(v.begin(), pair("name", {any_name(g)}));
            return pair(light?"light":"world", object(g, v, true));
        }
        case 10:
            v = some(g, {pair("name", {any_name(g)}), pair("scale", g.b()?any_number(g):any_vector(g, 2)), pair("shift", any_vector(g, 2))}, false);
            v.push_back(pair("src", {any_name(g)}));
            return pair("texture", object(g, v));
        case 11:
            v = some(g, {pair("first", {any_name(g)}), pair("second", {any_name(g)}), pair("mask", masked(g))}, false);
            v.push_back(pair("name", {any_name(g)}));
            return pair("dualmaterial", object(g, v));
        case 12:
            if(g.b())
                return pair("material", {quoted(g, g.pick({"c.txt", "no.txt"}))});
            // fallthrough
        default:
            v = some(g, {pair("type", {g.pick({"matte", "glossy", "metal", "glass"})}), pair("ior", g.b()?any_number(g):g.b()?any_vector(g, 2):g.b()?any_vector(g, 3):any_vector(g, 3)+any_vector(g, 3)),
                         pair("roughness", any_number(g)), pair("anisotropy", any_number(g)), pair("distribution", {g.pick({"blinn", "beckmann", "ggx"})}),
                         pair("diffuse", g.b()?Words{any_name(g)}:any_vector(g, 3)), pair("specular", g.b()?Words{any_name(g)}:any_vector(g, 3)), pair("normal", {any_name(g)}), pair("element", {g.pick({"Au", "ag", "ZR", "k", "W", "cu"})})}, false);
            v.push_back(pair("name", {any_name(g)}));
            return pair("material", object(g, v));
    }
}
std::vector<Words> sentence(pbt::Gen& g, bool tame)
{
    std::vector<Words> s;
    int n = (int)g.size(1, 8);
    for(int k = 0; k<n; k++)
        s.push_back(statement(g, tame));
    return s;
}
const char* const WORDS[] = {"out", "integrator", "path", "resolution", "spp", "width", "height", "value0", "value1", "sampler", "random", "stratified", "filter", "type", "box", "camera", "position", "target", "up", "fov", "shape", "world", "light", "name", "rotation", "scale", "shift", "temperature", "material", "dualmaterial", "texture", "src", "matte", "glass", "ior", "roughness", "distribution", "diffuse", "normal", "ggx", "color", "element", "inverted", "mask", "first", "second", "Au", "using channel R", "bump", "spectre", "{", "}", "[", "]", ":", ",", "1", "-1", "0.5", "1e3", "\"x\"", "'y'", "\"", "'", "@", ";", "=", "\\", ".", "-", "+", "e", "E5", "1.", "\x80"};
void mutate_words(pbt::Gen& g, std::vector<Words>& s)
{
    int n = (int)g.size(1, 3);
    for(int k = 0; k<n; k++)
    {
        Words& w = s[g.draw(s.size()-1)];
        if(w.empty())
            continue;
        size_t at = g.draw(w.size()-1);
        std::string other = WORDS[g.draw(sizeof WORDS/sizeof *WORDS-1)];
        switch(g.draw(3))
        {
            case 0: w.erase(w.begin()+at); break;
            case 1: w[at] = other; break;
            case 2: w.insert(w.begin()+at, other); break;
            default: w.insert(w.begin()+at, Words(w)[g.draw(w.size()-1)]);
        }
    }
}
void mutate_bytes(pbt::Gen& g, std::string& s)
{
    int n = (int)g.size(1, 4);
    for(int k = 0; k<n && !s.empty(); k++)
    {
        size_t at = g.draw(s.size()-1);
        switch(g.draw(7))
        {
            case 0: s[at] = (char)g.draw(255); break;
            case 1: s.resize(at); break;
            case 2: s.erase(at, g.size(1, 16)); break;
            case 3: s.insert(at, g.bytes(12)); break;
            case 4: s.insert(at, s.substr(g.draw(s.size()-1), g.size(1, 64))); break;
            case 5: s.insert(at, g.pick({"\"", "'", "#", "\n", "}", "{", "[", ":", "1", "."})); break;
            case 6: s.insert(at, std::string(1, 0)); break;
            default:
                s.insert(at, std::string((size_t)g.pick({60, 64, 65, 100, 123, 124, 128, 200, 5000, 17000, 40000}), g.pick({' ', 'a', '9', '{', ',', '-', '.'})));
        }
    }
}
std::string any_text(pbt::Gen& g)
{
    std::string text;
    switch(g.draw(5))
    {
        case 0: text = g.bytes(400); break;
        case 1:
        {
            int n = (int)g.size(1, 60);
            for(int k = 0; k<n; k++)
                text += std::string(WORDS[g.draw(sizeof WORDS/sizeof *WORDS-1)])+g.pick({" ", "", "\n"});
            break;
        }
        case 2:
        case 3:
        {
            std::vector<Words> s = sentence(g, false);
            mutate_words(g, s);
            text = layout(g, s);
            break;
        }
        case 4:
            text = layout(g, sentence(g, false));
            mutate_bytes(g, text);
            break;
        default: text = layout(g, sentence(g, false));
    }
    return text;
}
void setting(pbt::Gen& g, const std::string& dir)
{
    (void)g;
    pbt::scratch_clear();
    mkdir((dir+"/d").c_str(), 0755);
    std::string t = "P6\n2 2\n255\n";
    t += std::string("\x10\x20\x30\xff\x80\x7f\x00\x01\x02\xc0\xff\xee", 12);
    pbt::write_file(dir+"/t.ppm", t);
    pbt::write_file(dir+"/d/t.ppm", t);
    pbt::write_file(dir+"/tex", t);
    pbt::write_file(dir+"/m.obj", "o A\nv 0 0 0\nv 1 0 0\nv 0 1 0\nv 1 1 1\nusemtl B\nf 1 2 3\nf 2 3 4\no B\nf 1 2 4\n");
    pbt::write_file(dir+"/c.txt", "material: {name: 'B'} shape: 'm.obj'");
}
// can the renderer be built at all for what is written here
bool modest(const Grammar& gr)
{
    // any of the sizes written, with any other or with the default one
    double least = 800, most = 800;
    for(size_t k = 0; k+2<gr.t.size(); k++)
        if((gr.t[k].kind == "width" || gr.t[k].kind == "height") && gr.t[k+2].kind == "UINT")
        {
            double v = atof(gr.t[k+2].text.c_str());
            most = std::max(most, v);
            if(gr.t[k].kind == "width")
                least = std::min(least, v);
        }
    return least>=1 && most<=900 && (least>=16 || most*32/least<=2000);
}
// a picture cannot be saved under every name
bool writable(const Grammar& gr)
{
    for(size_t k = 0; k+2<gr.t.size(); k++)
        if(gr.t[k].kind == "out" && gr.t[k+2].kind == "STRING")
        {
            const std::string& s = gr.t[k+2].text;
            if(s.size()<3 || s.size()>40)
                return false;
            std::string n = s.substr(1, s.size()-2);
            if(n != "o.ppm" && n != "x.png" && n != "noext" && n != "d/o.ppm")
                return false;
        }
    return true;
}
std::vector<std::string> listing(const std::string& dir)
{
    std::vector<std::string> v;
    DIR* d = opendir(dir.c_str());
    while(d != NULL)
    {
        dirent* e = readdir(d);
        if(e == NULL)
            break;
        v.push_back(e->d_name);
    }
    if(d != NULL)
        closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}
pbt::SubResult parse(const std::string& dir, const std::string& file)
{
    return pbt::run_sub([&]() -> std::string
    {
        if(chdir(dir.c_str()))
            return "cannot enter the folder";
        Scene sc;
        ConfigDriver driver;
        Renderer* r = driver.parse(file, &sc);
        return r == NULL?"parse returns no renderer":"";
    });
}
void clean(const pbt::SubResult& r)
{
    CHECK(!r.timeout, "the file is parsed forever");
    CHECK(r.exited && r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "the parser crashes: ", r.what());
}
void rejected(const pbt::SubResult& r)
{
    clean(r);
    CHECK(!r.finished, "a file that does not follow the grammar gives a renderer");
    CHECK(r.code != 0, "a file that does not follow the grammar ends the program with status 0");
    CHECK(r.err.size()>3, "nothing is reported for a file that does not follow the grammar");
}
void judge(pbt::Gen& g, const std::string& text, const Grammar& gr, bool valid, const pbt::SubResult& r)
{
    (void)g;
    (void)text;
    clean(r);
    if(gr.strange)
        return;
    if(!valid)
        rejected(r);
    else if(writable(gr))
        CHECK(r.finished && r.payload.empty(), "a file that follows the grammar is rejected: ", r.what(), " ", r.payload);
}
}

PROP(any, 6000, 400000, "random bytes, random words, sentences of the grammar with words or bytes changed, and unchanged sentences, in any layout, parsed under sanitizers: no crash; an independent recogniser of the documented grammar decides whether parsing must end the program with a failure and a message or must give a renderer; non-trivial: not accepted and longer than 20 bytes")
{
    std::string text = any_text(g), dir = pbt::scratch();
    setting(g, dir);
    g.note(text);
    Grammar gr(text);
    bool valid = gr.file();
    if(!modest(gr))
        g.discard(); // the picture may not fit in memory
    g.label(valid?"follows the grammar":gr.strange?"left open":"does not follow the grammar");
    g.nontrivial(!valid && text.size()>20);
    pbt::write_file(dir+"/scene.txt", text);
    judge(g, text, gr, valid, parse(dir, "scene.txt"));
}

PROP(children, 2000, 120000, "a good scene that includes one or two files of any content, or missing ones, among good ones: a child that does not follow the grammar is reported and ends the program; non-trivial: a child does not follow the grammar")
{
    std::string dir = pbt::scratch();
    setting(g, dir);
    std::vector<Words> s = sentence(g, true);
    bool valid = true, strange = false, fits = true, named = true;
    int n = (int)g.size(1, 2);
    for(int k = 0; k<n; k++)
    {
        std::string name = pbt::str("child", k, ".txt"), text = any_text(g);
        s.insert(s.begin()+g.draw(s.size()), pair("material", {"'"+name+"'"}));
        Grammar gr(text);
        valid = gr.file() && valid;
        strange = strange || gr.strange;
        fits = fits && modest(gr);
        named = named && writable(gr);
        pbt::write_file(dir+"/"+name, text);
        g.note(name, ": ", text);
    }
    std::string text = layout(g, s);
    g.note(text);
    g.nontrivial(!valid);
    g.label(valid?"all follow the grammar":"a child does not");
    if(!fits)
        g.discard();
    pbt::write_file(dir+"/scene.txt", text);
    pbt::SubResult r = parse(dir, "scene.txt");
    clean(r);
    if(strange)
        return;
    if(!valid)
        rejected(r);
    else if(named)
        CHECK(r.finished && r.payload.empty(), "files that follow the grammar are rejected: ", r.what());
}

PROP_CPU(program, 2500, 60000, "the program itself, run on a file that does not follow the grammar, on none, on a missing one or on a folder: a failure status, a message, no new file and no crash; non-trivial: the file exists and is longer than 20 bytes", 25)
{
    std::string dir = pbt::scratch(), text, arg = "scene.txt";
    setting(g, dir);
    switch(g.draw(9))
    {
        case 0: arg = "d"; break;
        case 1: arg = "nothing.txt"; break;
        case 2: arg = ""; break;
        default:
        {
            text = any_text(g);
            Grammar gr(text);
            bool ok = gr.file();
            if(ok || gr.strange || !modest(gr))
                g.discard();
            pbt::write_file(dir+"/scene.txt", text);
        }
    }
    g.note(arg, ": ", text);
    g.nontrivial(text.size()>20);
    const char* prog = getenv("PBT_PROGRAM");
    CHECK(prog != NULL, "no program");
    std::vector<std::string> before = listing(dir), argv = {prog};
    if(!arg.empty())
        argv.push_back(arg);
    pbt::SubResult r = pbt::run_program(argv, dir);
    clean(r);
    CHECK(r.code != 0, "the program ends with status 0");
    CHECK(r.err.size()>3, "the program reports nothing");
    CHECK(listing(dir) == before, "the program left files behind");
}
