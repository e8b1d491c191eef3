// flavours: rgb fast
// S07: paths
#include "pbt.hpp"
#include "utility/file.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <grp.h>
#include <sys/mman.h>

namespace
{
typedef std::vector<std::string> Parts;

// lexical reference: components, '.' and '..' resolved, both separators
void walk(Parts& to, const std::string& path)
{
    std::string part;
    for(size_t i = 0; i <= path.size(); i++)
    {
        if(i < path.size() && path[i] != '/' && path[i] != '\\')
        {
            part += path[i];
            continue;
        }
        if(part == "..")
        {
            if(!to.empty())
                to.pop_back();
        }
        else if(!part.empty() && part != ".")
            to.push_back(part);
        part.clear();
    }
}

std::string joined(const Parts& p)
{
    if(p.empty())
        return "/";
    std::string r;
    for(const std::string& s : p)
        r += "/" + s;
    return r;
}

std::string name_of(const Parts& p)
{
    return p.empty() ? "/" : p.back();
}

std::string ext_of(const Parts& p)
{
    if(p.empty())
        return "";
    const std::string& n = p.back();
    size_t dot = n.rfind('.');
    return dot == std::string::npos || dot == 0 ? "" : n.substr(dot + 1);
}

Parts cwd()
{
    char buf[4096];
    Parts p;
    CHECK(getcwd(buf, sizeof buf) != NULL);
    walk(p, buf);
    return p;
}

std::string gen_name(pbt::Gen& g)
{
    static const char* odd[] = {"a",     "b",    "ab",     "a.b",      ".hid",
                                "...",   "..a",  ".a.",    "x.",       "-",
                                " ",     "~",    "a..",    "file.tar.gz",
                                "..a.b", "\xc3\xa9t\xc3\xa9", ".a.b", "*",
                                "c:",    "%s",   "a b.c d"};
    switch(g.draw(3))
    {
        case 0: return "a";
        case 1: return odd[g.draw(20)];
        case 2: return g.ident(6);
        default:
        {
            std::string r = g.ident(3) + "." + g.ident(3);
            if(g.p(1, 8))
                r = std::string((size_t)g.i(1, 250), 'n') + r.substr(0, 4);
            return r;
        }
    }
}

std::string gen_sep(pbt::Gen& g)
{
    switch(g.draw(7))
    {
        case 6: return "//";
        case 7: return g.p(1, 2) ? "\\" : "/\\//";
        default: return "/";
    }
}

// components with any separators; may begin and end with some
std::string gen_rel(pbt::Gen& g, int most)
{
    std::string r;
    int n = g.size(0, most);
    bool lead = g.p(1, 6);
    if(lead)
        r += gen_sep(g);
    for(int i = 0; i < n; i++)
    {
        if(i)
            r += gen_sep(g);
        switch(g.draw(5))
        {
            case 3: r += ".."; break;
            case 4: r += "."; break;
            default: r += gen_name(g);
        }
    }
    if(n && g.p(1, 5))
        r += gen_sep(g);
    return r;
}

struct Slot
{
    std::unique_ptr<File> f;
    Parts p;
};

void same(const Slot& s, const std::string& what)
{
    std::string a = s.f->absolute_path();
    CHECK(a == joined(s.p), what, ": path '", a, "' instead of '", joined(s.p),
          "'");
    std::string n = s.f->filename();
    CHECK(n == name_of(s.p), what, ": name of '", a, "' is '", n, "'");
    std::string e = s.f->extension();
    CHECK(e == ext_of(s.p), what, ": extension of '", a, "' is '", e, "'");
}

struct Cwd
{
    std::string old;
    explicit Cwd(const std::string& to)
    {
        char buf[4096];
        CHECK(getcwd(buf, sizeof buf) != NULL);
        old = buf;
        CHECK(chdir(to.c_str()) == 0);
    }
    ~Cwd()
    {
        if(chdir(old.c_str()) != 0)
            abort();
    }
};

void queries(const Slot& s, const std::string& what)
{
    std::string a = joined(s.p);
    struct stat st;
    bool there = stat(a.c_str(), &st) == 0;
    CHECK(s.f->is_folder() == (there && S_ISDIR(st.st_mode)), what,
          ": is_folder of ", a, " is ", s.f->is_folder());
    CHECK(s.f->is_file() == (there && S_ISREG(st.st_mode)), what,
          ": is_file of ", a, " is ", s.f->is_file());
    CHECK(s.f->exists() == (access(a.c_str(), F_OK) == 0), what, ": exists of ",
          a, " is ", s.f->exists());
    CHECK(s.f->readable() == (access(a.c_str(), R_OK) == 0), what,
          ": readable of ", a, " is ", s.f->readable());
    CHECK(s.f->writable() == (access(a.c_str(), W_OK) == 0), what,
          ": writable of ", a, " is ", s.f->writable());
}

// some operations on three paths; the caller checks after each
template <typename Make, typename After>
void history(pbt::Gen& g, Slot* s, int ops, Make make, After after)
{
    for(int k = 0; k < 3; k++)
    {
        std::string t = make();
        s[k].p = t[0] == '/' ? Parts() : cwd();
        walk(s[k].p, t);
        s[k].f.reset(new File(t.c_str()));
        after(s[k], "File('" + t + "')");
    }
    for(int o = 0; o < ops; o++)
    {
        Slot& x = s[g.draw(2)];
        Slot& y = s[g.draw(2)];
        std::string what;
        switch(g.draw(5))
        {
            case 0:
            case 1:
            {
                std::string t = gen_rel(g, 5);
                what = "'" + joined(x.p) + "' append('" + t + "')";
                walk(x.p, t);
                CHECK(&x.f->append(t.c_str()) == x.f.get());
                break;
            }
            case 2:
            {
                what = "parent of '" + joined(y.p) + "'";
                Parts p = y.p;
                if(!p.empty())
                    p.pop_back();
                x.f.reset(new File(y.f->get_parent()));
                x.p = p;
                break;
            }
            case 3:
                what = "assignment of '" + joined(y.p) + "'";
                CHECK(&(*x.f = *y.f) == x.f.get());
                x.p = y.p;
                break;
            case 4:
                what = "copy of '" + joined(y.p) + "'";
                if(&x != &y)
                {
                    x.f.reset(new File(*y.f));
                    x.p = y.p;
                }
                break;
            default:
            {
                std::string t = make();
                what = "File('" + t + "')";
                x.p = t[0] == '/' ? Parts() : cwd();
                walk(x.p, t);
                x.f.reset(new File(t.c_str()));
            }
        }
        g.note(what);
        for(int k = 0; k < 3; k++)
            after(s[k], what);
    }
}

PROP(paths, 60000, 400000,
     "histories of up to 12 joins, parents, copies and assignments on three "
     "paths with '.', '..', empty and odd components; non-trivial: at least 3 "
     "operations")
{
    std::string at = pbt::scratch();
    Cwd in(g.p(1, 6) ? "/" : at);
    Slot s[3];
    int ops = g.size(0, 12);
    g.nontrivial(ops >= 3);
    history(
        g, s, ops,
        [&] {
            return (g.p(1, 3) ? std::string() : std::string("/")) +
                   gen_rel(g, 6);
        },
        [&](const Slot& x, const std::string& what) { same(x, what); });
}

// ------------------------------------------------------------------ queries
struct Tree
{
    std::vector<std::string> all; // relative
    std::vector<std::string> dirs;
};

Tree gen_tree(pbt::Gen& g, const std::string& root, bool modes)
{
    Tree t;
    t.dirs.push_back("");
    int n = g.size(0, 8);
    std::vector<std::pair<std::string, int>> later;
    for(int i = 0; i < n; i++)
    {
        std::string d = t.dirs[g.draw(t.dirs.size() - 1)];
        std::string nm = d + "/" + gen_name(g);
        if(nm.size() > 700 ||
           std::find(t.all.begin(), t.all.end(), nm) != t.all.end())
            continue;
        std::string full = root + nm;
        int kind = (int)g.draw(3);
        if(kind <= 1)
        {
            CHECK(::mkdir(full.c_str(), 0755) == 0, full);
            t.dirs.push_back(nm);
        }
        else if(kind == 2)
            pbt::write_file(full, "x");
        else
        {
            std::string to = t.all.empty() || g.p(1, 3)
                                 ? std::string("nowhere")
                                 : root + t.all[g.draw(t.all.size() - 1)];
            CHECK(symlink(to.c_str(), full.c_str()) == 0, full);
        }
        if(modes && kind <= 2 && g.p(1, 2))
            later.push_back({full, (int)g.draw(7) * 0111});
        t.all.push_back(nm);
    }
    for(auto& m : later)
        CHECK(chmod(m.first.c_str(), (mode_t)m.second) == 0);
    return t;
}

void ask(pbt::Gen& g, const std::string& root, const Tree& t)
{
    Cwd in(root);
    Slot s[3];
    int ops = g.size(0, 8);
    g.nontrivial(t.all.size() >= 2);
    history(
        g, s, ops,
        [&] {
            std::string nm = t.all.empty() || g.p(1, 4)
                                 ? "/" + gen_name(g)
                                 : t.all[g.draw(t.all.size() - 1)];
            if(g.p(1, 3))
                return nm.substr(1);
            if(g.p(1, 8))
                return std::string("/");
            return root + nm;
        },
        [&](const Slot& x, const std::string& what) {
            same(x, what);
            queries(x, what);
        });
}

PROP(queries, 8000, 30000,
     "histories on paths of a generated tree of folders, files and symbolic "
     "links; non-trivial: a tree of 2 entries or more")
{
    pbt::scratch_clear();
    std::string root = pbt::scratch();
    Tree t = gen_tree(g, root, false);
    ask(g, root, t);
}

PROP(permissions, 1000, 3000,
     "the same as an unprivileged user with generated modes; non-trivial: a "
     "tree of 2 entries or more")
{
    // somewhere everybody may reach
    char templ[] = "/tmp/verif-s07-XXXXXX";
    if(mkdtemp(templ) == NULL)
        g.discard();
    std::string root = templ, base = root;
    chmod(root.c_str(), 0755);
    Tree t = gen_tree(g, root, true);
    g.nontrivial(t.all.size() >= 2);
    std::vector<std::string> asked;
    for(int i = 0; i < 6; i++)
        asked.push_back(t.all.empty() || g.p(1, 6)
                            ? "/" + gen_name(g)
                            : t.all[g.draw(t.all.size() - 1)]);
    // the unprivileged child may write nowhere: the answer comes back in memory
    char* shared = (char*)mmap(NULL, 4096, PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    CHECK(shared != MAP_FAILED);
    std::function<std::string()> work = [&]() -> std::string {
        if(geteuid() == 0 && (setgroups(0, NULL) != 0 || setgid(65534) != 0 ||
                              setuid(65534) != 0))
        {
            return "cannot";
        }
        struct stat st;
        if(stat(base.c_str(), &st) != 0)
        {
            return "cannot";
        }
        for(const std::string& a : asked)
        {
            Slot s;
            std::string full = base + a;
            walk(s.p, full);
            s.f.reset(new File(full.c_str()));
            struct stat q;
            bool there = stat(full.c_str(), &q) == 0;
            std::string bad;
            if(s.f->is_folder() != (there && S_ISDIR(q.st_mode)))
                bad = "is_folder";
            if(s.f->is_file() != (there && S_ISREG(q.st_mode)))
                bad = "is_file";
            if(s.f->exists() != (access(full.c_str(), F_OK) == 0))
                bad = "exists";
            if(s.f->readable() != (access(full.c_str(), R_OK) == 0))
                bad = "readable";
            if(s.f->writable() != (access(full.c_str(), W_OK) == 0))
                bad = "writable";
            if(!bad.empty())
            {
                return bad + " of " + full + " disagrees with the system";
            }
        }
        return "ok";
    };
    pbt::SubResult r = pbt::run_sub([&] {
        std::string a = work();
        strncpy(shared, a.c_str(), 4095);
        return a;
    });
    std::string answer = shared;
    munmap(shared, 4096);
    for(auto it = t.all.rbegin(); it != t.all.rend(); ++it)
    {
        struct stat st;
        std::string full = root + *it;
        if(lstat(full.c_str(), &st) == 0 && !S_ISLNK(st.st_mode))
            chmod(full.c_str(), 0755);
        ::remove(full.c_str());
    }
    ::rmdir(root.c_str());
    CHECK(!answer.empty(), "the queries did not return: ", r.err);
    if(answer == "cannot")
        g.discard();
    CHECK(answer == "ok", answer);
}

// ------------------------------------------------------------------ folders
void listing(const std::string& dir, std::set<std::string>& to)
{
    DIR* d = opendir(dir.c_str());
    if(d == NULL)
        return;
    while(struct dirent* e = readdir(d))
        if(strcmp(e->d_name, ".") != 0 && strcmp(e->d_name, "..") != 0)
            to.insert(dir + "/" + e->d_name);
    closedir(d);
}

void tree_of(const std::string& dir, std::set<std::string>& to)
{
    std::set<std::string> here;
    listing(dir, here);
    for(const std::string& s : here)
    {
        to.insert(s);
        struct stat st;
        if(lstat(s.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            tree_of(s, to);
    }
}

bool is_dir(const std::string& p)
{
    struct stat st;
    return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}

PROP(folders, 6000, 30000,
     "histories of mkdir, mkdirs and ls in a generated tree; non-trivial: a "
     "folder was made two levels or more below an existing one")
{
    pbt::scratch_clear();
    std::string root = pbt::scratch();
    Tree t = gen_tree(g, root, false);
    Cwd in(root);
    int ops = g.size(1, 8);
    bool deep = false;
    std::vector<std::string> known = t.all;
    for(int o = 0; o < ops; o++)
    {
        std::string nm = known.empty() || g.p(1, 3)
                             ? ""
                             : known[g.draw(known.size() - 1)];
        int more = g.size(0, 3);
        for(int k = 0; k < more; k++)
            nm += "/" + gen_name(g);
        if(nm.size() > 1500)
            continue;
        if(!nm.empty())
            known.push_back(nm);
        std::string full = root + nm;
        Slot s;
        walk(s.p, full);
        s.f.reset(g.p(1, 3) && nm.size() > 1 ? new File(nm.c_str() + 1)
                                             : new File(full.c_str()));
        std::set<std::string> before, after;
        tree_of(root, before);
        // the first missing ancestor
        Parts have;
        size_t present = 0;
        Parts sofar;
        for(const std::string& c : s.p)
        {
            sofar.push_back(c);
            struct stat st;
            if(lstat(joined(sofar).c_str(), &st) != 0)
                break;
            present++;
        }
        bool all = present == s.p.size();
        Parts base(s.p.begin(), s.p.begin() + (long)present);
        bool can = !all && is_dir(joined(base));
        for(size_t i = present; i < s.p.size(); i++)
            can = can && s.p[i].size() <= 255;
        int op = (int)g.draw(2);
        g.note(op == 0 ? "mkdirs " : op == 1 ? "mkdir " : "ls ", full);
        if(op == 2)
        {
            if(all && is_dir(full) && g.p(1, 3)) // close to the longest name
                pbt::write_file(full+"/"+std::string((size_t)g.i(235, 255), 'n'), "");
            std::vector<File> got;
            s.f->ls(&got);
            std::set<std::string> want, have_;
            if(is_dir(full))
                listing(full, want);
            for(const File& f : got)
                CHECK(have_.insert(f.absolute_path()).second,
                      "ls lists twice ", f.absolute_path());
            if(want != have_)
                FAIL("ls of ", full, " gives ", have_.size(), " of ",
                     want.size(), " entries");
            for(const File& f : got)
            {
                Slot e;
                e.p = s.p;
                e.p.push_back(
                    std::string(f.absolute_path()).substr(full.size() + 1));
                e.f.reset(new File(f));
                same(e, "ls");
                queries(e, "ls");
            }
            continue;
        }
        size_t steps = s.p.size() - present;
        bool ok = op == 0 ? s.f->mkdirs() : s.f->mkdir();
        tree_of(root, after);
        std::set<std::string> want = before;
        bool should = can && (op == 0 || steps == 1);
        if(should)
        {
            char* real = realpath(joined(base).c_str(), NULL);
            CHECK(real != NULL);
            base.clear();
            walk(base, real);
            free(real);
        }
        if(should)
            for(size_t i = present; i < s.p.size(); i++)
            {
                base.push_back(s.p[i]);
                want.insert(joined(base));
            }
        const char* call = op == 0 ? "mkdirs of " : "mkdir of ";
        CHECK(after == want, call, full, " left ", after.size(),
              " entries instead of ", want.size());
        CHECK(!should || is_dir(full), call, full, " made no folder");
        // what it answers for a folder that was there already is not stated
        if(!all)
            CHECK(ok == should, call, full, " answered ", ok);
        else if(!is_dir(full))
            CHECK(!ok, call, full, " answered true over a file");
        deep = deep || (should && steps >= 2);
        same(s, call + full);
        queries(s, call + full);
    }
    g.nontrivial(deep);
}
}
