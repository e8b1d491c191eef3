#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
std::vector<Prop>& registry()
{
    static std::vector<Prop> r;
    return r;
}
std::vector<Known>& knowns()
{
    static std::vector<Known> r;
    return r;
}
void __attribute__((weak)) suite_init() { }
static bool g_thorough = false;
bool thorough() { return g_thorough; }

void fail_at(const char* file, int line, const char* cond,
             const std::string& msg)
{
    const char* base = strrchr(file, '/');
    Failure f;
    f.msg = str(base?base+1:file, ":", line, ": ", cond, cond[0]?" : ":"", msg);
    throw f;
}

// ------------------------------------------------------------------ Gen
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27))*0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k)
{
    return (x << k) | (x >> (64-k));
}
void Gen::seed(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t x = a*0x9E3779B97F4A7C15ull+1;
    x ^= splitmix(x)+b;
    x ^= splitmix(x)+c*0xD1342543DE82EF95ull;
    for(int i = 0; i<4; i++)
        s_[i] = splitmix(x);
}
static uint64_t xo(uint64_t* s)
{
    const uint64_t r = rotl(s[1]*5, 7)*9;
    const uint64_t t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
}
uint64_t Gen::draw(uint64_t max)
{
    uint64_t v = 0;
    if(mode_ == RANDOM)
    {
        if(max == ~0ull)
            v = xo(s_);
        else if(max != 0)
            v = (uint64_t)(((unsigned __int128)xo(s_)*(max+1)) >> 64);
    }
    else if(mode_ == REPLAY)
    {
        v = pos_<replay_n_?replay_[pos_]:0;
        if(v>max)
            v = v%(max+1);
    }
    else
    {
        uint64_t m = max;
        while(m != 0)
        {
            v = (v << 8) | (data_pos_<data_n_?data_[data_pos_]:0);
            data_pos_++;
            m >>= 8;
        }
        if(v>max)
            v = v%(max+1);
    }
    if(rec_ != nullptr && pos_<rec_cap_)
    {
        rec_[pos_] = v;
        *rec_n_ = pos_+1;
    }
    pos_++;
    if(!hash_forced_)
        hash_ = (hash_ ^ v)*1099511628211ull ^ (hash_ >> 29);
    return v;
}
void Gen::identity(const std::string& s)
{
    if(!hash_forced_)
    {
        hash_forced_ = true;
        hash_ = 1469598103934665603ull;
    }
    for(unsigned char c : s)
        hash_ = (hash_ ^ c)*1099511628211ull;
    hash_ ^= hash_ >> 31;
}
int64_t Gen::size(int64_t lo, int64_t hi)
{
    if(hi<=lo)
        return lo;
    uint64_t range = (uint64_t)(hi-lo);
    switch(draw(3))
    {
        case 0: return lo+(int64_t)draw(range<3?range:3);
        case 1: return lo+(int64_t)draw(range<10?range:10);
        case 2:
        {
            uint64_t m = range;
            uint64_t bits = 0;
            while(m != 0)
            {
                bits++;
                m >>= 1;
            }
            uint64_t k = draw(bits);
            uint64_t top = k>=63?range:((1ull << k)-1);
            return lo+(int64_t)draw(top<range?top:range);
        }
        default: return lo+(int64_t)draw(range);
    }
}
float Gen::unit_plain() { return (float)draw((1u << 24)-1)/(float)(1u << 24); }
float Gen::unit()
{
    static const float sp[] = {0.f, 0.5f, 0.25f, 0.75f, 0.99999994f, 1e-7f,
                               1e-3f, 0.125f, 0.1f, 1.f/3.f, 0.999f, 0.9999f,
                               0.49999997f, 1e-20f};
    switch(draw(7))
    {
        case 0: return sp[draw(sizeof(sp)/sizeof(float)-1)];
        case 1: return (float)draw(15)/16.f;
        default: return unit_plain();
    }
}
float Gen::f(float lo, float hi)
{
    float v;
    switch(draw(7))
    {
        case 0:
        {
            static const float sp[] = {0.f, 1.f, -1.f, 0.5f, -0.5f, 2.f, -2.f,
                                       1e-3f, -1e-3f, 10.f, -10.f, 0.1f, 3.f};
            v = sp[draw(sizeof(sp)/sizeof(float)-1)];
            break;
        }
        case 1: v = draw(1)?hi:lo;
            break;
        case 2:
        {
            // small integers and halves
            int64_t k = (int64_t)draw(16)-8;
            v = (float)k*0.5f;
            break;
        }
        default: v = lo+(hi-lo)*unit_plain();
    }
    if(!(v>=lo))
        v = lo;
    if(!(v<=hi))
        v = hi;
    return v;
}
float Gen::logf(float lo, float hi)
{
    switch(draw(5))
    {
        case 0: return lo<=1.f && hi>=1.f?1.f:lo;
        case 1: return draw(1)?hi:lo;
        default:
        {
            double a = std::log((double)lo), b = std::log((double)hi);
            float v = (float)std::exp(a+(b-a)*unit_plain());
            return v<lo?lo:(v>hi?hi:v);
        }
    }
}
void Gen::dir(float* x, float* y, float* z)
{
    double v[3] = {0, 0, 0};
    switch(draw(7))
    {
        case 0:
        {
            unsigned a = draw(5);
            v[a%3] = a<3?1:-1;
            break;
        }
        case 1: // in a coordinate plane
        {
            unsigned a = draw(2);
            double t = d01()*6.283185307179586;
            v[a] = cos(t);
            v[(a+1)%3] = sin(t);
            break;
        }
        case 2: // near an axis
        {
            unsigned a = draw(2);
            double s = draw(1)?1:-1;
            v[a] = s;
            double e = std::pow(10., -1-5*d01());
            v[(a+1)%3] = e*(d01()*2-1);
            v[(a+2)%3] = e*(d01()*2-1);
            break;
        }
        case 3: // diagonals
        {
            for(int k = 0; k<3; k++)
                v[k] = (double)((int)draw(2)-1);
            if(v[0] == 0 && v[1] == 0 && v[2] == 0)
                v[0] = 1;
            break;
        }
        default:
        {
            double c = 1-2*d01(), t = d01()*6.283185307179586;
            double s = std::sqrt(std::fmax(0., 1-c*c));
            v[0] = s*cos(t);
            v[1] = s*sin(t);
            v[2] = c;
        }
    }
    double l = std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
    *x = (float)(v[0]/l);
    *y = (float)(v[1]/l);
    *z = (float)(v[2]/l);
}
std::string Gen::bytes(size_t max_len)
{
    size_t n = (size_t)size(0, (int64_t)max_len);
    std::string s;
    for(size_t k = 0; k<n; k++)
        s += (char)draw(255);
    return s;
}
std::string Gen::ident(size_t max_len)
{
    static const char al[] =
            "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.";
    size_t n = 1+(size_t)draw(max_len-1);
    std::string s;
    for(size_t k = 0; k<n; k++)
        s += al[draw(k == 0?51:sizeof(al)-2)];
    return s;
}

// ------------------------------------------------------------------ state
static const size_t REC_CAP = 1u << 17;
static const size_t MAX_WORKERS = 64;
static const size_t MSG_CAP = 16384;

struct Slot // one per worker, in shared memory
{
    volatile uint64_t rec_n;
    volatile int64_t case_index; // -1 when idle
    volatile double started;
    volatile int status; // 0 running, 1 done, 2 failure, 3 hang, 4 exit called
    volatile uint64_t evals, discards, nontrivial;
    char msg[MSG_CAP];
    uint64_t rec[REC_CAP];
};
struct Shared
{
    volatile uint64_t next;
    volatile int stop;
    volatile uint64_t nhash;
    Slot slots[MAX_WORKERS+1];
};
static Shared* sh = nullptr;
static uint64_t* hashes = nullptr;
static size_t hashes_cap = 0;
static Slot* my = nullptr;
static bool in_case = false;
static pid_t owner = 0; // pid of the process that runs the current case
static std::string g_tmp;
static std::string g_scratch;

static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static void put_msg(Slot* s, const std::string& m)
{
    size_t n = std::min(m.size(), MSG_CAP-1);
    memcpy(s->msg, m.data(), n);
    s->msg[n] = 0;
}

static void on_prof(int)
{
    if(my != nullptr && getpid() == owner)
    {
        static const char m[] = "no answer: CPU limit of one case exceeded";
        memcpy(my->msg, m, sizeof(m));
        my->status = 3;
    }
    _exit(97);
}
static void on_exit_called()
{
    if(my != nullptr && getpid() == owner && in_case)
    {
        put_msg(my, "the code under test ended the process (exit called)");
        my->status = 4;
        _exit(98);
    }
}
static void arm(int seconds)
{
    struct itimerval t;
    memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

static std::string current_exception_text()
{
    try
    {
        throw;
    }
    catch(const Failure& f)
    {
        return f.msg;
    }
    catch(const std::exception& e)
    {
        return str("exception: ", e.what());
    }
    catch(const char* e)
    {
        return str("exception: ", e);
    }
    catch(const std::string& e)
    {
        return str("exception: ", e);
    }
    catch(...)
    {
        return "unknown exception";
    }
}

// returns 0 ok, 1 failed, 2 discarded
static int run_case(const Prop& p, Gen& g, std::string* msg)
{
    in_case = true;
    arm(p.cpu_seconds);
    int res = 0;
    try
    {
        p.fn(g);
    }
    catch(const Discarded&)
    {
        res = 2;
    }
    catch(...)
    {
        *msg = current_exception_text();
        res = 1;
    }
    arm(0);
    in_case = false;
    return res;
}

static void redirect(int fd, const char* path, int flags)
{
    int f = open(path, flags, 0600);
    if(f>=0)
    {
        dup2(f, fd);
        if(f != fd)
            close(f);
    }
}

static void child_setup(Slot* s, const std::string& errfile)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    owner = getpid();
    my = s;
    g_scratch.clear();
    signal(SIGPROF, on_prof);
    signal(SIGPIPE, SIG_IGN);
    atexit(on_exit_called);
    redirect(0, "/dev/null", O_RDONLY);
    redirect(1, "/dev/null", O_WRONLY);
    if(errfile.empty())
        redirect(2, "/dev/null", O_WRONLY);
    else
        redirect(2, errfile.c_str(), O_WRONLY|O_CREAT|O_TRUNC);
}

static uint64_t name_hash(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    for(; *s; s++)
        h = (h ^ (unsigned char)*s)*1099511628211ull;
    return h;
}

static void rm_tree(const std::string& p)
{
    // only ever called on directories below g_tmp
    if(g_tmp.size()<5 || p.compare(0, g_tmp.size(), g_tmp) != 0)
        return;
    struct stat st;
    if(lstat(p.c_str(), &st) != 0)
        return;
    if(S_ISDIR(st.st_mode))
    {
        chmod(p.c_str(), 0700);
        DIR* d = opendir(p.c_str());
        if(d != nullptr)
        {
            std::vector<std::string> names;
            while(struct dirent* e = readdir(d))
            {
                std::string n = e->d_name;
                if(n != "." && n != "..")
                    names.push_back(n);
            }
            closedir(d);
            for(auto& n : names)
                rm_tree(p+"/"+n);
        }
        rmdir(p.c_str());
    }
    else
        unlink(p.c_str());
}

std::string scratch()
{
    if(g_scratch.empty())
    {
        g_scratch = str(g_tmp, "/s", (long)getpid());
        mkdir(g_scratch.c_str(), 0700);
    }
    return g_scratch;
}
void scratch_clear()
{
    std::string s = scratch();
    rm_tree(s);
    mkdir(s.c_str(), 0700);
}
bool write_file(const std::string& path, const std::string& bytes)
{
    FILE* f = fopen(path.c_str(), "wb");
    if(f == nullptr)
        return false;
    size_t n = bytes.empty()?0:fwrite(bytes.data(), 1, bytes.size(), f);
    fclose(f);
    return n == bytes.size();
}
std::string read_file(const std::string& path, bool* ok)
{
    std::string s;
    FILE* f = fopen(path.c_str(), "rb");
    if(ok != nullptr)
        *ok = f != nullptr;
    if(f == nullptr)
        return s;
    char buf[65536];
    size_t n;
    while((n = fread(buf, 1, sizeof(buf), f))>0)
        s.append(buf, n);
    fclose(f);
    return s;
}

// ------------------------------------------------------------------ sub runs
std::string SubResult::what() const
{
    if(timeout)
        return "did not terminate";
    if(!exited)
        return str("killed by signal ", code, " ", err.substr(0, 1500));
    if(!finished)
        return str("exit status ", code, " ", err.substr(0, 1500));
    return "finished";
}

static SubResult collect(pid_t pid, const std::string& base, int cpu_seconds)
{
    SubResult r;
    int st = 0;
    double t0 = now();
    double limit = cpu_seconds*3+25; // wall clock safety net
    for(;;)
    {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if(w == pid)
            break;
        if(now()-t0>limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.timeout = true;
            break;
        }
        usleep(now()-t0<0.02?200:2000);
    }
    if(WIFEXITED(st))
    {
        r.exited = true;
        r.code = WEXITSTATUS(st);
    }
    else if(WIFSIGNALED(st))
    {
        r.code = WTERMSIG(st);
        if(r.code == SIGXCPU || r.code == SIGPROF)
            r.timeout = true;
    }
    r.out = read_file(base+".out");
    r.err = read_file(base+".err");
    bool ok;
    std::string pl = read_file(base+".ret", &ok);
    if(ok && !pl.empty() && pl[0] == 'F')
    {
        r.finished = true;
        r.payload = pl.substr(1);
    }
    else if(ok && !pl.empty() && pl[0] == 'X')
    {
        r.payload = pl.substr(1);
        r.exited = false;
        r.code = 0;
        r.err = "exception: "+r.payload+"\n"+r.err;
    }
    unlink((base+".out").c_str());
    unlink((base+".err").c_str());
    unlink((base+".ret").c_str());
    return r;
}
static unsigned sub_counter = 0;
SubResult run_sub(const std::function<std::string()>& fn, int cpu_seconds)
{
    std::string base = str(g_tmp, "/sub", (long)getpid(), "_", sub_counter++);
    std::string s = scratch(); // shared with the child
    fflush(stdout);
    fflush(stderr);
    struct itimerval old;
    memset(&old, 0, sizeof(old));
    getitimer(ITIMER_PROF, &old);
    arm(0);
    pid_t pid = fork();
    if(pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        redirect(0, "/dev/null", O_RDONLY);
        redirect(1, (base+".out").c_str(), O_WRONLY|O_CREAT|O_TRUNC);
        redirect(2, (base+".err").c_str(), O_WRONLY|O_CREAT|O_TRUNC);
        signal(SIGPROF, SIG_DFL);
        struct rlimit rl;
        rl.rlim_cur = cpu_seconds;
        rl.rlim_max = cpu_seconds+1;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 256ull << 20;
        setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXFSZ, SIG_DFL);
        std::string res;
        try
        {
            res = "F"+fn();
        }
        catch(...)
        {
            res = "X"+current_exception_text();
        }
        write_file(base+".ret", res);
        fflush(stdout);
        fflush(stderr);
        _exit(0);
    }
    SubResult r = collect(pid, base, cpu_seconds);
    setitimer(ITIMER_PROF, &old, nullptr);
    return r;
}
SubResult run_program(const std::vector<std::string>& argv,
                      const std::string& cwd, int cpu_seconds,
                      const std::vector<std::string>& env)
{
    std::string base = str(g_tmp, "/sub", (long)getpid(), "_", sub_counter++);
    fflush(stdout);
    fflush(stderr);
    struct itimerval old;
    memset(&old, 0, sizeof(old));
    getitimer(ITIMER_PROF, &old);
    arm(0);
    pid_t pid = fork();
    if(pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        redirect(0, "/dev/null", O_RDONLY);
        redirect(1, (base+".out").c_str(), O_WRONLY|O_CREAT|O_TRUNC);
        redirect(2, (base+".err").c_str(), O_WRONLY|O_CREAT|O_TRUNC);
        struct rlimit rl;
        rl.rlim_cur = cpu_seconds;
        rl.rlim_max = cpu_seconds+1;
        setrlimit(RLIMIT_CPU, &rl);
        signal(SIGPROF, SIG_DFL);
        if(!cwd.empty() && chdir(cwd.c_str()) != 0)
            _exit(126);
        std::vector<char*> av;
        for(auto& a : argv)
            av.push_back((char*)a.c_str());
        av.push_back(nullptr);
        for(auto& e : env)
            putenv((char*)e.c_str());
        execv(av[0], av.data());
        _exit(127);
    }
    SubResult r = collect(pid, base, cpu_seconds);
    r.finished = r.exited;
    setitimer(ITIMER_PROF, &old, nullptr);
    return r;
}

// ------------------------------------------------------------------ search
struct Outcome
{
    bool failed = false;
    std::string kind, msg;
    int64_t index = -1;
    std::vector<uint64_t> rec;
};

static void worker(const Prop& p, uint64_t seed, uint64_t total, Slot* s,
                   const std::string& labels_file)
{
    child_setup(s, "");
    std::map<std::string, uint64_t> labels;
    for(;;)
    {
        if(sh->stop)
            break;
        uint64_t idx = __sync_fetch_and_add((uint64_t*)&sh->next, 1);
        if(idx>=total)
            break;
        s->rec_n = 0;
        s->started = now();
        s->case_index = (int64_t)idx;
        Gen g;
        g.seed(seed, name_hash(p.name), idx);
        g.rec_ = s->rec;
        g.rec_cap_ = REC_CAP;
        g.rec_n_ = &s->rec_n;
        std::string msg;
        int res = run_case(p, g, &msg);
        if(res == 1)
        {
            put_msg(s, msg);
            s->status = 2;
            _exit(0);
        }
        s->evals = s->evals+1;
        if(res == 2)
            s->discards = s->discards+1;
        else
        {
            for(auto& l : g.labels_)
                labels[l]++;
            if(g.nontrivial_)
            {
                s->nontrivial = s->nontrivial+1;
                uint64_t k = __sync_fetch_and_add((uint64_t*)&sh->nhash, 1);
                if(k<hashes_cap)
                    hashes[k] = g.hash_;
            }
        }
        s->case_index = -1;
    }
    std::string out;
    for(auto& l : labels)
        out += str(l.second, " ", l.first, "\n");
    write_file(labels_file, out);
    if(!g_scratch.empty())
        rm_tree(g_scratch);
    s->status = 1;
    _exit(0);
}

// an input of the fuzzer, in place of the choices
static const std::string* g_bytes = nullptr;

// executes one recorded case in a fresh child
static Outcome exec_case(const Prop& p, const std::vector<uint64_t>* rec,
                         uint64_t seed, int64_t index, bool verbose,
                         std::string* notes, std::string* errtail)
{
    Slot* s = &sh->slots[MAX_WORKERS];
    s->status = 0;
    s->rec_n = 0;
    s->msg[0] = 0;
    std::string errf = g_tmp+"/case.err", notef = g_tmp+"/case.notes";
    unlink(notef.c_str());
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if(pid == 0)
    {
        child_setup(s, errf);
        Gen g;
        if(g_bytes != nullptr)
        {
            g.mode_ = Gen::BYTES;
            g.data_ = (const uint8_t*)g_bytes->data();
            g.data_n_ = g_bytes->size();
        }
        else if(rec != nullptr)
        {
            g.mode_ = Gen::REPLAY;
            g.replay_ = rec->data();
            g.replay_n_ = rec->size();
        }
        else
            g.seed(seed, name_hash(p.name), (uint64_t)index);
        g.rec_ = s->rec;
        g.rec_cap_ = REC_CAP;
        g.rec_n_ = &s->rec_n;
        g.verbose_ = verbose;
        std::string msg;
        int res = run_case(p, g, &msg);
        if(verbose)
            write_file(notef, g.notes_);
        if(res == 1)
        {
            put_msg(s, msg);
            s->status = 2;
        }
        else
            s->status = 1;
        if(!g_scratch.empty())
            rm_tree(g_scratch);
        _exit(0);
    }
    int st = 0;
    double t0 = now();
    Outcome o;
    o.index = index;
    bool wall = false;
    for(;;)
    {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if(w == pid)
            break;
        if(now()-t0>p.cpu_seconds*3+25)
        {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            wall = true;
            break;
        }
        usleep(now()-t0<0.05?300:3000);
    }
    kill(-pid, SIGKILL);
    o.rec.assign(s->rec, s->rec+std::min<uint64_t>((uint64_t)s->rec_n, (uint64_t)REC_CAP));
    if(wall)
    {
        o.failed = true;
        o.kind = "hang";
        o.msg = "no answer: the case never ended";
    }
    else if(s->status == 2)
    {
        o.failed = true;
        o.kind = "fail";
        o.msg = s->msg;
    }
    else if(s->status == 3)
    {
        o.failed = true;
        o.kind = "hang";
        o.msg = s->msg;
    }
    else if(s->status == 4)
    {
        o.failed = true;
        o.kind = "exit";
        o.msg = s->msg;
    }
    else if(s->status != 1)
    {
        o.failed = true;
        o.kind = "crash";
        o.msg = WIFSIGNALED(st)?str("crashed with signal ", WTERMSIG(st)):
                str("process ended with status ", WEXITSTATUS(st));
        std::string e = read_file(errf);
        // keep the interesting line of a sanitizer report
        size_t k = e.find("ERROR: ");
        if(k == std::string::npos)
            k = e.find("runtime error");
        if(k != std::string::npos)
        {
            size_t b = e.rfind('\n', k);
            b = b == std::string::npos?0:b+1;
            o.msg += ": "+e.substr(b, e.find('\n', k)-b);
        }
    }
    if(notes != nullptr)
        *notes = read_file(notef);
    if(errtail != nullptr)
    {
        std::string e = read_file(errf);
        *errtail = e.size()>6000?e.substr(0, 6000):e;
    }
    return o;
}

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best,
                                    double budget_s, Outcome* last)
{
    double end = now()+budget_s;
    int runs = 0;
    auto attempt = [&](const std::vector<uint64_t>& c)->bool
    {
        if(now()>end || runs>4000)
            return false;
        runs++;
        Outcome o = exec_case(p, &c, 0, -1, false, nullptr, nullptr);
        // a case that hangs costs its whole limit: accept only same kind
        if(o.failed && o.kind == last->kind)
        {
            // keep the record the run really used when it is not longer
            if(o.rec.size()<=c.size())
                best = o.rec;
            else
                best = c;
            while(!best.empty() && best.back() == 0)
                best.pop_back();
            *last = o;
            return true;
        }
        return false;
    };
    if(last->kind == "hang")
        end = now()+std::min(budget_s, 40.0);
    bool progress = true;
    while(progress && now()<end)
    {
        progress = false;
        // delete blocks
        for(size_t len = std::max<size_t>(1, best.size()/2); len>=1; len /= 2)
        {
            for(size_t k = 0; k+len<=best.size() && now()<end;)
            {
                std::vector<uint64_t> c = best;
                c.erase(c.begin()+k, c.begin()+k+len);
                if(attempt(c))
                    progress = true;
                else
                    k += std::max<size_t>(1, len);
            }
            if(len == 1)
                break;
        }
        // zero blocks
        for(size_t len = std::max<size_t>(1, best.size()/4); len>=1; len /= 2)
        {
            for(size_t k = 0; k+len<=best.size() && now()<end; k += len)
            {
                std::vector<uint64_t> c = best;
                bool any = false;
                for(size_t j = k; j<k+len; j++)
                {
                    any = any || c[j] != 0;
                    c[j] = 0;
                }
                if(any && attempt(c))
                    progress = true;
            }
            if(len == 1)
                break;
        }
        // lower single values
        for(size_t k = 0; k<best.size() && now()<end; k++)
        {
            uint64_t lo = 0;
            while(k<best.size() && best[k]>lo && now()<end)
            {
                uint64_t mid = lo+(best[k]-lo)/2;
                std::vector<uint64_t> c = best;
                c[k] = mid;
                uint64_t before = best[k];
                if(attempt(c))
                {
                    progress = true;
                    if(k>=best.size() || best[k]>=before)
                        break;
                }
                else
                    lo = mid+1;
            }
        }
    }
    return best;
}

// ------------------------------------------------------------------ output
static std::string jesc(const std::string& s)
{
    std::string o = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if(c == '\n')
            o += "\\n";
        else if(c<32 || c>126)
        {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            o += b;
        }
        else
            o += (char)c;
    }
    return o+"\"";
}

static int do_replay(const std::string& file, int times)
{
    std::ifstream in(file);
    std::string line, prop;
    std::vector<uint64_t> rec;
    while(std::getline(in, line))
    {
        if(line.compare(0, 5, "prop ") == 0)
            prop = line.substr(5);
        else if(line.compare(0, 9, "attempts ") == 0)
            times = atoi(line.c_str()+9); // depends on the schedule
        else if(line.compare(0, 8, "choices ") == 0)
        {
            std::istringstream is(line.substr(8));
            uint64_t v;
            while(is >> std::hex >> v)
                rec.push_back(v);
        }
    }
    for(auto& p : registry())
        if(prop == p.name)
        {
            int fails = 0;
            for(int k = 0; k<times; k++)
            {
                std::string notes, err;
                Outcome o = exec_case(p, &rec, 0, -1, true, &notes, &err);
                printf("%s", notes.c_str());
                if(o.failed)
                {
                    printf("FAILS (%s): %s\n%s\n", o.kind.c_str(),
                           o.msg.c_str(), err.c_str());
                    fails++;
                    break;
                }
                else
                    printf("PASSES\n");
            }
            return fails?1:0;
        }
    printf("unknown property %s\n", prop.c_str());
    return 2;
}

// an input of the fuzzer: confirm, shrink, keep
static int do_bytes(const std::string& file, const std::string& name,
                    const std::string& out, const std::string& flavour,
                    double shrink_s)
{
    std::string data = read_file(file);
    int res = 2;
    for(auto& p : registry())
        if(name == p.name)
        {
            g_bytes = &data;
            Outcome o = exec_case(p, nullptr, 0, -1, false, nullptr, nullptr);
            g_bytes = nullptr;
            res = 0;
            if(!o.failed)
                break;
            Outcome last = o;
            std::vector<uint64_t> best = shrink(p, o.rec, shrink_s, &last);
            std::string notes, err;
            last = exec_case(p, &best, 0, -1, true, &notes, &err);
            if(!last.failed)
                break;
            std::ostringstream os;
            for(uint64_t v : best)
                os << " " << std::hex << v;
            std::string path = str(out, "/replay-", flavour, "-fuzz-", p.name, ".txt");
            write_file(path, str("prop ", p.name, "\nflavour ", flavour,
                                 "\nfound by the fuzzer\nchoices", os.str(),
                                 "\nkind ", last.kind, "\nmessage ", last.msg,
                                 "\n\n", notes, "\n", err, "\n"));
            printf("FAILED %s (%s): %s\n%s\nREPLAY %s\n", p.name, last.kind.c_str(),
                   last.msg.c_str(), notes.substr(0, 2500).c_str(), path.c_str());
            res = 1;
        }
    rm_tree(g_tmp);
    return res;
}

int pbt_main(int argc, char** argv)
{
    uint64_t seed = 1;
    int workers = 8;
    std::string out = ".", only, replay, flavour = "default", known;
    double scale = 1;
    double max_s = 1e9;
    double shrink_s = 25;
    std::string bytes;
    for(int k = 1; k+1<argc; k += 2)
    {
        std::string a = argv[k], v = argv[k+1];
        if(a == "--seed")
            seed = strtoull(v.c_str(), nullptr, 10);
        else if(a == "--tier")
            g_thorough = v == "thorough";
        else if(a == "--out")
            out = v;
        else if(a == "--only")
            only = v;
        else if(a == "--workers")
            workers = atoi(v.c_str());
        else if(a == "--replay")
            replay = v;
        else if(a == "--flavour")
            flavour = v;
        else if(a == "--scale")
            scale = atof(v.c_str());
        else if(a == "--max-seconds")
            max_s = atof(v.c_str());
        else if(a == "--known")
            known = v;
        else if(a == "--shrink")
            shrink_s = atof(v.c_str());
        else if(a == "--bytes")
            bytes = v;
    }
    workers = std::max(1, std::min(workers, (int)MAX_WORKERS));
    g_tmp = str(out, "/tmp.", flavour, ".", (long)getpid());
    mkdir(g_tmp.c_str(), 0700);
    char rp[4096];
    if(realpath(g_tmp.c_str(), rp) != nullptr)
        g_tmp = rp;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE,
                       MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    hashes_cap = 1u << 24;
    hashes = (uint64_t*)mmap(nullptr, hashes_cap*8, PROT_READ|PROT_WRITE,
                             MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    suite_init();
    if(!replay.empty())
    {
        int r = do_replay(replay, 1);
        rm_tree(g_tmp);
        return r;
    }
    if(!bytes.empty())
        return do_bytes(bytes, only, out, flavour, shrink_s);
    double t_begin = now();
    std::string json = "{\"props\":[";
    bool first = true;
    int violations = 0;
    for(auto& p : registry())
    {
        if(!only.empty() && only != p.name)
            continue;
        double t0 = now();
        uint64_t total = (uint64_t)std::ceil(
                (double)(g_thorough?p.thorough:p.quick)*scale);
        sh->next = 0;
        sh->stop = 0;
        sh->nhash = 0;
        std::vector<pid_t> pids(workers);
        std::vector<bool> live(workers, true);
        fflush(stdout);
        fflush(stderr);
        for(int w = 0; w<workers; w++)
        {
            Slot* s = &sh->slots[w];
            s->rec_n = 0;
            s->case_index = -1;
            s->status = 0;
            s->evals = s->discards = s->nontrivial = 0;
            s->msg[0] = 0;
            pids[w] = fork();
            if(pids[w] == 0)
                worker(p, seed, total, s, str(g_tmp, "/labels.", w));
        }
        Outcome found;
        bool cut = false;
        int alive = workers;
        while(alive>0)
        {
            for(int w = 0; w<workers; w++)
            {
                if(!live[w])
                    continue;
                Slot* s = &sh->slots[w];
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                bool dead = r == pids[w];
                bool hung = false;
                if(!dead && s->case_index>=0 &&
                   now()-s->started>p.cpu_seconds*3+25)
                {
                    kill(-pids[w], SIGKILL);
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    dead = hung = true;
                }
                if(dead)
                {
                    kill(-pids[w], SIGKILL); // anything it left running
                    live[w] = false;
                    alive--;
                    if(s->status != 1)
                    {
                        sh->stop = 1;
                        if(found.index<0 || s->case_index<found.index)
                        {
                            found.failed = true;
                            found.index = s->case_index;
                            found.rec.assign(s->rec, s->rec+
                                    std::min<uint64_t>((uint64_t)s->rec_n, (uint64_t)REC_CAP));
                            found.msg = hung?"hang":s->msg;
                        }
                    }
                }
            }
            if(now()-t_begin>max_s && !sh->stop)
            {
                sh->stop = 1;
                cut = true;
            }
            usleep(2000);
        }
        uint64_t evals = 0, disc = 0, nt = 0;
        std::map<std::string, uint64_t> labels;
        for(int w = 0; w<workers; w++)
        {
            evals += sh->slots[w].evals;
            disc += sh->slots[w].discards;
            nt += sh->slots[w].nontrivial;
            std::ifstream in(str(g_tmp, "/labels.", w));
            std::string line;
            while(std::getline(in, line))
            {
                size_t sp = line.find(' ');
                labels[line.substr(sp+1)] += strtoull(line.c_str(), nullptr, 10);
            }
            unlink(str(g_tmp, "/labels.", w).c_str());
        }
        std::unordered_set<uint64_t> uniq;
        for(uint64_t k = 0; k<(uint64_t)sh->nhash && k<hashes_cap; k++)
            uniq.insert(hashes[k]);
        // samples: re-run a few cases and keep their description
        std::vector<std::string> samples;
        if(!found.failed)
            for(int64_t idx = 1; idx<(int64_t)evals && samples.size()<2;
                idx += std::max<int64_t>(1, (int64_t)evals/3))
            {
                std::string notes;
                exec_case(p, nullptr, seed, idx, true, &notes, nullptr);
                if(!notes.empty())
                    samples.push_back(notes.substr(0, 700));
                if(samples.empty() && idx>(int64_t)evals*2/3)
                    break;
            }
        std::string viol, unreproduced;
        if(found.failed)
        {
            // reproduce in a fresh process, from the case's seed
            Outcome o = exec_case(p, nullptr, seed, found.index, false, nullptr,
                                  nullptr);
            // what depends on the schedule may need several attempts
            int attempts = 1;
            double until = now()+60;
            while(!o.failed && found.msg != "hang" && attempts<40 && now()<until)
            {
                o = exec_case(p, nullptr, seed, found.index, false, nullptr, nullptr);
                attempts++;
            }
            if(!o.failed)
                unreproduced = str("case ", found.index, ": ", found.msg);
            else
            {
                Outcome last = o;
                std::vector<uint64_t> best = o.rec;
                if(attempts == 1)
                    best = shrink(p, o.rec, shrink_s, &last);
                int rep = 0;
                std::string notes, err;
                if(last.kind == "hang")
                    rep = 2; // once is enough
                for(int k = rep; k<3; k++)
                {
                    last = exec_case(p, &best, 0, -1, true, &notes, &err);
                    if(last.failed)
                        rep++;
                    else
                        break;
                }
                if(rep<3)
                {
                    // the shrunk case is not stable: fall back to the original
                    best = o.rec;
                    rep = 0;
                    int k = 0;
                    Outcome some;
                    until = now()+60;
                    for(; k<3 || (rep == 0 && k<40 && now()<until); k++)
                    {
                        last = exec_case(p, nullptr, seed, found.index, true,
                                         &notes, &err);
                        if(last.failed)
                        {
                            rep++;
                            some = last;
                        }
                    }
                    if(rep>0 && rep<k)
                    {
                        attempts = 200;
                        last = some;
                        rep = 3;
                    }
                }
                if(rep<3)
                    unreproduced = str("case ", found.index, " fails only ",
                                       "sometimes: ", found.msg);
                else
                {
                    violations++;
                    viol = str(out, "/replay-", flavour, "-", p.name, ".txt");
                    std::string txt = str("prop ", p.name, "\nflavour ", flavour,
                                          "\nfound seed=", seed, " case=",
                                          found.index,
                                          attempts == 200?"\nattempts 200":"",
                                          "\nchoices");
                    std::ostringstream os;
                    for(uint64_t v : best)
                        os << " " << std::hex << v;
                    txt += os.str()+"\nkind "+last.kind+"\nmessage "+last.msg+
                           "\n\n"+notes+"\n"+err+"\n";
                    write_file(viol, txt);
                    printf("FAILED %s (%s): %s\n%s", p.name, last.kind.c_str(),
                           last.msg.c_str(), notes.substr(0, 2500).c_str());
                }
            }
            if(!unreproduced.empty())
                printf("UNREPRODUCED %s %s\n", p.name, unreproduced.c_str());
        }
        printf("%-34s evals %8llu  nontrivial %8llu  distinct %8zu  discarded "
               "%6llu  %.1fs%s\n", p.name, (unsigned long long)evals,
               (unsigned long long)nt, uniq.size(), (unsigned long long)disc,
               now()-t0, cut?" (time limit)":"");
        if(getenv("PBT_LABELS") != nullptr)
            for(auto& l : labels)
                printf("      %8llu %s\n", (unsigned long long)l.second,
                       l.first.c_str());
        fflush(stdout);
        if(!first)
            json += ",";
        first = false;
        json += "{\"name\":"+jesc(p.name)+",\"evals\":"+str(evals)+
                ",\"nontrivial\":"+str(nt)+",\"distinct\":"+str(uniq.size())+
                ",\"discarded\":"+str(disc)+",\"rule\":"+jesc(p.rule)+
                ",\"cut\":"+(cut?"true":"false")+",\"wall\":"+str(now()-t0)+
                ",\"labels\":{";
        bool f2 = true;
        for(auto& l : labels)
        {
            json += (f2?"":",")+jesc(l.first)+":"+str(l.second);
            f2 = false;
        }
        json += "},\"samples\":[";
        for(size_t k = 0; k<samples.size(); k++)
            json += (k?",":"")+jesc(samples[k]);
        json += "],\"violation\":"+jesc(viol)+",\"unreproduced\":"+
                jesc(unreproduced)+"}";
        rm_tree(g_tmp);
        mkdir(g_tmp.c_str(), 0700);
        if(cut)
            break;
        if(violations>0)
            break;
    }
    json += "],\"known\":[";
    first = true;
    if(only.empty() || known == "1")
        for(auto& k : knowns())
        {
            fflush(stdout);
            SubResult r = run_sub([&]() { return k.fn(); }, 60);
            std::string text = r.finished?r.payload:r.what();
            if(!first)
                json += ",";
            first = false;
            json += "{\"name\":"+jesc(k.name)+",\"text\":"+jesc(text)+"}";
        }
    json += "]}\n";
    write_file(str(out, "/result-", flavour, ".json"), json);
    rm_tree(g_tmp);
    return violations?1:0;
}
}

#ifndef PBT_FUZZ
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#else
// The same properties as targets of a coverage-guided fuzzer: the bytes are the
// choices.  PBT_PROP names the property.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    using namespace pbt;
    static const Prop* p = nullptr;
    static uint64_t* rec;
    static volatile uint64_t n;
    if(p == nullptr)
    {
        const char* name = getenv("PBT_PROP");
        const char* tmp = getenv("PBT_TMP");
        g_tmp = tmp?tmp:"/tmp/pbt-fuzz";
        mkdir(g_tmp.c_str(), 0700);
        g_thorough = true;
        suite_init();
        for(auto& q : registry())
            if(name != nullptr && strcmp(name, q.name) == 0)
                p = &q;
        if(p == nullptr)
            exit(3);
        rec = new uint64_t[REC_CAP];
    }
    Gen g;
    g.mode_ = Gen::BYTES;
    g.data_ = data;
    g.data_n_ = size;
    g.rec_ = rec;
    g.rec_cap_ = REC_CAP;
    n = 0;
    g.rec_n_ = &n;
    try
    {
        p->fn(g);
    }
    catch(const Discarded&)
    {
    }
    catch(...)
    {
        fprintf(stderr, "PBT failure: %s\n", current_exception_text().c_str());
        abort();
    }
    return 0;
}
// turns a fuzzer input into a replay file of the engine
#endif
