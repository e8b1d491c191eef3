// pbt.hpp - a small property-based testing engine.
//
// A property is a function of a Gen, which hands out choices (integers bounded
// by a maximum).  In a search the choices come from a generator seeded by
// (VERIF_SEED, property name, case index) and are recorded as they are made, so
// that a failing case - also one that crashes, hangs or calls exit() - can be
// replayed from the record and shrunk by editing the record (delete, zero,
// lower).  The value 0 of every choice is the simplest one.
#ifndef PBT_HPP
#define PBT_HPP
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{

struct Failure
{
    std::string msg;
};
struct Discarded
{
};

template <typename... A>
std::string str(const A& ... a)
{
    std::ostringstream o;
    o.precision(9);
    int dummy[] = {0, ((void)(o << a), 0)...};
    (void)dummy;
    return o.str();
}

[[noreturn]] void fail_at(const char* file, int line, const char* cond,
                          const std::string& msg);

#define CHECK(cond, ...)                                                       \
    do                                                                         \
    {                                                                          \
        if(!(cond))                                                            \
            pbt::fail_at(__FILE__, __LINE__, #cond, pbt::str(__VA_ARGS__));    \
    } while(0)
#define FAIL(...) pbt::fail_at(__FILE__, __LINE__, "", pbt::str(__VA_ARGS__))

class Gen
{
public:
    // ------------------------------------------------------ raw choice
    uint64_t draw(uint64_t max); // uniform in [0,max], 0 is simplest

    // ------------------------------------------------------ integers
    int64_t i(int64_t lo, int64_t hi) // uniform, lo is simplest
    {
        return lo+(int64_t)draw((uint64_t)(hi-lo));
    }
    bool b() { return draw(1) != 0; }
    // true with probability num/den
    bool p(unsigned num, unsigned den) { return draw(den-1)>=den-num; }
    // skewed towards small sizes, whole range reachable
    int64_t size(int64_t lo, int64_t hi);
    template <typename T>
    const T& pick(const std::vector<T>& v) { return v[draw(v.size()-1)]; }
    template <typename T>
    T pick(std::initializer_list<T> v)
    {
        return *(v.begin()+draw(v.size()-1));
    }
    // ------------------------------------------------------ floats
    float unit();               // [0,1), with special values
    float unit_plain();         // [0,1), uniform on a 2^-24 grid
    float f(float lo, float hi);// [lo,hi], with special values
    float logf(float lo, float hi); // log-uniform, lo>0
    double d01() { return (double)draw((1ull << 53)-1)/(double)(1ull << 53); }
    void dir(float* x, float* y, float* z); // unit vector, axis/diag/random
    // ------------------------------------------------------ text
    std::string bytes(size_t max_len);
    std::string ident(size_t max_len);

    // ------------------------------------------------------ bookkeeping
    void nontrivial(bool v = true) { nontrivial_ = nontrivial_ || v; }
    void label(const std::string& s) { labels_.push_back(s); }
    template <typename... A>
    void note(const A& ... a)
    {
        if(verbose_)
            notes_ += str(a...)+"\n";
    }
    bool verbose() const { return verbose_; }
    void discard() { throw Discarded(); }
    // overrides the identity used to count distinct cases
    void identity(const std::string& s);

    // ------------------------------------------------------ engine side
    enum Mode
    {
        RANDOM, REPLAY, BYTES
    };
    Mode mode_ = RANDOM;
    uint64_t s_[4];
    const uint64_t* replay_ = nullptr;
    size_t replay_n_ = 0;
    const uint8_t* data_ = nullptr;
    size_t data_n_ = 0, data_pos_ = 0;
    uint64_t* rec_ = nullptr; // record (may live in shared memory)
    size_t rec_cap_ = 0;
    volatile uint64_t* rec_n_ = nullptr;
    uint64_t pos_ = 0;
    uint64_t hash_ = 1469598103934665603ull;
    bool hash_forced_ = false;
    bool nontrivial_ = false;
    bool verbose_ = false;
    std::vector<std::string> labels_;
    std::string notes_;
    void seed(uint64_t a, uint64_t b, uint64_t c);
};

struct Prop
{
    const char* name;
    void (* fn)(Gen&);
    uint64_t quick, thorough;
    const char* rule;
    int cpu_seconds;
};
std::vector<Prop>& registry();
struct Reg
{
    Reg(const char* n, void(* f)(Gen&), uint64_t q, uint64_t t, const char* rule,
        int cpu = 20)
    {
        registry().push_back(Prop{n, f, q, t, rule, cpu});
    }
};

// a recorded finding: returns the text of what still fails, or "" if it holds
struct Known
{
    const char* name;
    std::string (* fn)();
};
std::vector<Known>& knowns();
struct RegK
{
    RegK(const char* n, std::string(* f)()) { knowns().push_back(Known{n, f}); }
};

#define PROP(name, quick, thorough, rule)                                      \
    static void prop_##name(pbt::Gen&);                                        \
    static pbt::Reg reg_##name(#name, prop_##name, quick, thorough, rule);     \
    static void prop_##name(pbt::Gen& g)
#define PROP_CPU(name, quick, thorough, rule, cpu)                             \
    static void prop_##name(pbt::Gen&);                                        \
    static pbt::Reg reg_##name(#name, prop_##name, quick, thorough, rule, cpu);\
    static void prop_##name(pbt::Gen& g)
#define KNOWN(name)                                                            \
    static std::string known_##name();                                         \
    static pbt::RegK regk_##name(#name, known_##name);                         \
    static std::string known_##name()

// Called once in the parent before any worker is forked (optional, weak).
void suite_init();

// ------------------------------------------------------------ child runs
struct SubResult
{
    bool exited = false; // left through exit()/_exit()/return
    int code = 0;        // exit code, or signal number
    bool timeout = false;
    bool finished = false; // fn returned normally
    std::string payload; // what fn returned
    std::string out, err;
    std::string what() const;
};
// Runs fn in a forked child with its standard streams captured.
SubResult run_sub(const std::function<std::string()>& fn, int cpu_seconds = 20);
// Runs a program; argv[0] is the path.
SubResult run_program(const std::vector<std::string>& argv,
                      const std::string& cwd = "", int cpu_seconds = 20,
                      const std::vector<std::string>& env = {});

// A scratch directory owned by the calling process, emptied per case on demand
// and removed by the engine at the end of the run.
std::string scratch();
void scratch_clear();
bool write_file(const std::string& path, const std::string& bytes);
std::string read_file(const std::string& path, bool* ok = nullptr);

inline bool near(double a, double b, double abs_tol, double rel_tol = 0)
{
    if(std::isnan(a) || std::isnan(b))
        return false;
    if(a == b)
        return true;
    double m = std::fmax(std::fabs(a), std::fabs(b));
    return std::fabs(a-b)<=abs_tol+rel_tol*m;
}

bool thorough(); // tier of this run
}
#endif
