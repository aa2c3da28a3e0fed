// Generators, SUT access, shrinking and reporting shared by all properties.
#pragma once
#include <rapidcheck.h>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include "ref.hh"

// ---- randomness: rapidcheck's splittable generator; every choice of a case is drawn from it ----
struct Rng {
    rc::Random r;
    explicit Rng(const rc::Random& x) : r(x) {}
    uint64_t next() { return r.next(); }
    double u() { return (next() >> 11) * 0x1p-53; }
    long range(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return u() < p; }
    double uni(double a, double b) { return a + (b - a) * u(); }
    double loguni(double a, double b) { return a * std::pow(b / a, u()); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct Case {
    std::string kind;            // what is exercised (function, law, command ...)
    V b, B;
    std::vector<long> iv;        // integer parameters
    V dv;                        // real parameters
    std::vector<std::string> sv; // strings (file contents, arguments, op descriptions)
    std::string fam;             // generator family, for the distribution report only
    std::string str() const;
    static Case parse(const std::string& text);
    std::string brief() const;
};
uint64_t hash64(const std::string& s);
std::string hexd(double x);
std::string jstr(const std::string& s);

struct Res {
    bool ok = true;
    bool nontrivial = true;
    bool hang = false;           // do not shrink
    std::string why;             // for failures
    std::vector<std::string> labels;
    static Res fail(const std::string& w) { Res r; r.ok = false; r.why = w; return r; }
};

// ---- the system under test ----
struct Outcome {
    enum Kind { OK, RUNTIME_ERROR, OTHER_ERROR, CRASH, HANG, OVER } kind = OK;
    double value = 0;
    uint64_t heap = 0;           // bytes in use after the call; the work of the call where that is counted
    std::string msg;
    bool hit = false;            // an injected fault took effect
    std::string show() const;
    bool finite() const { return kind == OK && std::isfinite(value); }
};
enum Fn { KS2 = 0, FFT2 = 1, NEW_b = 2, NEW_B = 3, MNS_b = 4, MNS_B = 5 };
extern const char* FN_NAME[6];

class Sut {   // a server process for library calls; restarted after a crash
public:
    Sut(const std::string& cmd, std::vector<std::string> env = {}, double timeout = 90) : cmd(cmd), env(env), timeout(timeout) {}
    ~Sut() { stop(); }
    Outcome call(int fn, const V& b, const V& B, uint64_t extra = 0);   // extra: limit of the work in units of 2^20, or the fault to inject
    // ends the server; returns a description if it ended abnormally (e.g. LeakSanitizer report), else ""
    std::string stop();
    bool running() const { return pid > 0; }
    long calls = 0;
private:
    void start();
    std::string reap();
    std::string cmd; std::vector<std::string> env; double timeout;
    int pid = -1, to = -1, from = -1; std::string errfile;
};

struct ProcOut { int exit = -1; int sig = 0; bool hang = false; std::string out, err; double secs = 0; std::string show() const; };
ProcOut run_proc(const std::vector<std::string>& argv, const std::vector<std::string>& env, double timeout);
void write_file(const std::string& path, const std::string& data);

struct Env {   // set by main
    std::vector<std::pair<std::string, std::string>> builds; std::vector<std::string> corpus; std::string threads, threads_tsan, mt;
    std::string faults_so, mem_so, prop, tier, bindir, sandir, sut, sut_san, pysut, pysut2, pysut_san[2], clock_so, scratch, vgdir, effects, state_so, record_so, pyeffects, pylib, pylib2;
    uint64_t seed = 1; int worker = 0, workers = 1; double scale = 1;
    bool thorough() const { return tier == "thorough"; }
};
extern Env E;
Sut& sut_native();
Sut& sut_san();
Sut& sut_py();
Sut& sut_py2();
Sut& sut_py_san(int i);
Sut& sut_faulty();
Sut& sut_measured(int i);    // 0: the library, 1, 2: the Python modules, with mem.c
Sut& sut_py_faulty(bool regenerated);
void fresh_suts();

// ---- boundary families ----
// lower list of length n, non-decreasing in [0,1]; scale c ~ tightness in standard deviations
V gen_lower(Rng& r, int n, std::string& fam);
V gen_lower_pos(Rng& r, int n, std::string& fam);   // never mostly-infeasible: moderate probabilities
void gen_two_sided(Rng& r, int n, V& b, V& B, std::string& fam);
V reflect(const V& v);
void fix(V& v);          // clamp into [0,1], make non-decreasing by running maximum
void make_sorted(V& v);
bool valid_list(const V& v);
std::string list_text(Rng& r, const V& v, bool plain, std::string* style = nullptr);

// ---- shrinking ----
std::vector<Case> shrink_lists(const Case& c);

struct Prop {
    std::string id;
    std::string rule;
    long quick, thorough;                                  // number of cases
    std::function<Case(Rng&, long idx)> gen;
    std::function<Res(const Case&)> check;
    std::function<std::vector<Case>(const Case&)> shrink;
    std::function<Case(const std::string& path, long idx)> from_file;
};
extern std::map<std::string, Prop> PROPS;
struct Reg { Reg(const Prop& p) { PROPS[p.id] = p; } };

std::string fmt(const char* f, ...);

// a library call by its description "<fn> <generator seed> <n> <invalid> <variation>"
struct Op { int fn; uint64_t seed; int n; int inv; V b, B; };
Op mkop(const std::string& s);
const Outcome& alone(const std::string& s);     // its result when made first in a fresh process
std::string op_text(Rng& r, const std::vector<std::string>& pool, int max);   // sometimes related to one of the pool
Case mc_gen(Rng& r, long idx, bool poisson);    // Monte-Carlo runs against the exact probability
Res mc_check(const Case& c, const std::string& cmd);
