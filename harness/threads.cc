// Runs the calls listed in a file in several threads at once and prints every different result of each call.
// Line: thread, function, nb, nB, then the numbers. First line: repetitions. Linked against the library's objects, with or without ThreadSanitizer.
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include <fftw3.h>
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"

// FFTW's planner must not be used by two threads at once. Its code is not instrumented: these stand in front of it.
static std::atomic<int> inside(0), planner_is_safe(0);
static long planner;   // not synchronised, so that ThreadSanitizer sees accesses that nothing orders
struct Enter {
    Enter() { if (planner_is_safe) return; if (inside++) { static const char m[] = "two threads are in FFTW's planner at once\n"; if (write(2, m, sizeof m - 1)) {} _exit(98); } planner += 1; }
    ~Enter() { if (planner_is_safe) return; planner += 1; --inside; }
};
template <class F> static F next(const char* name, F) { return (F)dlsym(RTLD_NEXT, name); }
extern "C" {
fftw_plan fftw_plan_dft_r2c_1d(int n, double* in, fftw_complex* out, unsigned flags) { static auto f = next("fftw_plan_dft_r2c_1d", &fftw_plan_dft_r2c_1d); Enter e; return f(n, in, out, flags); }
fftw_plan fftw_plan_dft_c2r_1d(int n, fftw_complex* in, double* out, unsigned flags) { static auto f = next("fftw_plan_dft_c2r_1d", &fftw_plan_dft_c2r_1d); Enter e; return f(n, in, out, flags); }
fftw_plan fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { static auto f = next("fftw_plan_dft_1d", &fftw_plan_dft_1d); Enter e; return f(n, in, out, sign, flags); }
fftw_plan fftw_plan_r2r_1d(int n, double* in, double* out, fftw_r2r_kind kind, unsigned flags) { static auto f = next("fftw_plan_r2r_1d", &fftw_plan_r2r_1d); Enter e; return f(n, in, out, kind, flags); }
void fftw_destroy_plan(fftw_plan p) { static auto f = next("fftw_destroy_plan", &fftw_destroy_plan); Enter e; f(p); }
void fftw_cleanup(void) { static auto f = next("fftw_cleanup", &fftw_cleanup); Enter e; f(); }
void fftw_make_planner_thread_safe(void) { planner_is_safe = 1; if (auto f = next("fftw_make_planner_thread_safe", &fftw_make_planner_thread_safe)) f(); }
}

// lgamma() also sets a global variable that nobody reads, the sign of the gamma function: not a race that could change a result
extern "C" {
double lgamma(double x) noexcept { int s; return lgamma_r(x, &s); }
float lgammaf(float x) noexcept { int s; return lgammaf_r(x, &s); }
long double lgammal(long double x) noexcept { int s; return lgammal_r(x, &s); }
}

struct Call { int fn; std::vector<double> b, B; std::vector<std::string> results; };
static void run(Call& c) {
    char s[64]; double v = 0;
    try {
        switch (c.fn) {
        case 0: v = ecdf2(c.b, c.B, false); break;
        case 1: v = ecdf2(c.b, c.B, true); break;
        case 2: v = ecdf1_new_b(c.b); break;
        case 3: v = ecdf1_new_B(c.B); break;
        case 4: v = ecdf1_mns2016_b(c.b); break;
        default: v = ecdf1_mns2016_B(c.B);
        }
        snprintf(s, sizeof s, "0 %a", v); c.results.push_back(s);
    } catch (std::runtime_error& e) { c.results.push_back(std::string("1 ") + e.what());
    } catch (std::exception& e) { c.results.push_back(std::string("2 ") + e.what()); }
}
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r"); int reps; if (!f || fscanf(f, "%d", &reps) != 1) return 3;
    std::vector<std::vector<Call>> calls; std::vector<std::pair<int, int>> order;
    int t, fn; unsigned nb, nB;
    while (fscanf(f, "%d %d %u %u", &t, &fn, &nb, &nB) == 4) {
        Call c; c.fn = fn; c.b.resize(nb); c.B.resize(nB);
        for (double& x : c.b) if (fscanf(f, "%la", &x) != 1) return 3;
        for (double& x : c.B) if (fscanf(f, "%la", &x) != 1) return 3;
        if ((int)calls.size() <= t) calls.resize(t + 1);
        order.push_back({t, (int)calls[t].size()}); calls[t].push_back(c);
    }
    std::atomic<int> ready(0); std::vector<std::thread> threads; int n = calls.size();
    for (int t = 0; t < n; ++t) threads.emplace_back([&, t] {
        // relaxed, so that the start orders nothing between the threads' calls
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        for (int r = 0; r < reps; ++r) for (Call& c : calls[t]) run(c);
    });
    for (auto& x : threads) x.join();
    for (auto& o : order) { auto& c = calls[o.first][o.second]; std::set<std::string> d(c.results.begin(), c.results.end()); for (auto& s : d) printf("%s\n", s.c_str()); printf(". %zu\n", c.results.size()); }
    return 0;
}
