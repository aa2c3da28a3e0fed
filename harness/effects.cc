// Makes the calls listed in a file (function, nb, nB, numbers) in a process whose state is set up by <seed> and prints the results and every change of that state.
// effects <file> <seed> <directory> : stdin, stdout and stderr are files in the directory's parent; the report goes to descriptor 9
#include <algorithm>
#include <cfenv>
#include <clocale>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <immintrin.h>
#include <iomanip>
#include <iostream>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
#include <fftw3.h>
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
extern "C" { void verif_reseed(); const char* verif_state(const char*); }
static void handler_a(int) {}
static void handler_b(int) {}
static void terminate_own() { _exit(97); }
static void no_memory() { throw std::bad_alloc(); }
struct Punct : std::numpunct<char> { char do_decimal_point() const { return ','; } char do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\3"; } };
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> o; std::istringstream f(s); std::string l; while (std::getline(f, l)) o.push_back(l); return o; }
static long size_of(int fd) { struct stat s; return fstat(fd, &s) ? -1 : (long)s.st_size; }
static int report = 9;
static void say(const std::string& s) { size_t p = 0; while (p < s.size()) { ssize_t k = write(report, s.data() + p, s.size() - p); if (k <= 0) _exit(96); p += k; } }
static std::string wisdom() { char* w = fftw_export_wisdom_to_string(); std::string s = w ? w : ""; free(w); return s; }
int main(int, char** argv) {
    unsigned long seed = strtoul(argv[2], 0, 10); std::string dir = argv[3];
    FILE* f = fopen(argv[1], "r"); if (!f) return 3;
    struct Call { int fn; std::vector<double> b, B; }; std::vector<Call> calls; int fn; unsigned nb, nB;
    while (fscanf(f, "%d %u %u", &fn, &nb, &nB) == 3) {
        Call c; c.fn = fn; c.b.resize(nb); c.B.resize(nB);
        for (double& x : c.b) if (fscanf(f, "%la", &x) != 1) return 3;
        for (double& x : c.B) if (fscanf(f, "%la", &x) != 1) return 3;
        calls.push_back(c);
    }
    fclose(f);
    if (chdir(dir.c_str())) return 3;
    auto on = [&](int bit) { return seed >> bit & 1; };
    // the caller's own use of FFTW
    double in[48], back[48]; std::complex<double> out[25]; fftw_plan plan = fftw_plan_dft_r2c_1d(48, in, (fftw_complex*)out, on(8) ? FFTW_MEASURE : FFTW_ESTIMATE), inverse = fftw_plan_dft_c2r_1d(48, (fftw_complex*)out, back, FFTW_ESTIMATE);
    auto spectrum = [&] { for (int i = 0; i < 48; ++i) in[i] = (i * 7) % 48; fftw_execute(plan); std::string s; char t[60]; for (int i = 0; i < 25; ++i) { snprintf(t, sizeof t, "%.9f %.9f ", out[i].real() + 0., out[i].imag() + 0.); s += t; } fftw_execute(inverse); for (int i = 0; i < 48; ++i) { snprintf(t, sizeof t, "%.6f ", back[i]); s += t; } return s; };
    // the caller's state
    if (on(1)) setlocale(LC_ALL, "de_DE.UTF-8");
    if (on(2)) std::locale::global(std::locale(std::locale::classic(), new Punct));
    if (on(3)) { std::cout << std::hexfloat << std::setprecision(3) << std::setfill('*') << std::boolalpha; std::cerr << std::scientific << std::setw(20); std::cin.tie(0); }
    if (on(4)) for (int s = 1; s < 32; ++s) if (s != SIGKILL && s != SIGSTOP && s != SIGCONT) signal(s, s % 3 == 0 ? SIG_IGN : s % 3 == 1 ? handler_a : handler_b);
    if (on(5)) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGPIPE); sigaddset(&m, SIGUSR2); sigprocmask(SIG_SETMASK, &m, 0); }
    if (on(6)) { umask(0137); setenv("CROSSPROB_TEST", "1", 1); setenv("TZ", "Asia/Tokyo", 1); }
    if (on(7)) { std::set_terminate(terminate_own); std::set_new_handler(no_memory); }
    if (on(9)) { rlimit l; if (!getrlimit(RLIMIT_NOFILE, &l)) { l.rlim_cur = std::min(l.rlim_cur, (rlim_t)64); setrlimit(RLIMIT_NOFILE, &l); } }
    if (on(10)) { if (open("/dev/null", O_RDWR) < 0 || open(argv[1], O_RDONLY) < 0) return 3; }
    if (on(11)) std::cout.exceptions(std::ios::badbit);
    if (on(12)) std::ios::sync_with_stdio(false);
    if (on(13)) _mm_setcsr(_mm_getcsr() | 0x8040);   // denormals are zero
    static const int R[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    int mode = R[seed >> 14 & 3];
    std::string spectrum0 = spectrum(), wisdom0 = wisdom(); std::vector<std::string> known = lines(wisdom0);
    for (size_t k = 0; k < calls.size(); ++k) {
        Call& c = calls[k]; std::vector<double> b = c.b, B = c.B; const double *pb = c.b.data(), *pB = c.B.data(); char s[700]; double v = 0;
        std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(0); long o1 = size_of(1), o2 = size_of(2);
        fesetround(mode); verif_reseed(); std::string before = verif_state("."); verif_reseed();
        try {
            switch (c.fn) {
            case 0: v = ecdf2(c.b, c.B, false); break;
            case 1: v = ecdf2(c.b, c.B, true); break;
            case 2: v = ecdf1_new_b(c.b); break;
            case 3: v = ecdf1_new_B(c.B); break;
            case 4: v = ecdf1_mns2016_b(c.b); break;
            default: v = ecdf1_mns2016_B(c.B);
            }
            snprintf(s, sizeof s, "result 0 %a\n", v);
        } catch (std::runtime_error& e) { strcpy(s, "result 1 0\n");
        } catch (std::exception& e) { strcpy(s, "result 2 0\n"); }
        std::string after = verif_state("."); fesetround(FE_TONEAREST);
        for (char* p = s; *p; ++p) if (*p == ',') *p = '.';
        say(s);
        if (before != after) {
            auto x = lines(before), y = lines(after); std::set<std::string> X(x.begin(), x.end()), Y(y.begin(), y.end()); std::string was, is;
            for (auto& l : x) if (!Y.count(l)) { was = l; break; }
            for (auto& l : y) if (!X.count(l)) { is = l; break; }
            say("change before: " + (was.empty() ? "-" : was.substr(0, 300)) + " / after: " + (is.empty() ? "-" : is.substr(0, 300)) + "\n");
        }
        std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(0);
        if (size_of(1) != o1) say("change something is written to standard output\n");
        if (size_of(2) != o2) say("change something is written to standard error\n");
        if (pb != c.b.data() || pB != c.B.data() || c.b.size() != b.size() || c.B.size() != B.size() || (b.size() && memcmp(b.data(), c.b.data(), 8 * b.size())) || (B.size() && memcmp(B.data(), c.B.data(), 8 * B.size()))) say("change the arguments\n");
        if (spectrum() != spectrum0) say("change the caller's FFTW plan gives something else\n");
        std::set<std::string> now; for (auto& l : lines(wisdom())) now.insert(l);
        for (auto& l : known) if (!now.count(l)) { say("change the caller's FFTW wisdom is lost\n"); break; }
    }
    fftw_destroy_plan(plan); fftw_destroy_plan(inverse);
    say("end\n");
    return 0;
}
