// C23: the memory every computation has in use at once, measured (mem.c), stays in proportion to its input
#include "core.hh"
#include <unistd.h>
#include <algorithm>
#include <fstream>
void lists(Rng& r, int n, int fn, V& b, V& B, std::string& fam);
std::string join(const V& v, const char* f);
static const char* COMMAND[6] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-new", "ecdf1-mns2016", "ecdf1-mns2016"};
// About twice to three times what was measured. Computing: about 220 bytes a point, and the smallest transform has 2048 points.
static double computing(double n) { return 500 * n + 6e5; }
// FFTW's plans: one of each size in use, which is a multiple of 2048
static double plans(double n) { return 100 * n * (n / 1024 + 8) + 1.5e6; }
static double reading(double bytes, double fields) { return 12 * bytes + 400 * fields + 2e5; }
static const double STACK = 600e3;
static std::string text(const Case& c) {   // large files, most of them not of two valid lists
    std::string o; long n = c.iv[2]; Rng r(rc::Random(c.iv[3]));
    switch (c.iv[1]) {
    case 0: for (long i = 0; i < n; ++i) o += "1,"; o += "0\n\n"; break;
    case 1: o.assign(n, ','); o += "\n0.5\n"; break;
    case 2: o = "0."; o.append(n, '3'); o += "\n\n"; break;
    case 3: for (long i = 0; i < n; ++i) o += fmt("%.17g,", (i + r.u()) / n); o += "0\n\n"; break;
    case 4: o = "0.2,0.4\n0.5,0.9\n"; while ((long)o.size() < n) o += r.chance(.5) ? "0.5,0.7\n" : "#\n"; break;
    case 5: o = "\n"; for (long i = 0; i < n; ++i) o += i % 2 ? " 0.25 ," : "0.75,"; break;
    case 6: o = "0.5\n"; o.append(n, ' '); o += "0.75"; break;
    case 7: for (long i = 0; i < n; ++i) o += "\n"; break;
    case 8: for (long i = 0; i < n; ++i) o += "x"; break;
    default: for (long i = 0; i < n; ++i) o += fmt("%.6f, ", (double)i / n); o += "\n"; for (long i = 0; i < n + 3; ++i) o += "1,"; o += "\n"; }
    return o;
}
static Reg c23({"C23", "generated boundaries (as C16) for every function of the library and of both Python modules, every command of both programs, n log-uniform up to 18000 (O(n^2) methods) and 900 (O(n^3)), up to 4*10^6 simulations and 10^5 points, files of up to 10^6 fields; most memory in use at once, by the code, by FFTW's plans and on the stack; non-trivial: n >= 100, or a file of at least 10 kB",
    3000, 20000,
    [](Rng& r, long idx) {
        Case c; static const char* K[] = {"library", "library", "library", "reading", "python", "python-regenerated", "program", "program", "reading", "simulation"};
        c.kind = K[idx % 10]; int fn = idx / 10 % 6; std::string f;
        double max = fn == KS2 ? 900 : fn == FFT2 ? 7000 : fn >= MNS_b ? 5000 : 18000;
        if (E.thorough()) max *= fn == KS2 ? 2 : 3;
        if (c.kind == "reading") {
            long n = (long)r.loguni(100, E.thorough() ? 5e6 : 1e6);
            c.iv = {(long)r.range(0, 5), r.range(0, 9), n, r.range(1, 1000000), 1 + (long)r.range(0, 3)};
            c.sv = {r.chance(.2) ? r.chance(.5) ? "ecdf" : "poisson" : COMMAND[c.iv[0]]};
            c.fam = fmt("file%ld", c.iv[1]);
            return c;
        }
        if (c.kind == "simulation") {
            long N = (long)(r.chance(.3) ? r.loguni(1e5, 4e6) : r.loguni(1, 1e5)); int n = (int)r.loguni(1, std::max(2.0, std::min(1e5, 3e7 / N))), m = r.chance(.3) ? (int)r.loguni(1, n + 1) : n;
            c.iv = {0, N, 0, (long)(1.6e9 + r.range(0, 99999999))}; c.sv = {r.chance(.5) ? "ecdf" : "poisson", "%.17g"};
            if (r.chance(.8)) c.b = gen_lower(r, n, f);
            if (c.b.empty() || r.chance(.7)) c.B = reflect(gen_lower(r, m, f));
            c.fam = f; return c;
        }
        int n = r.chance(.1) ? r.range(0, 5) : r.chance(.12) ? (int)r.uni(max / 2, max) : (int)r.loguni(20, max / 2);
        if (c.kind == "program" && n == 0) n = 1;
        lists(r, n, fn, c.b, c.B, c.fam);
        c.iv = {fn, 0, 0}; c.sv = {COMMAND[fn], r.pick(std::vector<std::string>{"%.17g", "%.17g", "%.6g", "%.50f", " %.17e"})};
        if (c.kind == "program" && fn <= FFT2) {
            if (c.fam == "lower" && r.chance(.6)) c.B.clear();
            else if (c.fam == "upper" && r.chance(.6)) c.b.clear();
        }
        if (c.kind == "program") {
            for (V* v : {&c.b, &c.B}) for (double& x : *v) { if (x < 1e-300) x = 0; x = strtod(fmt(c.sv[1].c_str(), x).c_str(), 0); }
            fix(c.b); fix(c.B);
        }
        return c;
    },
    [](const Case& c) {
        Res r; double n = std::max(c.b.size(), c.B.size()); int fn = c.iv[0]; r.nontrivial = n >= 100;
        double lim, flim, got[3] = {0, 0, 0}; std::string who;
        bool file = c.kind == "reading", sim = file ? c.sv[0] == "ecdf" || c.sv[0] == "poisson" : c.kind == "simulation";
        if (file || sim || c.kind == "program") {
            std::string f = E.scratch + "/mem-in", mf = E.scratch + "/mem-out", data = file ? text(c) : join(c.b, c.sv[1].c_str()) + "\n" + join(c.B, c.sv[1].c_str()) + "\n";
            write_file(f, data); unlink(mf.c_str());
            double fields = 2 + std::count(data.begin(), data.end(), ',');
            if (file) { r.nontrivial = data.size() >= 10000; n = 2; }
            lim = reading(data.size(), fields) + (sim ? 100 * (n + 2) : computing(n)); flim = sim ? 1e5 : plans(n);
            std::vector<std::string> env = {"VERIF_MEM_FILE=" + mf, "LD_PRELOAD=" + E.mem_so}, argv = {E.bindir + (sim ? "/crossprob_mc" : "/crossprob"), c.sv[0], f};
            if (sim) argv.push_back(std::to_string(file ? c.iv[4] : c.iv[1]));
            ProcOut o = run_proc(argv, env, 300);
            if (o.sig) { argv.insert(argv.begin(), {"/usr/bin/prlimit", "--stack=4000000000:"}); o = run_proc(argv, env, 300); }   // only for want of stack?
            who = (sim ? "crossprob_mc " : "crossprob ") + c.sv[0] + (c.kind == "simulation" ? fmt(" with %ld simulations", c.iv[1]) : std::string()) + (file ? fmt(" on a file of %zu bytes and %.0f fields", data.size(), fields) : fmt(" on n=%.0f points", n));
            if (o.hang || o.sig || (!file && o.exit)) { r.nontrivial = false; r.labels.push_back("failed"); return r; }   // judged by other properties
            std::ifstream w(mf); if (!(w >> got[0] >> got[1] >> got[2])) { r.nontrivial = false; r.labels.push_back("no-count"); return r; }
        } else {
            lim = computing(n); flim = plans(n);
            Outcome o = sut_measured(c.kind == "library" ? 0 : c.kind == "python" ? 1 : 2).call(fn, c.b, c.B);
            who = c.kind + " " + FN_NAME[fn] + fmt(" on n=%.0f points", n);
            if (o.kind != Outcome::OK) { r.nontrivial = false; r.labels.push_back("failed"); return r; }
            got[0] = (o.heap >> 40) * 1024.0; got[1] = (o.heap >> 16 & 0xffffff) * 1024.0; got[2] = (o.heap & 0xffff) * 4096.0;
        }
        double limit[3] = {lim, flim, STACK}; static const char* WHAT[3] = {"", " of FFTW", " of stack"};
        static const bool verbose = getenv("VERIF_COST") != nullptr;
        if (verbose) fprintf(stderr, "MEM %.4f %.4f %.4f %s %s\n", got[0] / lim, got[1] / flim, got[2] / STACK, who.c_str(), c.fam.c_str());
        double load = got[0] / lim;
        r.labels.push_back(load > .5 ? "load:>1/2" : load > .25 ? "load:1/4-1/2" : load > .1 ? "load:1/10-1/4" : "load:<1/10");
        for (int i = 0; i < 3; ++i) if (got[i] > limit[i]) { r.ok = false; r.why = fmt("%s has %.4g bytes%s in use at once, more than in proportion to its input (%.4g)", who.c_str(), got[i], WHAT[i], limit[i]); break; }
        return r;
    },
    [](const Case& c) {
        if (c.kind == "simulation") { std::vector<Case> o = shrink_lists(c); for (long N : {1L, 10L, c.iv[1] / 2}) if (N >= 1 && N < c.iv[1]) { Case d = c; d.iv[1] = N; o.push_back(d); } return o; }
        if (c.kind == "reading") { std::vector<Case> o; for (long n : {c.iv[2] / 2, c.iv[2] - c.iv[2] / 10}) if (n > 0 && n < c.iv[2]) { Case d = c; d.iv[2] = n; o.push_back(d); } return o; }
        return shrink_lists(c);
    }});
