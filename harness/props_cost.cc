// C16: the work of every computation, counted (cost.c), stays within the documented complexity
#include "core.hh"
#include <unistd.h>
#include <algorithm>
#include <fstream>
static const char* COMMAND[6] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-new", "ecdf1-mns2016", "ecdf1-mns2016"};
// About four times what was measured over all families of boundaries. The linear terms are for checking, converting and reading lists.
static double bound(int fn, double n) {
    double L = std::log2(n + 2);
    switch (fn) {
    case KS2: return 1.4 * n * n * n + 3000 * (n + 2);
    case FFT2: return 8 * n * (n + 512) * L + 3000 * (n + 2);
    case NEW_b: case NEW_B: return 10 * n * n + 3000 * (n + 2);
    default: return 5 * n * n + 3000 * (n + 2); }
}
void lists(Rng& r, int n, int fn, V& b, V& B, std::string& fam) {
    if (n == 0) return;
    std::string f;
    if (fn > FFT2) { V v = gen_lower(r, n, f); fam = f; if (fn == NEW_B || fn == MNS_B) B = reflect(v); else b = v; return; }
    switch (r.range(0, 5)) {
    case 0: { fam = "lower"; b = gen_lower_pos(r, n, f); B.assign(n, 1.0); break; }
    case 1: { fam = "upper"; B = reflect(gen_lower_pos(r, n, f)); b.assign(n, 0.0); break; }
    case 2: { // the widest windows: every b before every B, all different
        fam = "widest"; double t = r.uni(.01, .5); b.resize(n); B.resize(n); for (int i = 0; i < n; ++i) { b[i] = t * (i + 1) / (n + 2.0); B[i] = 1 - t * (n - i) / (n + 2.0); } break; }
    case 3: { fam = "half"; b.assign(n, 0.0); B.assign(n, 1.0); for (int i = n / 2; i < n; ++i) b[i] = .5 * (i + 1) / (n + 1.0); for (int i = 0; i < n / 2; ++i) B[i] = .5 + .5 * (i + 1) / (n + 1.0); break; }
    default: gen_two_sided(r, n, b, B, fam); }
    fix(b); fix(B);
}
std::string join(const V& v, const char* f) { std::string o; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += fmt(f, v[i]); } return o; }
static Reg c16({"C16", "generated boundaries (one-sided, widest windows, bands, ties, impossible ones) for every function of the library and of both Python modules, every command of both programs, n log-uniform up to 20000 (O(n^2) methods) and 1000 (O(n^3)); work counted in basic blocks, copies and transforms; non-trivial: n >= 100",
    3000, 20000,
    [](Rng& r, long idx) {
        Case c; static const char* K[] = {"library", "library", "library", "library", "python", "python-regenerated", "program", "program", "program", "simulation"};
        c.kind = K[idx % 10]; int fn = idx / 10 % 6;
        double max = fn == KS2 ? 900 : fn == FFT2 ? 7000 : fn >= MNS_b ? 5000 : 18000;
        if (E.thorough()) max *= fn == KS2 ? 2 : 3;
        if (c.kind == "simulation") {
            long N = (long)r.loguni(1, 30000); int n = (int)r.loguni(1, std::max(2.0, std::min(20000.0, 3e7 / N))), m = r.chance(.3) ? (int)r.loguni(1, n + 1) : n; std::string f;
            c.iv = {0, N, 0, (long)(1.6e9 + r.range(0, 99999999))}; c.sv = {r.chance(.5) ? "ecdf" : "poisson", "%.17g"};
            if (r.chance(.8)) c.b = gen_lower(r, n, f);
            if (c.b.empty() || r.chance(.7)) c.B = reflect(gen_lower(r, m, f));
            c.fam = f; return c;
        }
        int n = r.chance(.1) ? r.range(0, 5) : r.chance(.12) ? (int)r.uni(max / 2, max) : (int)r.loguni(5, max / 2);
        if (c.kind == "program" && n == 0) n = 1;
        lists(r, n, fn, c.b, c.B, c.fam);
        c.iv = {fn, 0, 0}; c.sv = {COMMAND[fn], r.pick(std::vector<std::string>{"%.17g", "%.17g", "%.6g", "%.50f", " %.17e"})};
        if (c.kind == "program" && fn <= FFT2) { // the program also takes one list
            if (c.fam == "lower" && r.chance(.6)) c.B.clear();
            else if (c.fam == "upper" && r.chance(.6)) c.b.clear();
        }
        if (c.kind == "program") { // what is printed must still be valid lists
            for (V* v : {&c.b, &c.B}) for (double& x : *v) { if (x < 1e-300) x = 0; x = strtod(fmt(c.sv[1].c_str(), x).c_str(), 0); }
            fix(c.b); fix(c.B);
        }
        return c;
    },
    [](const Case& c) {
        Res r; double n = std::max(c.b.size(), c.B.size()); int fn = c.iv[0]; r.nontrivial = n >= 100;
        double lim; std::string who; uint64_t work = 0; bool over = false;
        if (c.kind == "program" || c.kind == "simulation") {
            std::string f = E.scratch + "/cost-in", wf = E.scratch + "/cost-work", data = join(c.b, c.sv[1].c_str()) + "\n" + join(c.B, c.sv[1].c_str()) + "\n";
            write_file(f, data); unlink(wf.c_str());
            bool sim = c.kind == "simulation";
            lim = 40.0 * data.size() + (sim ? std::max(16.0, 8 * std::log2(n + 2)) * c.iv[1] * (n + 2) + 2000 * (n + 2) + 20000 : bound(fn, n));
            std::vector<std::string> env = {"VERIF_WORK_FILE=" + wf, fmt("VERIF_WORK_LIMIT=%.0f", lim)}, argv = {E.bindir + (sim ? "/crossprob_mc" : "/crossprob"), c.sv[0], f};
            if (sim) argv.push_back(std::to_string(c.iv[1]));
            ProcOut o = run_proc(argv, env, 300);
            who = (sim ? "crossprob_mc " : "crossprob ") + c.sv[0] + (sim ? fmt(" with %ld simulations", c.iv[1]) : std::string());
            if (o.exit == 99) over = true;
            else if (o.hang) { r = Res::fail(who + " does not end"); r.hang = true; return r; }
            else if (o.exit || o.sig) { r.nontrivial = false; r.labels.push_back("failed"); return r; }   // judged by other properties
            std::ifstream w(wf); if (!(w >> work)) { r.nontrivial = false; r.labels.push_back("no-count"); return r; }
        } else {
            lim = bound(fn, n);
            Sut& s = c.kind == "library" ? sut_native() : c.kind == "python" ? sut_py() : sut_py2();
            Outcome o = s.call(fn, c.b, c.B, (uint64_t)(lim / (1 << 20)) + 1);
            who = c.kind + " " + FN_NAME[fn];
            over = o.kind == Outcome::OVER; work = o.heap;
            if (o.kind == Outcome::HANG) { r = Res::fail(who + " does not end"); r.hang = true; return r; }
            if (!over && o.kind != Outcome::OK) { r.nontrivial = false; r.labels.push_back("failed"); return r; }
        }
        static const bool verbose = getenv("VERIF_COST") != nullptr;
        if (verbose) fprintf(stderr, "COST %.4f n=%.0f %s %s\n", work / lim, n, who.c_str(), c.fam.c_str());
        r.labels.push_back(work > lim / 2 ? "load:>1/2" : work > lim / 4 ? "load:1/4-1/2" : work > lim / 10 ? "load:1/10-1/4" : "load:<1/10");
        if (over || work > lim) { r.ok = false; r.why = fmt("%s on n=%.0f points: work %s exceeds what its documented complexity allows (%.4g)", who.c_str(), n, over ? "counted until stopped" : fmt("%.4g", (double)work).c_str(), lim); }
        return r;
    },
    [](const Case& c) {   // the excess grows with n: smaller sizes, and simpler lists of the same size
        if (c.kind == "simulation") { std::vector<Case> o = shrink_lists(c); for (long N : {1L, 10L, c.iv[1] / 2}) if (N >= 1 && N < c.iv[1]) { Case d = c; d.iv[1] = N; o.push_back(d); } return o; }
        return shrink_lists(c);
    }});
