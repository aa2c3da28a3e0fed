// C18: calls in several threads; C19: other compilers and options
#include "core.hh"
#include <algorithm>
#include <memory>
#include <sstream>
std::string op_text(Rng& r, const std::vector<std::string>& pool, int max) {
    int fn = r.range(0, 5), var = 0; unsigned long long seed = r.next() % 5000;
    int n = (int)r.loguni(1, fn == KS2 || fn >= MNS_b ? std::min(max, 150) : max);
    if (!pool.empty() && r.chance(.5)) { int f0, n0, i0, v0; sscanf(r.pick(pool).c_str(), "%d %llu %d %d %d", &f0, &seed, &n0, &i0, &v0); if (fn == NEW_b || fn == NEW_B || fn == FFT2 || n0 <= 150) n = n0; if (r.chance(.5)) var = r.range(1, 29); }
    return fmt("%d %llu %d %d %d", fn, seed, n, r.chance(.1) ? (int)r.range(1, 2) : 0, var);
}

// ------------------------------------------------------------------ C18: threads
// sv: "<thread> <call>"; iv: [repetitions, ThreadSanitizer]
static bool shaky = false;   // a case has failed: a race need not show every time, so look harder
static Res run_threads(const Case& c) {
    Res r; std::string in = fmt("%ld\n", c.iv[0]); std::vector<std::string> calls; std::set<std::string> threads;
    for (auto& s : c.sv) {
        size_t sp = s.find(' '); threads.insert(s.substr(0, sp)); calls.push_back(s.substr(sp + 1)); Op o = mkop(calls.back());
        in += s.substr(0, sp) + fmt(" %d %zu %zu", o.fn, o.b.size(), o.B.size());
        for (const V* v : {&o.b, &o.B}) for (double x : *v) in += " " + hexd(x);
        in += "\n";
    }
    std::string path = E.scratch + "/threads-in"; write_file(path, in);
    ProcOut o = run_proc({c.iv[1] ? E.threads_tsan : E.threads, path}, {"TSAN_OPTIONS=halt_on_error=1:exitcode=66:second_deadlock_stack=1"}, 120);
    r.labels.push_back(c.iv[1] ? "ThreadSanitizer" : "release"); r.labels.push_back(fmt("threads:%zu", threads.size())); r.nontrivial = threads.size() > 1;
    auto fail = [&](const std::string& w) { Res q = Res::fail(w); q.hang = o.hang; return q; };
    size_t race = o.err.find("WARNING: ThreadSanitizer: "); std::string who = fmt("%zu calls in %zu threads at once", c.sv.size(), threads.size());
    if (race != std::string::npos) { std::string t; std::istringstream l(o.err.substr(race)); std::string x; for (int i = 0; i < 24 && std::getline(l, x); ++i) if (i == 0 || x.find(" of size ") != std::string::npos || x.find("    #") != std::string::npos) t += x.substr(0, 120) + " / "; return fail(who + ": " + t); }
    if (o.hang) return fail(who + " do not end");
    if (o.sig || o.exit) return fail(who + ": " + o.show());
    std::istringstream lines(o.out); std::string line;
    for (size_t i = 0; i < calls.size(); ++i) {
        const Outcome& b = alone(calls[i]); Op op = mkop(calls[i]);
        for (long k = 0;; ++k) {
            if (!std::getline(lines, line)) return fail(who + ": a result is missing");
            if (line[0] == '.') { if (k < 1 || atol(line.c_str() + 2) != c.iv[0]) return fail(who + ": not all results are there"); break; }
            double v = strtod(line.c_str() + 2, 0);
            bool same = line[0] == '0' ? b.kind == Outcome::OK && (std::fabs(v - b.value) <= 1e-10 || (std::isnan(v) && std::isnan(b.value))) : b.kind == (line[0] == '1' ? Outcome::RUNTIME_ERROR : Outcome::OTHER_ERROR) && line.substr(2) == b.msg;
            if (!same) return fail(fmt("%s, %s with n=%d gives %s in one of several threads, but %s alone", who.c_str(), FN_NAME[op.fn], op.n, line[0] == '0' ? fmt("%.17g", v).c_str() : line.c_str() + 2, b.show().c_str()));
        }
    }
    return r;
}
static Reg c18({"C18", "2 to 8, sometimes up to 64, threads started together, each with its own generated sequence of library calls (valid and invalid, sizes to 1500, the same and different inputs), repeated; every result compared with the same call alone in a fresh process; half of the cases in a ThreadSanitizer build; non-trivial: at least two threads",
    3000, 40000,
    [](Rng& r, long idx) {
        Case c; c.kind = idx % 2 ? "release" : "tsan"; int threads = r.range(2, 8), calls = r.range(1, 4), max = r.chance(.25) ? 1500 : r.chance(.5) ? 200 : 12; std::vector<std::string> pool;
        if (r.chance(.1)) { threads = (int)r.loguni(9, 64); calls = r.range(1, 2); max = r.chance(.5) ? 100 : 10; }
        bool one = r.chance(.3); std::string same = op_text(r, {}, max);
        for (int t = 0; t < threads; ++t) for (int i = 0; i < calls; ++i) { std::string s = one ? same : op_text(r, pool, max); pool.push_back(s); c.sv.push_back(std::to_string(t) + " " + s); }
        long total = 0; for (auto& s : pool) { int fn, n; unsigned long long x; sscanf(s.c_str(), "%d %llu %d", &fn, &x, &n); total += 1000L + (long)n * n * (fn == KS2 ? n / 8 : 8); }
        c.iv = {std::max(1L, std::min(r.chance(.2) ? 2000L : 40L, 40000000L / total / (c.kind == "tsan" ? 20 : 1))), c.kind == "tsan"};
        return c;
    },
    [](const Case& c) {
        if (c.iv[1] && E.threads_tsan.empty()) { Res r; r.nontrivial = false; r.labels.push_back("no ThreadSanitizer here"); return r; }
        for (int i = 0;; ++i) { Res r = run_threads(c); if (!r.ok) shaky = true; if (!r.ok || !shaky || i >= 25) return r; }
    },
    [](const Case& c) { std::vector<Case> o; std::set<std::string> ts; auto th = [](const std::string& s) { return s.substr(0, s.find(' ')); };
        for (auto& s : c.sv) ts.insert(th(s));
        if (ts.size() > 2) for (auto& t : ts) { Case d = c; d.sv.clear(); for (auto& s : c.sv) if (th(s) != t) d.sv.push_back(s); o.push_back(d); }
        for (size_t i = 0; i < c.sv.size(); ++i) if (std::count_if(c.sv.begin(), c.sv.end(), [&](const std::string& s) { return th(s) == th(c.sv[i]); }) > 1) { Case d = c; d.sv.erase(d.sv.begin() + i); o.push_back(d); }
        for (size_t i = 0; i < c.sv.size(); ++i) { int t, fn, n, inv, var; unsigned long long seed; sscanf(c.sv[i].c_str(), "%d %d %llu %d %d %d", &t, &fn, &seed, &n, &inv, &var); for (int m : {2, n / 2}) if (m > 0 && m < n) { Case d = c; d.sv[i] = fmt("%d %d %llu %d %d %d", t, fn, seed, m, inv, var); o.push_back(d); } }
        return o; }});

// ------------------------------------------------------------------ C19: builds
static const char* COMMAND[6] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-new", "ecdf1-mns2016", "ecdf1-mns2016"};
static Sut& sut_of(const std::string& dir) { static std::map<std::string, std::unique_ptr<Sut>> m; auto& s = m[dir]; if (!s) s.reset(new Sut(dir + "/sut")); return *s; }
static std::string join(const V& v) { std::string o; for (double x : v) o += fmt(o.empty() ? "%.17g" : ", %.17g", std::fabs(x) < 2.3e-308 ? 0 : x); return o; }
static Reg c19({"C19", "generated library call (valid or not), boundary file or Monte-Carlo run, given to builds by other compilers and options (clang++, without optimisation, without assertions and fast-math on the basic instruction set, link-time optimisation with hardened library, automatic variables filled with a pattern); results compared with those of the normal build, Monte-Carlo estimates with the exact probability; non-trivial: a value in (1e-6, 1-1e-6)",
    60000, 600000,
    [](Rng& r, long idx) {
        Case c; long k = idx % 40; if (E.builds.empty()) return c;
        if (k == 39) { c = mc_gen(r, 0, idx / 40 % 2); c.sv = {E.builds[idx / 80 % E.builds.size()].first, idx / 40 % 2 ? "poisson" : "ecdf"}; c.kind = "simulation"; c.iv[0] = std::max(100L, c.iv[0] / 20); return c; }
        long fn = r.range(0, 5); int n = (int)r.loguni(1, fn == KS2 || fn >= MNS_b ? 120 : r.chance(.05) ? 1500 : 300); std::string f;
        if (r.chance(.1)) n = r.range(0, 3);
        c.kind = k % 10 == 9 ? "program" : "library"; if (c.kind == "program" && n == 0) n = 1;
        Op o = mkop(fmt("%ld %lu %d %d 0", fn, (unsigned long)(r.next() >> 8), n, r.chance(.15) ? (int)r.range(1, 2) : 0));
        c.b = o.b; c.B = o.B; c.iv = {fn};
        return c;
    },
    [](const Case& c) {
        Res r; r.nontrivial = false; if (E.builds.empty()) return r;
        if (c.kind == "simulation") { for (auto& b : E.builds) if (b.first == c.sv[0]) { std::string keep = E.bindir; E.bindir = b.second; Case d = c; d.kind = "single"; r = mc_check(d, c.sv[1]); E.bindir = keep; if (!r.ok) r.why = "built by " + b.first + ": " + r.why; r.labels.push_back("simulation:" + b.first); } return r; }
        int fn = c.iv[0]; bool lib = c.kind == "library"; Outcome base; ProcOut pbase; double x = 0;
        std::vector<std::string> av;
        if (lib) { base = sut_native().call(fn, c.b, c.B); x = base.value; if (base.kind == Outcome::CRASH || base.kind == Outcome::HANG) { r.labels.push_back("normal build fails"); return r; } }
        else { std::string path = E.scratch + "/in"; write_file(path, join(c.b) + "\n" + join(c.B) + "\n"); av = {E.bindir + "/crossprob", COMMAND[fn], path}; pbase = run_proc(av, {}, 60); x = strtod(pbase.out.c_str(), 0); if (pbase.sig || pbase.hang) { r.labels.push_back("normal build fails"); return r; } }
        r.nontrivial = x > 1e-6 && x < 1 - 1e-6; r.labels.push_back((lib ? base.kind == Outcome::OK : pbase.exit == 0) ? "value" : "error");
        for (auto& b : E.builds) {
            if (lib) {
                Outcome o = sut_of(b.second).call(fn, c.b, c.B);
                double tol = fn == KS2 ? std::max(1e-9 * std::fabs(x), 2e-280) : 1e-10;
                bool same = o.kind == base.kind && (o.kind != Outcome::OK || std::fabs(o.value - x) <= tol || (std::isnan(o.value) && std::isnan(x)));
                if (!same && fn == KS2 && o.finite() && base.kind == Outcome::OK) same = ref_between(c.b.size(), c.b, c.B, o.value, 1e-9L) && ref_between(c.b.size(), c.b, c.B, x, 1e-9L);
                if (!same) { r.ok = false; r.hang = o.kind == Outcome::HANG; r.why = fmt("%s built by %s gives %s, the normal build %s", FN_NAME[fn], b.first.c_str(), o.show().c_str(), base.show().c_str()); return r; }
            } else {
                av[0] = b.second + "/crossprob"; ProcOut o = run_proc(av, {}, 60); double y = strtod(o.out.c_str(), 0);
                bool same = !o.sig && !o.hang && !o.exit == !pbase.exit && (o.exit || std::fabs(x - y) <= 1.1e-5 * std::fabs(x) + 1e-9);
                if (!same) { r.ok = false; r.hang = o.hang; r.why = fmt("crossprob %s built by %s: %s, the normal build: %s", av[1].c_str(), b.first.c_str(), o.show().c_str(), pbase.show().c_str()); return r; }
            }
        }
        return r;
    }, [](const Case& c) { return c.kind == "simulation" ? std::vector<Case>() : shrink_lists(c); }});
