// C22: calls and runs have no effect but their result
#include "core.hh"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
static const char* COMMAND[6] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-new", "ecdf1-mns2016", "ecdf1-mns2016"};
static std::string slurp(const std::string& path) { std::ifstream f(path); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string join(const V& v) { std::string o; for (double x : v) o += fmt(o.empty() ? "%.17g" : ", %.17g", std::fabs(x) < 2.3e-308 ? 0 : x); return o; }
static std::string quote(const std::string& s) { return "'" + s + "'"; }
static void clear(const std::string& dir) {   // only below this worker's scratch directory
    DIR* d = opendir(dir.c_str()); if (!d) return;
    std::vector<std::string> names; while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    for (auto& n : names) { std::string p = dir + "/" + n; struct stat s; if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) { clear(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
}
static std::string tree(const std::string& dir, const std::string& below = "") {
    std::vector<std::string> l; DIR* d = opendir((dir + below).c_str()); if (!d) return "";
    std::vector<std::string> names; while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d); std::sort(names.begin(), names.end()); std::string o;
    for (auto& n : names) { std::string p = below + "/" + n; struct stat s; if (lstat((dir + p).c_str(), &s)) continue; bool sub = S_ISDIR(s.st_mode); o += fmt("%s mode %o size %ld changed %ld.%09ld\n", p.c_str(), (int)s.st_mode, sub ? 0L : (long)s.st_size, (long)s.st_mtim.tv_sec, (long)s.st_mtim.tv_nsec); if (sub) o += tree(dir, p); }
    return o;
}
static std::string folder() { std::string d = E.scratch + "/where"; clear(d); mkdir(d.c_str(), 0700); mkdir((d + "/home").c_str(), 0700); mkdir((d + "/tmp").c_str(), 0700); return d; }
static std::vector<std::string> surroundings(const std::string& d) { return {"HOME=" + d + "/home", "TMPDIR=" + d + "/tmp", "XDG_CACHE_HOME=" + d + "/home", "LOCPATH=" + E.clock_so.substr(0, E.clock_so.rfind('/') + 1) + "locale", "VERIF_RECORD=" + E.scratch + "/record"}; }
// what the recorder has seen, without temporary files
static std::string recorded(const std::string& dir) {
    std::istringstream l(slurp(E.scratch + "/record")); std::string x, o;
    while (std::getline(l, x)) {
        size_t p = x.find(' '); std::string verb = x.substr(0, p), path = x.substr(p + 1); struct stat s;
        if (verb != "starts") { if (path[0] != '/') path = dir + "/" + path; if (lstat(path.c_str(), &s) && (verb == "writes" || verb == "creates" || verb == "changes")) continue; if (!lstat(path.c_str(), &s) && !S_ISREG(s.st_mode) && !S_ISDIR(s.st_mode)) continue; if (verb == "removes" || verb == "renames") { if (o.find(path) == std::string::npos && lstat(path.c_str(), &s) == 0) continue; if (path.compare(0, dir.size(), dir) == 0) continue; } }
        o += x + "; ";
    }
    return o;
}
static Res calls(const Case& c) {
    Res r; std::string d = folder(), in; bool ftz = c.iv[0] >> 13 & 1, nearest = (c.iv[0] >> 14 & 3) == 0, py = c.kind != "library";
    if (py) ftz = false, nearest = true;
    for (auto& s : c.sv) { Op o = mkop(s); in += fmt("%d %zu %zu", o.fn, o.b.size(), o.B.size()); for (const V* v : {&o.b, &o.B}) for (double x : *v) in += " " + hexd(x); in += "\n"; }
    std::string path = E.scratch + "/calls", out = E.scratch + "/e1", err = E.scratch + "/e2", rep = E.scratch + "/e9";
    write_file(path, in); write_file(d + "/home/data", "unchanged\n"); write_file(d + "/wisdom", "\n"); unlink((E.scratch + "/record").c_str());
    std::string cmd = "export LD_PRELOAD=\"$RECORDER\"; exec "; if (py) cmd += "/usr/bin/python3 -E -s -B " + std::string(c.iv[0] >> 2 & 1 ? "-OO " : "") + (c.iv[0] >> 3 & 1 ? "-X dev " : "") + (c.iv[0] >> 12 & 1 ? "-W error " : "") + quote(E.pyeffects) + " " + quote(c.kind == "python" ? E.pylib : E.pylib2) + " " + quote(E.state_so); else cmd += quote(E.effects);
    cmd += " " + quote(path) + fmt(" %ld ", c.iv[0]) + quote(d) + " >" + quote(out) + " 2>" + quote(err) + " 9>" + quote(rep);
    auto env = surroundings(d); env.push_back("RECORDER=" + E.record_so);
    ProcOut p = run_proc({"/bin/sh", "-c", cmd}, env, 120);
    std::string who = fmt("%zu call%s (%s, state of the caller %lx)", c.sv.size(), c.sv.size() > 1 ? "s" : "", c.kind.c_str(), c.iv[0]);
    auto fail = [&](const std::string& w) { Res q = Res::fail(who + ": " + w); q.hang = p.hang; return q; };
    if (p.hang) return fail("no end");
    std::istringstream l(slurp(rep)); std::string x; size_t k = 0; bool end = false;
    while (std::getline(l, x)) {
        if (x == "end") { end = true; continue; }
        std::string which = k && k <= c.sv.size() ? " (after " + std::string(FN_NAME[mkop(c.sv[k - 1]).fn]) + fmt(", n=%d)", mkop(c.sv[k - 1]).n) : "";
        if (x.compare(0, 7, "change ") == 0) return fail("not only the result, " + x + which);
        int kind; char v[200] = ""; if (sscanf(x.c_str(), "result %d %199s", &kind, v) < 2 || k >= c.sv.size()) return fail("unexpected report " + x);
        const std::string& s = c.sv[k++]; const Outcome& b = alone(s); Op o = mkop(s); double y = strtod(v, 0);
        r.labels.push_back(kind ? "call:error" : "call:value");
        bool tiny = false; for (const V* w : {&o.b, &o.B}) for (double z : *w) if (z != 0 && std::fabs(z) < 1e-300) tiny = true;
        if (!nearest || (ftz && tiny)) continue;
        if (py && b.kind != Outcome::OK && kind != 0) continue;
        bool same = kind == 0 ? b.kind == Outcome::OK && (std::fabs(y - b.value) <= 1e-9 || (std::isnan(y) && std::isnan(b.value))) : b.kind == (kind == 1 ? Outcome::RUNTIME_ERROR : Outcome::OTHER_ERROR);
        if (!same) return fail(fmt("%s with n=%d gives %s in this state of the caller, but %s alone", FN_NAME[o.fn], o.n, kind == 0 ? fmt("%.17g", y).c_str() : "an error", b.show().c_str()));
    }
    if (p.sig || p.exit || !end || k != c.sv.size()) return fail("ends early, " + p.show() + " " + slurp(err).substr(0, 300));
    if (!slurp(out).empty()) return fail("writes to standard output: " + slurp(out).substr(0, 200));
    if (!slurp(err).empty()) return fail("writes to standard error: " + slurp(err).substr(0, 200));
    std::string w = recorded(d); if (!w.empty()) return fail("not only the result, also: " + w);
    if (slurp(d + "/home/data") != "unchanged\n") return fail("changes a file");
    return r;
}
// iv: function, simulations (0: crossprob), final newline, settings; sv: mc command
static Res program(const Case& c) {
    Res r; std::string d = folder(), file = d + "/in put.txt", data = join(c.b) + "\n" + join(c.B) + (c.iv[2] ? "\n" : ""); int fn = c.iv[0];
    write_file(file, data); unlink((E.scratch + "/record").c_str()); if (c.iv[3] & 1) chmod(file.c_str(), 0440);
    std::vector<std::string> av = {"/bin/sh", "-c", "cd \"$0\" && export LD_PRELOAD=\"$RECORDER\" && exec \"$@\"", d, E.bindir + (c.iv[1] ? "/crossprob_mc" : "/crossprob"), c.iv[1] ? c.sv[0] : COMMAND[fn], c.iv[3] & 2 ? file : "in put.txt"};
    if (c.iv[1]) av.push_back(std::to_string(c.iv[1]));
    std::string before = tree(d); auto env = surroundings(d); env.push_back("RECORDER=" + E.record_so); if (c.iv[3] & 4) { env.push_back("LC_ALL=de_DE.UTF-8"); env.push_back("LANG=de_DE.UTF-8"); }
    ProcOut p = run_proc(av, env, 120); std::string who = std::string(c.iv[1] ? "crossprob_mc " : "crossprob ") + av[5];
    r.nontrivial = p.exit == 0; r.labels.push_back(p.exit ? "error exit" : "success");
    auto fail = [&](const std::string& w) { Res q = Res::fail(who + " " + w); q.hang = p.hang; return q; };
    if (p.hang) return fail("does not end");
    std::string after = tree(d), w = recorded(d);
    if (slurp(file) != data) return fail("changes the boundary file");
    if (before != after) return fail("changes the files in its working, home or temporary directory from\n" + before + "to\n" + after);
    if (!w.empty()) return fail("does more than print its result: " + w);
    if (p.exit == 0 && !p.err.empty()) return fail("writes to standard error: " + p.err.substr(0, 200));
    return r;
}
static Reg c22({"C22", "generated library calls (C++ and Python, valid and invalid, sizes to 1500) in a process whose state (locales, stream formats, signal handlers and mask, umask, environment, limits, open files, FFTW plans and wisdom, floating-point modes, interpreter settings) is drawn; the state before and after every call compared item by item, and the result with the same call alone; runs of the programs with their directories compared and file operations recorded; non-trivial: a call, or a successful run",
    12000, 150000,
    [](Rng& r, long idx) {
        Case c; long k = idx % 20; c.kind = k < 13 ? "library" : k == 13 ? "python" : k == 14 ? "python-regenerated" : "program"; int max = r.chance(.1) ? 1500 : r.chance(.5) ? 200 : 12;
        if (c.kind != "program") {
            c.iv = {0}; for (int bit = 1; bit < 14; ++bit) if (r.chance(bit == 13 ? .15 : .3)) c.iv[0] |= 1L << bit; if (r.chance(.15)) c.iv[0] |= (long)r.range(1, 3) << 14; if (r.chance(.15)) c.iv[0] = 0;
            std::vector<std::string> pool; int calls = r.range(1, r.chance(.1) ? 40 : 6); for (int i = 0; i < calls; ++i) { pool.push_back(op_text(r, pool, max)); } c.sv = pool; return c;
        }
        long fn = r.range(0, 5); int n = (int)r.loguni(1, fn == KS2 || fn >= MNS_b ? 120 : 600);
        Op o = mkop(fmt("%ld %lu %d %d 0", fn, (unsigned long)(r.next() >> 8), n, r.chance(.15) ? (int)r.range(1, 2) : 0)); c.b = o.b; c.B = o.B;
        c.iv = {fn, r.chance(.4) ? (long)r.loguni(1, 3000) : 0, r.chance(.7), r.range(0, 7)}; c.sv = {r.chance(.5) ? "ecdf" : "poisson"};
        return c;
    },
    [](const Case& c) { return c.kind == "program" ? program(c) : calls(c); },
    [](const Case& c) {
        if (c.kind == "program") return shrink_lists(c);
        std::vector<Case> o;
        for (size_t i = 0; i < c.sv.size() && c.sv.size() > 1; ++i) { Case d = c; d.sv.erase(d.sv.begin() + i); o.push_back(d); }
        for (int bit = 1; bit < 16; ++bit) if (c.iv[0] >> bit & 1) { Case d = c; d.iv[0] &= ~(1L << bit); o.push_back(d); }
        for (size_t i = 0; i < c.sv.size(); ++i) { int fn, n, inv, var; unsigned long long seed; sscanf(c.sv[i].c_str(), "%d %llu %d %d %d", &fn, &seed, &n, &inv, &var); for (int m : {1, 2, n / 2}) if (m > 0 && m < n) { Case d = c; d.sv[i] = fmt("%d %llu %d %d %d", fn, seed, m, inv, var); o.push_back(d); } }
        return o; }});
