#include "core.hh"
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
#include <cstdarg>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <boost/math/special_functions/beta.hpp>
#include <memory>
extern char** environ;
Env E;
std::map<std::string, Prop> PROPS;
const char* FN_NAME[6] = {"ecdf2(no fft)", "ecdf2(fft)", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B"};

std::string fmt(const char* f, ...) { char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
std::string hexd(double x) { char s[64]; if (std::isnan(x)) return "nan"; snprintf(s, sizeof s, "%a", x); return s; }
uint64_t hash64(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) o += fmt("\\u%04x", c); else o += c; }
    return o + "\"";
}
static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c <= 32 || c >= 127 || c == '%') o += fmt("%%%02x", c); else o += c; } return o; }
static std::string unesc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%') { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; } return o; }

std::string Case::str() const {
    std::string o = "kind " + esc(kind) + "\nb";
    for (double x : b) o += " " + hexd(x);
    o += "\nB"; for (double x : B) o += " " + hexd(x);
    o += "\niv"; for (long x : iv) o += " " + std::to_string(x);
    o += "\ndv"; for (double x : dv) o += " " + hexd(x);
    o += "\n"; for (auto& x : sv) o += "s :" + esc(x) + "\n";
    return o;
}
Case Case::parse(const std::string& text) {
    Case c; std::istringstream f(text); std::string line;
    while (std::getline(f, line)) {
        std::istringstream l(line); std::string k, t; l >> k;
        if (k == "kind") { l >> t; c.kind = unesc(t); }
        else if (k == "b") while (l >> t) c.b.push_back(strtod(t.c_str(), 0));
        else if (k == "B") while (l >> t) c.B.push_back(strtod(t.c_str(), 0));
        else if (k == "iv") while (l >> t) c.iv.push_back(atol(t.c_str()));
        else if (k == "dv") while (l >> t) c.dv.push_back(strtod(t.c_str(), 0));
        else if (k == "s") { l >> t; c.sv.push_back(unesc(t.substr(1))); }
    }
    return c;
}
std::string Case::brief() const {
    auto sh = [](const V& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i == 6 && v.size() > 8) { o += fmt("...(%zu entries)... %.17g", v.size(), v.back()); break; } o += fmt(i ? ", %.17g" : "%.17g", v[i]); } return o + "]"; };
    std::string o = kind + " fam=" + fam + " b=" + sh(b) + " B=" + sh(B);
    if (!iv.empty()) { o += " iv="; for (size_t i = 0; i < iv.size() && i < 12; ++i) o += std::to_string(iv[i]) + " "; }
    if (!dv.empty()) o += " dv=" + sh(dv);
    for (size_t i = 0; i < sv.size() && i < 4; ++i) o += " s=" + esc(sv[i].substr(0, 120));
    return o;
}
std::string Outcome::show() const {
    switch (kind) {
    case OK: return fmt("value %.17g", value);
    case RUNTIME_ERROR: return "runtime_error '" + msg + "'";
    case OTHER_ERROR: return "other error '" + msg + "'";
    case OVER: return "more work than allowed";
    case CRASH: return "CRASH: " + msg;
    default: return "NO ANSWER within the time limit";
    }
}

// ---------------------------------------------------------------- processes
static std::vector<char*> mkenv(const std::vector<std::string>& extra, std::vector<std::string>& store) {
    for (char** e = environ; *e; ++e) {
        std::string s = *e, k = s.substr(0, s.find('=') + 1);
        bool over = false;
        for (auto& x : extra) if (x.compare(0, k.size(), k) == 0) over = true;
        if (!over) store.push_back(s);
    }
    for (auto& x : extra) if (x.back() != '=' ) store.push_back(x);
    std::vector<char*> v; for (auto& s : store) v.push_back(&s[0]); v.push_back(nullptr); return v;
}
static const std::vector<std::string>& san_env() {
    static const bool leaks = getenv("VERIF_LEAKS") && getenv("VERIF_LEAKS")[0] == '1';
    static std::vector<std::string> v = {std::string("ASAN_OPTIONS=abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=0:detect_leaks=") + (leaks ? "1" : "0"), "UBSAN_OPTIONS=abort_on_error=1:halt_on_error=1:print_stacktrace=0", "LC_ALL=C"};
    return v;
}
static std::string tail(const std::string& path) {
    std::ifstream f(path); std::stringstream s; s << f.rdbuf(); std::string t = s.str();
    size_t p = t.find("ERROR: "); if (p == std::string::npos) p = t.find("runtime error:");
    if (p != std::string::npos) { if (p > 80) p -= 80; return t.substr(p, 500); }
    return t.size() > 400 ? t.substr(t.size() - 400) : t;
}
void Sut::start() {
    int a[2], c[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(c, O_CLOEXEC)) { perror("pipe"); exit(2); }
    static int serial = 0;
    errfile = E.scratch + "/sut-err." + std::to_string(serial++);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, a[0], 0); posix_spawn_file_actions_adddup2(&fa, c[1], 1);
    posix_spawn_file_actions_addopen(&fa, 2, errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    std::vector<std::string> args; std::istringstream ss(cmd); std::string t; while (ss >> t) args.push_back(t);
    std::vector<char*> av; for (auto& s : args) av.push_back(&s[0]); av.push_back(nullptr);
    std::vector<std::string> ex = san_env(); ex.insert(ex.end(), env.begin(), env.end());
    std::vector<std::string> store; auto ev = mkenv(ex, store);
    if (posix_spawn(&pid, av[0], &fa, nullptr, av.data(), ev.data())) { fprintf(stderr, "cannot start %s\n", cmd.c_str()); exit(2); }
    posix_spawn_file_actions_destroy(&fa);
    close(a[0]); close(c[1]); to = a[1]; from = c[0];
}
std::string Sut::reap() {
    int st = 0; close(to); close(from); to = from = -1;
    waitpid(pid, &st, 0); pid = -1;
    std::string d;
    if (WIFSIGNALED(st)) d = fmt("killed by signal %d", WTERMSIG(st));
    else if (WEXITSTATUS(st)) d = fmt("exit status %d", WEXITSTATUS(st));
    if (!d.empty()) d += "; stderr: " + tail(errfile);
    unlink(errfile.c_str());
    return d;
}
std::string Sut::stop() { if (pid <= 0) return ""; return reap(); }
static bool xread(int fd, void* p, size_t n, double deadline) {
    char* c = (char*)p;
    while (n) {
        double left = deadline - now(); if (left <= 0) { errno = ETIMEDOUT; return false; }
        pollfd pf = {fd, POLLIN, 0}; int k = poll(&pf, 1, (int)(left * 1000) + 1);
        if (k == 0) { errno = ETIMEDOUT; return false; }
        if (k < 0) { if (errno == EINTR) continue; return false; }
        ssize_t r = read(fd, c, n); if (r <= 0) { errno = EPIPE; return false; }
        c += r; n -= r;
    }
    return true;
}
Outcome Sut::call(int fn, const V& b, const V& B, uint64_t extra) {
    if (pid <= 0) start();
    ++calls;
    std::string q; uint32_t h[3] = {(uint32_t)fn | (uint32_t)extra << 8, (uint32_t)b.size(), (uint32_t)B.size()};
    q.append((char*)h, sizeof h); q.append((const char*)b.data(), 8 * b.size()); q.append((const char*)B.data(), 8 * B.size());
    Outcome o; double dl = now() + timeout;
    const char* p = q.data(); size_t n = q.size(); bool bad = false;
    while (n) { ssize_t k = write(to, p, n); if (k <= 0) { bad = true; break; } p += k; n -= k; }
    int32_t st; uint32_t len; errno = 0;
    if (!bad) bad = !(xread(from, &st, 4, dl) && xread(from, &o.value, 8, dl) && xread(from, &o.heap, 8, dl) && xread(from, &len, 4, dl));
    if (bad) {
        if (errno == ETIMEDOUT) { o.kind = Outcome::HANG; kill(pid, SIGKILL); reap(); return o; }
        o.kind = Outcome::CRASH; o.msg = reap(); if (o.msg.compare(0, 14, "exit status 99") == 0) { o.kind = Outcome::OVER; return o; } if (o.msg.empty()) o.msg = "server ended"; return o;
    }
    o.msg.resize(len); if (len) xread(from, &o.msg[0], len, dl);
    o.hit = st & 16; st &= 15;
    if (st == 8) { reap(); o.kind = Outcome::OVER; return o; }
    o.kind = st == 0 ? Outcome::OK : st == 1 ? Outcome::RUNTIME_ERROR : Outcome::OTHER_ERROR;
    return o;
}
ProcOut run_proc(const std::vector<std::string>& argv, const std::vector<std::string>& extra, double timeout) {
    ProcOut r; int c[2], e[2];
    if (pipe2(c, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) { perror("pipe"); exit(2); }
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_adddup2(&fa, c[1], 1); posix_spawn_file_actions_adddup2(&fa, e[1], 2);
    std::vector<std::string> args = argv; std::vector<char*> av; for (auto& s : args) av.push_back(&s[0]); av.push_back(nullptr);
    std::vector<std::string> ex = san_env(); ex.insert(ex.end(), extra.begin(), extra.end());
    std::vector<std::string> store; auto ev = mkenv(ex, store);
    int pid; double t0 = now();
    if (posix_spawn(&pid, av[0], &fa, nullptr, av.data(), ev.data())) { fprintf(stderr, "cannot start %s\n", argv[0].c_str()); exit(2); }
    posix_spawn_file_actions_destroy(&fa); close(c[1]); close(e[1]);
    int fds[2] = {c[0], e[0]}; int open_ = 2; char buf[65536];
    while (open_) {
        double left = t0 + timeout - now();
        if (left <= 0) { r.hang = true; kill(pid, SIGKILL); break; }
        pollfd pf[2] = {{fds[0], POLLIN, 0}, {fds[1], POLLIN, 0}};
        int k = poll(pf, 2, (int)(left * 1000) + 1);
        if (k < 0 && errno == EINTR) continue;
        for (int i = 0; i < 2; ++i) if (fds[i] >= 0 && pf[i].revents) {
            ssize_t n = read(fds[i], buf, sizeof buf);
            if (n <= 0) { close(fds[i]); fds[i] = -1; --open_; }
            else { std::string& s = i ? r.err : r.out; if (s.size() < (1 << 20)) s.append(buf, n); }
        }
    }
    for (int i = 0; i < 2; ++i) if (fds[i] >= 0) close(fds[i]);
    int st; waitpid(pid, &st, 0); r.secs = now() - t0;
    if (WIFSIGNALED(st)) { if (!r.hang) r.sig = WTERMSIG(st); } else r.exit = WEXITSTATUS(st);
    return r;
}
std::string ProcOut::show() const {
    std::string o = hang ? "no end within the time limit" : sig ? fmt("killed by signal %d", sig) : fmt("exit %d", exit);
    std::string t = out.size() > 160 ? "..." + out.substr(out.size() - 160) : out; o += ", stdout '" + esc(t) + "'";
    if (!err.empty()) { size_t p = err.find("ERROR: "); if (p == std::string::npos) p = err.find("runtime error"); if (p == std::string::npos) p = 0; o += ", stderr '" + err.substr(p, 300) + "'"; }
    return o;
}
void write_file(const std::string& path, const std::string& data) { FILE* f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); exit(2); } fwrite(data.data(), 1, data.size(), f); fclose(f); }

static std::unique_ptr<Sut> S_nat, S_san, S_py, S_py2, S_pysan[2];
Sut& sut_native() { if (!S_nat) S_nat.reset(new Sut(E.sut)); return *S_nat; }
Sut& sut_san() { if (!S_san) S_san.reset(new Sut(E.sut_san, {}, 180)); return *S_san; }
Sut& sut_py() { if (!S_py) S_py.reset(new Sut(E.pysut)); return *S_py; }
Sut& sut_py_san(int i) { auto& s = S_pysan[i]; if (!s) s.reset(new Sut(E.pysut_san[i], {}, 180)); return *s; }
Sut& sut_py2() { if (!S_py2) S_py2.reset(new Sut(E.pysut2)); return *S_py2; }
static std::unique_ptr<Sut> S_fault, S_pyf, S_pyf2, S_mem[3];
static std::vector<std::string> faulty() { return {"LD_PRELOAD=" + E.faults_so}; }
Sut& sut_faulty() { if (!S_fault) S_fault.reset(new Sut(E.sut, faulty())); return *S_fault; }
Sut& sut_measured(int i) { auto& s = S_mem[i]; if (!s) s.reset(new Sut(i == 0 ? E.sut : i == 1 ? E.pysut : E.pysut2, {"LD_PRELOAD=" + E.mem_so})); return *s; }
Sut& sut_py_faulty(bool re) { auto& s = re ? S_pyf2 : S_pyf; if (!s) s.reset(new Sut(re ? E.pysut2 : E.pysut, faulty())); return *s; }
void fresh_suts() { for (auto& s : S_pysan) s.reset(); for (auto& s : S_mem) s.reset(); S_fault.reset(); S_pyf.reset(); S_pyf2.reset(); S_nat.reset(); S_san.reset(); S_py.reset(); S_py2.reset(); }

// ---------------------------------------------------------------- families
V reflect(const V& v) { V o(v.size()); for (size_t i = 0; i < v.size(); ++i) o[i] = 1.0 - v[v.size() - 1 - i]; return o; }
void fix(V& v) { double m = 0; for (double& x : v) { if (!(x > 0)) x = 0; if (x > 1) x = 1; if (x < m) x = m; m = x; } }
void make_sorted(V& v) { for (double& x : v) { if (!(x > 0)) x = 0; if (x > 1) x = 1; } std::sort(v.begin(), v.end()); }
bool valid_list(const V& v) { double p = 0; for (double x : v) { if (!(x >= p && x <= 1)) return false; p = x; } return true; }

static double q_(int i, int n) { return (i + 1.0) / (n + 1.0); }
static double s_(int i, int n) { double q = q_(i, n); return std::sqrt(q * (1 - q) / (n + 2.0)); }
static V typ(Rng& r, int n, double c, double jitter) {
    V v(n); for (int i = 0; i < n; ++i) v[i] = q_(i, n) - s_(i, n) * (c + jitter * (r.u() - .5)); fix(v); return v;
}
V gen_lower_pos(Rng& r, int n, std::string& fam) {
    double c = r.chance(.5) ? r.uni(1.2, 3.5) : r.uni(0.2, 2.0) + std::log(n + 1.0) * .25;
    V v;
    switch (r.range(0, 12)) {
    case 11: if (n <= 400) {  // Berk-Jones / M_n: every b_i is the same quantile of the i-th order statistic
        fam = "berkjones"; double a = r.uni(.3, 3) * std::pow(10, -r.uni(.5, 4)); v.resize(n); for (int i = 0; i < n; ++i) v[i] = boost::math::ibeta_inv(i + 1.0, n - i + 0.0, std::min(.9, a)); break; } // fallthrough
    case 12: {  // higher criticism: (i/n - t) / sqrt(t (1 - t) / n) = h, possibly only from some order statistic on
        fam = "higher"; double h = r.uni(.5, 6); v.resize(n); for (int i = 0; i < n; ++i) { double f = (i + 1.0) / n, g = h * h / n; v[i] = (2 * f + g - std::sqrt(g * g + 4 * g * f * (1 - f))) / (2 * (1 + g)); }
        if (r.chance(.3)) { int k = r.range(0, n / 2); for (int i = 0; i < k; ++i) v[i] = 0; } if (r.chance(.2)) { int k = r.range(n / 2, n - 1); for (int i = k; i < n; ++i) v[i] = v[k]; } break; }
    case 0: case 1: fam = "typical"; v = typ(r, n, c, 1.0); break;
    case 2: { fam = "ks"; double d = r.uni(.3, 2.2) / std::sqrt(n); v.resize(n); for (int i = 0; i < n; ++i) v[i] = (i + 1.0) / n - d; break; }
    case 3: { fam = "linear"; double a = r.u(); v.resize(n); for (int i = 0; i < n; ++i) v[i] = a * (i + 1) / n; break; }
    case 4: { fam = "const"; double p = r.uni(.0001, .9999); v.assign(n, 1 - std::pow(p, 1.0 / n)); break; }
    case 5: { fam = "steps"; v = typ(r, n, c, 1.0); int g = r.range(2, std::max(2, n / 2)); for (int i = 0; i < n; ++i) v[i] = v[i / g * g]; break; }
    case 6: { fam = "grid"; v = typ(r, n, c * .6, .5); int m = r.pick(std::vector<int>{2, 4, 5, 8, 10, 16, 20, 64, 100, n, 2 * n, n + 1}); for (double& x : v) x = std::floor(x * m) / m; break; }
    case 7: { fam = "sparse"; V t = typ(r, n, c * .7, 1.0); double p = r.u(); v.assign(n, 0.0); double last = 0; for (int i = 0; i < n; ++i) { if (r.chance(p)) last = t[i]; v[i] = last; } break; }
    case 8: { fam = "single"; int k = r.range(0, n - 1); double x = q_(k, n) - s_(k, n) * r.uni(-2, 2.5); v.assign(n, 0.0); for (int i = k; i < n; ++i) v[i] = x; break; }
    case 9: { fam = "prefix0"; v = typ(r, n, c * .8, 1.0); int k = r.range(0, n); for (int i = 0; i < k; ++i) v[i] = 0; break; }
    default: { fam = "clusters"; v = typ(r, n, c, .5); for (int i = 0; i + 1 < n;) { int g = r.range(1, 9); bool ulp = r.chance(.5); for (int k = 1; k < g && i + k < n; ++k) v[i + k] = ulp ? std::nextafter(v[i + k - 1], 2.0) : v[i]; i += g; } }
    }
    fix(v); return v;
}
V gen_lower(Rng& r, int n, std::string& fam) {
    if (n == 0) return {};
    if (r.chance(.72)) return gen_lower_pos(r, n, fam);
    V v(n);
    switch (r.range(0, 6)) {
    case 0: fam = "raw"; for (double& x : v) x = r.u(); make_sorted(v); break;
    case 1: { fam = "scaled"; double a = r.u() * r.u(); for (double& x : v) x = r.u() * a; make_sorted(v); break; }
    case 2: { fam = "levels"; int m = r.range(1, 5); V l(m); for (double& x : l) x = r.chance(.2) ? 0 : r.u() * r.u(); for (double& x : v) x = r.pick(l); make_sorted(v); break; }
    case 3: { fam = "power"; double p = std::exp(r.uni(-.5, 2.5)); for (int i = 0; i < n; ++i) v[i] = std::pow(q_(i, n), p); break; }
    case 4: { fam = "extreme"; static const std::vector<double> X = {0, 0, 0, 4.9e-324, 1e-300, 1e-100, 1e-17, 2.220446049250313e-16, 1e-9, .25, .5, .75, 1 - 1e-9, 0x1.fffffffffffffp-1, 1}; for (double& x : v) x = r.pick(X); make_sorted(v); break; }
    case 5: { fam = "allequal"; double x = r.pick(std::vector<double>{0, 1, .5, 1.0 / n, 1e-12, 1 - 1e-12}); for (double& y : v) y = x; break; }
    default: { fam = "late"; int k = r.range(1, std::min(n, 4)); for (double& x : v) x = 0; for (int i = n - k; i < n; ++i) v[i] = r.uni(.3, 1); make_sorted(v); }
    }
    fix(v); return v;
}
void gen_two_sided(Rng& r, int n, V& b, V& B, std::string& fam) {
    std::string f1, f2;
    switch (r.range(0, 11)) {
    case 0: case 1: case 2: b = gen_lower_pos(r, n, f1); B = reflect(gen_lower_pos(r, n, f2)); fam = "two:" + f1 + "/" + f2; break;
    case 3: { // band
        double c1 = r.uni(1, 3.5), c2 = r.uni(1, 3.5); b.resize(n); B.resize(n); fam = "band";
        for (int i = 0; i < n; ++i) { b[i] = q_(i, n) - s_(i, n) * (c1 + .5 * r.u()); B[i] = q_(i, n) + s_(i, n) * (c2 + .5 * r.u()); }
        break; }
    case 4: { // shared grid: many ties between b and B
        int m = r.pick(std::vector<int>{3, 4, 5, 8, 10, 16, n, 2 * n, n + 1, std::max(2, n / 2)}); double c1 = r.uni(.5, 3), c2 = r.uni(.5, 3); b.resize(n); B.resize(n); fam = "sharedgrid";
        for (int i = 0; i < n; ++i) { b[i] = std::floor((q_(i, n) - s_(i, n) * c1) * m) / m; B[i] = std::ceil((q_(i, n) + s_(i, n) * c2) * m) / m; }
        break; }
    case 5: { // ks band, shifted so that B_i equals b_{i+k}
        int k = r.range(1, std::max(1, (int)(2.5 * std::sqrt(n)) + 1)); b.resize(n); B.resize(n); fam = "ksband";
        for (int i = 0; i < n; ++i) { b[i] = (i + 1.0 - k) / n; B[i] = double(i + k) / n; }
        break; }
    case 6: { // thin windows: X_(i) in [l_i, l_i+delta]
        double d = std::pow(10, -r.uni(.5, 9)); b.resize(n); B.resize(n); fam = "thin"; V l(n); for (double& x : l) x = r.u() * (1 - d); std::sort(l.begin(), l.end()); for (int i = 0; i < n; ++i) { b[i] = l[i]; B[i] = l[i] + d; } break; }
    case 7: { b = gen_lower(r, n, f1); B = reflect(gen_lower(r, n, f2)); fam = "any:" + f1 + "/" + f2; break; }
    case 8: { // one side trivial or nearly
        fam = "trivialside"; if (r.chance(.5)) { b = gen_lower_pos(r, n, f1); B.assign(n, 1.0); } else { B = reflect(gen_lower_pos(r, n, f1)); b.assign(n, 0.0); } break; }
    case 9: { // touching or crossing
        fam = "crossing"; b = gen_lower(r, n, f1); B = b; for (double& x : B) x += r.pick(std::vector<double>{0, 0, 1e-16, .01, -.01, -.2, .2}); break; }
    case 10: { // few common levels with moderate probability
        fam = "commonlevels"; int m = r.range(1, 6); V l(m); for (double& x : l) x = r.u(); std::sort(l.begin(), l.end()); b.assign(n, 0.0); B.assign(n, 1.0);
        for (double x : l) { double sd = std::sqrt(n * x * (1 - x)) + .3; int up = (int)std::floor(n * x + sd * r.uni(.3, 3)), dn = (int)std::ceil(n * x - sd * r.uni(.3, 3));
            for (int i = std::max(0, up); i < n; ++i) b[i] = std::max(b[i], x); for (int i = 0; i < std::min(n, dn); ++i) B[i] = std::min(B[i], x); }
        break; }
    default: { // swapped roles: usually impossible
        fam = "swapped"; B = gen_lower(r, n, f1); b = reflect(gen_lower(r, n, f2)); break; }
    }
    fix(b); fix(B);
}
std::string list_text(Rng& r, const V& v, bool plain, std::string* style) {
    std::string o; int mode = plain ? 0 : r.range(0, 11);
    static const char* ST[] = {"%.17g", "%.17g", "%.17g", "%.20e", "%.25f", "+%.17g", "%.17G", "%.60f", "mixed", "mixed", "shifted", "shifted"};
    if (style) *style = ST[mode];
    for (size_t i = 0; i < v.size(); ++i) {
        char s[512]; int m = mode >= 8 ? r.range(1, 7) : mode; double x = v[i];
        if (mode >= 10 && x != 0 && std::isfinite(x) && r.chance(.5)) {   // as many digits as one likes: 0.000..., 25000...e-90
            snprintf(s, sizeof s, "%.16e", x); char* e = strchr(s, 'e'); long ex = atol(e + 1); std::string d(s, e); bool neg = d[0] == '-'; if (neg) d = d.substr(1); d.erase(1, 1);
            long k = r.chance(.8) ? (long)r.loguni(1, 300) : (long)r.loguni(1, 5000); std::string z(k, '0'), t;
            if (r.chance(.4)) t = d + z + fmt("e%ld", ex - 16 - k); else if (r.chance(.5)) t = (r.chance(.5) ? "0." : ".") + z + d + fmt("E%+ld", ex + 1 + k); else t = z + d.substr(0, 1) + "." + d.substr(1) + z + fmt("e%ld", ex);
            if (neg) t = "-" + t;
            if (strtod(t.c_str(), 0) == x) { if (i) o += ","; o += t; continue; }
        }
        if (mode >= 10 && x == 0 && r.chance(.4)) {
            static const std::vector<std::string> Z = {"0e0", "0.0e-999999999999", "0e99", "00", "+0", "-0", "-.0E+1", "0."}, T = {"1e-400", "0.1E-5000", "4e-330"};
            o += (i ? "," : "") + (i + 1 == v.size() || v[i + 1] != 0 ? r.pick(T) : r.pick(Z)); continue;
        }
        const char* f = ST[m];
        if ((m == 4 || m == 7)) { snprintf(s, sizeof s, f, x); if (strtod(s, 0) != x) f = "%.17g"; }
        snprintf(s, sizeof s, f, x);
        std::string t = s;
        if (!plain) {
            if (mode >= 8 && r.chance(.1) && t.compare(0, 2, "0.") == 0) t = t.substr(1);                // .5
            else if (mode >= 8 && r.chance(.1) && t[0] >= '0' && t[0] <= '9') t = "00" + t;                    // 000.5
            static const std::vector<std::string> sp = {"", "", " ", "  ", "\t", " \t "};
            t = r.pick(sp) + t + (r.chance(.3) ? r.pick(sp) : "");
        } else if (i) t = " " + t;
        if (i) o += ",";
        o += t;
    }
    if (!plain && !v.empty() && r.chance(.35)) o += ",";
    return o;
}

// ---------------------------------------------------------------- shrinking of list cases
static double simpler(double x, int level) {
    if (level == 0) return x < .5 ? 0 : 1;
    if (level == 1) return std::round(x * 2) / 2;
    if (level == 2) return std::round(x * 10) / 10;
    if (level == 3) return std::round(x * 1000) / 1000;
    return std::round(x * 1e6) / 1e6;
}
std::vector<Case> shrink_lists(const Case& c) {
    std::vector<Case> out;
    size_t n = std::max(c.b.size(), c.B.size());
    auto cut = [&](size_t at, size_t len) {
        Case d = c;
        if (at < d.b.size()) d.b.erase(d.b.begin() + at, d.b.begin() + std::min(d.b.size(), at + len));
        if (at < d.B.size()) d.B.erase(d.B.begin() + at, d.B.begin() + std::min(d.B.size(), at + len));
        out.push_back(d);
    };
    for (size_t len = n / 2; len >= 1; len /= 2) {
        size_t k = 0;
        for (size_t at = 0; at < n && k < 12; at += len, ++k) if (n - len >= 1) cut(at, len);
        if (n > 12 * len) cut(n - len, len);
    }
    for (int lev = 0; lev < 5; ++lev) {
        Case d = c; for (double& x : d.b) x = simpler(x, lev); for (double& x : d.B) x = simpler(x, lev);
        if (d.b != c.b || d.B != c.B) out.push_back(d);
    }
    if (!c.b.empty() && !c.B.empty()) { Case d = c; std::fill(d.b.begin(), d.b.end(), 0.0); if (d.b != c.b) out.push_back(d); d = c; std::fill(d.B.begin(), d.B.end(), 1.0); if (d.B != c.B) out.push_back(d); }
    if (n <= 24)
        for (int w = 0; w < 2; ++w) { const V& v = w ? c.B : c.b; for (size_t i = 0; i < v.size(); ++i) for (int lev = 0; lev < 4; ++lev) { double y = simpler(v[i], lev); if (y == v[i]) continue; Case d = c; V& t = w ? d.B : d.b; t[i] = y; if (valid_list(v) && !valid_list(t)) continue; out.push_back(d); break; } }
    return out;
}
