// Properties of the programs and of validation, memory and history: C07-C12, C14, C15
#include "core.hh"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <boost/math/special_functions/gamma.hpp>
#include <sys/stat.h>
#include <unistd.h>

static const char* ALGO[6] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-new", "ecdf1-mns2016", "ecdf1-mns2016"};
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"), z = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, z - a + 1); }
static bool is_number(const std::string& s0, double* v = nullptr) {
    std::string s = trim(s0); if (s.empty()) return false;
    char* e; double x = strtod(s.c_str(), &e); if (*e) return false; if (v) *v = x; return true;
}
static bool any_number_line(const std::string& s) { size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size(); if (is_number(s.substr(p, q - p))) return true; p = q + 1; } return false; }
static bool single_number(const std::string& out, double& v) {   // one line, one number, nothing else
    if (out.empty() || out.back() != '\n' || std::count(out.begin(), out.end(), '\n') != 1) return false;
    return is_number(out, &v) && out.find_first_of(" \t") == std::string::npos;
}
static bool san_report(const ProcOut& o) { return o.err.find("ERROR: ") != std::string::npos || o.err.find("runtime error:") != std::string::npos; }
static const char* HANGMSG = "does not terminate";
// success: one probability; failure: an explanation and no probability
static std::string outcome_ok(const ProcOut& o, double* v = nullptr, bool* success = nullptr) {
    if (o.hang) return HANGMSG;
    if (o.sig) return "is killed";
    if (san_report(o)) return "performs an invalid operation";
    if (success) *success = o.exit == 0;
    if (o.exit == 0) { double x; if (!single_number(o.out, x)) return "exits 0 without printing exactly one number"; if (!(x >= -1e-9 && x <= 1 + 1e-9)) return "prints something that is not a probability"; if (v) *v = x; return ""; }
    if (trim(o.out + o.err).empty()) return "fails without an explanation";
    if (any_number_line(o.out)) return "fails, yet prints a number";
    return "";
}
static Res bad(const std::string& who, const std::string& what, const ProcOut& o) { Res r = Res::fail(who + " " + what + ": " + o.show()); r.hang = o.hang; return r; }
static std::string bin(const char* p, bool san = false) { return (san ? E.sandir : E.bindir) + "/" + p; }
static std::string infile(const std::string& data) { std::string f = E.scratch + "/in"; write_file(f, data); return f; }
static std::string txt(const V& v) { std::string o; for (size_t i = 0; i < v.size(); ++i) o += fmt(i ? ", %.17g" : "%.17g", v[i]); return o; }

// ------------------------------------------------------------------ C07: validation
static const std::vector<std::string> ROUTES = {"native", "python", "python-regenerated", "cli"};
static size_t position(Rng& r, size_t n) {
    switch (r.range(0, 6)) {
    case 0: return 0;
    case 1: return n - 1;
    case 2: return n / 2;
    case 3: { size_t p = (size_t)1 << r.range(0, n > 5000 ? 16 : 11); long q = (long)p + r.range(-2, 1); return std::min(n - 1, (size_t)std::max(0L, q)); }
    case 4: return n - 1 - std::min(n - 1, (size_t)r.range(0, 3));
    default: return r.range(0, n - 1); }
}
static double qnan(Rng& r) { uint64_t u = r.pick(std::vector<uint64_t>{0x7ff8000000000000ull, 0xfff8000000000000ull, 0x7fffffffffffffffull, 0x7ff8000000000001ull, 0x7ff0000000000001ull}); double d; memcpy(&d, &u, 8); return d; }
static void spoil(Rng& r, V& v, std::string& fam) {
    size_t n = v.size(); if (!n) { v.push_back(r.pick(std::vector<double>{NAN, -1, 2, INFINITY, -INFINITY})); fam += "+wild"; return; }
    size_t p = position(r, n);
    switch (r.range(0, 7)) {
    case 0: v[p] = qnan(r); fam += "+nan"; break;
    case 1: { double d = r.pick(std::vector<double>{-4.9e-324, -1e-300, -1e-17, -2.2e-16, -1e-9, -.1, -1, -1e300, -INFINITY}); fam += "+neg"; v[p] = d; if (r.chance(.7)) for (size_t i = 0; i <= p; ++i) v[i] = d; break; }
    case 2: { double d = r.pick(std::vector<double>{0x1.0000000000001p0, 1 + 1e-12, 1.0001, 1.5, 2, 100, 1e300, INFINITY}); fam += "+big"; v[p] = d; if (r.chance(.7)) for (size_t i = p; i < n; ++i) v[i] = d; break; }
    case 3: { fam += "+ulp"; if (p == 0) p = n > 1; if (p == 0) { v[0] = 1.5; break; } v[p] = std::nextafter(v[p - 1], -1.0); for (size_t i = p + 1; i < n; ++i) v[i] = std::max(v[i], v[p - 1]); break; }
    case 4: { fam += "+drop"; v[p] = v[p] * r.u(); break; }
    case 5: { fam += "+rise"; v[p] = v[p] + (1 - v[p]) * r.u(); break; }
    case 6: { fam += "+swap"; size_t q = position(r, n); std::swap(v[p], v[q]); break; }
    default: { fam += "+wild"; int k = r.range(1, 3); for (int i = 0; i < k; ++i) v[position(r, n)] = r.pick(std::vector<double>{NAN, -1, 2, INFINITY, -INFINITY, -1e-300, 1.0000001}); } }
}
static Reg c07({"C07", "generated valid list(s) of 1..260 (sometimes 4000, invalid ones up to 70000) entries, two thirds of them spoiled at a drawn position (NaN, +-infinity, below 0, above 1, order broken from 1 ulp to 1, lengths changed), sent to the library, both Python modules or crossprob; accepted iff valid; non-trivial: exactly the spoiled-and-invalid cases and the valid ones that contain a tie, 0, -0.0, 1 or two entries 1 ulp apart",
    60000, 600000,
    [](Rng& r, long idx) {
        Case c; long k = idx % 12;
        c.kind = k < 5 ? ROUTES[0] : k < 7 ? ROUTES[1] : k < 8 ? ROUTES[2] : ROUTES[3];
        long fn = r.range(0, 5); int n = 1 + (idx / 12) % 260;
        if (r.chance(.3)) n = (int)r.loguni(1, 8); else if (r.chance(.01)) n = (int)r.loguni(300, 4000);
        if (fn >= MNS_b || fn == KS2) n = std::min(n, 400);
        bool huge = idx % 199 == 5; if (huge) n = r.chance(.3) ? 32768 + r.range(-2, 3) : (int)r.loguni(4000, 70000);   // invalid only: no work to do
        std::string f;
        if (fn <= FFT2) { gen_two_sided(r, n, c.b, c.B, f); f = "two"; }
        else { V v = gen_lower(r, n, f); if (fn == NEW_b || fn == MNS_b) c.b = v; else c.B = reflect(v); }
        c.fam = "valid";
        if (r.chance(.25)) { V& v = c.b.empty() ? c.B : c.b; v[0] = -0.0; c.fam = "valid-0"; }
        if (huge || r.chance(.67)) {
            c.fam = huge ? "spoiled:huge" : "spoiled";
            if (fn <= FFT2 && r.chance(.2)) {
                V& v = r.chance(.5) ? c.b : c.B; int m = r.range(0, 4);
                if (m == 0) v.clear(); else if (m == 1) v.pop_back(); else if (m == 2) v.push_back(1.0); else if (m == 3) v.resize(n / 2); else for (int i = 0; i < n; ++i) v.push_back(1.0);
                c.fam += "+length";
            } else { V& v = fn > FFT2 ? (c.b.empty() ? c.B : c.b) : r.chance(.5) ? c.b : c.B; spoil(r, v, c.fam); if (fn <= FFT2 && r.chance(.15)) spoil(r, c.b, c.fam); }
            if (huge && valid_list(c.b) && valid_list(c.B) && (fn > FFT2 || c.b.empty() || c.B.empty() || c.b.size() == c.B.size())) { V& v = c.b.empty() ? c.B : c.b; v[position(r, v.size())] = 2; if (valid_list(v)) v.back() = -1; }
        }
        c.iv = {fn};
        return c;
    },
    [](const Case& c) {
        int fn = c.iv[0]; V b = c.b, B = c.B; bool cli = c.kind == "cli";
        bool vb = valid_list(b), vB = valid_list(B);
        bool len = fn > FFT2 || b.size() == B.size() || (cli && (b.empty() || B.empty()));
        bool ok = vb && vB && len;
        if (fn > FFT2 && cli && b.empty() == B.empty()) return Res();
        Res r;
        bool edge = false; for (const V* v : {&b, &B}) for (size_t i = 0; i < v->size(); ++i) if ((*v)[i] == 0 || (*v)[i] == 1 || (i && (*v)[i] <= std::nextafter((*v)[i - 1], 2.0))) edge = true;
        r.nontrivial = !ok || edge;
        r.labels.push_back(ok ? "valid" : !len ? "invalid:lengths" : "invalid:entries");
        std::string why; const char* who = cli ? "crossprob" : c.kind == "native" ? "the library" : "the Python module";
        if (cli) {
            std::vector<std::string> av = {bin("crossprob"), ALGO[fn], infile(txt(b) + "\n" + txt(B) + "\n")};
            ProcOut o = run_proc(av, {}, 60); bool success = false;
            why = outcome_ok(o, nullptr, &success);
            if (why.empty() && success != ok) why = ok ? "rejects valid boundaries" : "accepts invalid boundaries";
            if (!why.empty()) { Res q = bad(fmt("%s (%s)", who, ALGO[fn]), why, o); q.labels = r.labels; return q; }
        } else {
            Sut& s = c.kind == "native" ? sut_native() : c.kind == "python" ? sut_py() : sut_py2();
            Outcome o = s.call(fn, fn == NEW_B || fn == MNS_B ? V() : b, fn == NEW_b || fn == MNS_b ? V() : B);
            if (ok) { if (!(o.finite() && o.value >= -1e-9 && o.value <= 1 + 1e-9)) why = "does not give a probability for valid boundaries"; }
            else if (o.kind == Outcome::OK) why = "accepts invalid boundaries";
            else if (o.kind == Outcome::CRASH || o.kind == Outcome::HANG) why = "crashes or hangs on invalid boundaries";
            else if (o.msg.empty()) why = "fails without a message";
            else if (c.kind != "native" && o.kind != Outcome::RUNTIME_ERROR) why = "raises something else than RuntimeError";
            if (!why.empty()) { r.ok = false; r.hang = o.kind == Outcome::HANG; r.why = fmt("%s: %s %s: %s", FN_NAME[fn], who, why.c_str(), o.show().c_str()); }
        }
        return r;
    }, shrink_lists});

// ------------------------------------------------------------------ C08: the crossprob program
static double half_unit(double x) { x = std::fabs(x); if (x == 0) return 0; return .5 * std::pow(10.0, std::floor(std::log10(x)) - 5); }
// iv: fn, render seed, plain, final newline
static std::string c08_file(const Case& c) {
    Rng r(rc::Random((uint64_t)c.iv[1])); const V &b = c.b, &B = c.B;
    std::string t = list_text(r, b, c.iv[2]) + "\n" + list_text(r, B, c.iv[2]);
    if (c.iv[3] || B.empty()) t += "\n";
    return t;
}
// how the program gets the file; $0 is the file, $@ the program and the algorithm
static const std::vector<std::pair<const char*, const char*>> WAYS = {{"path", nullptr}, {"standard input", "exec \"$@\" /dev/stdin <\"$0\""}, {"pipe", "cat \"$0\" | exec \"$@\" /dev/stdin"}, {"slow pipe", "{ head -c 1 \"$0\"; sleep .01; tail -c +2 \"$0\"; } | exec \"$@\" /dev/stdin"},
    {"descriptor", "exec 7<\"$0\"; exec \"$@\" /dev/fd/7"}, {"relative path", "cd \"${0%/*}\" && exec \"$@\" \"${0##*/}\""}, {"link", "ln -sf \"$0\" \"$0.link\"; exec \"$@\" \"$0.link\""}, {"named pipe", "rm -f \"$0.fifo\"; mkfifo \"$0.fifo\"; (exec >/dev/null 2>&1; cat \"$0\" >\"$0.fifo\") & exec \"$@\" \"$0.fifo\""},
    {"odd name", "cd \"${0%/*}\"; mkdir -p ' -d,1'; cp \"$0\" ' -d,1/-x y\303\274%s.txt'; exec \"$@\" ' -d,1/-x y\303\274%s.txt'"}, {"long path", "d=\"${0%/*}\"; p=\"$d\"; for i in 1 2 3 4 5 6 7 8 9; do p=\"$p/../${d##*/}\"; p=\"$p/././././././././././././././././././././././././././././././.\"; done; exec \"$@\" \"$p/${0##*/}\""},
    {"name -", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './-'; exec \"$@\" '-'"}, {"name --", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './--'; exec \"$@\" '--'"}, {"name -h", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './-h'; exec \"$@\" '-h'"}, {"name ~", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './~'; exec \"$@\" '~'"}, {"name nan", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './nan'; exec \"$@\" 'nan'"}, {"name stdin", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './stdin'; exec \"$@\" 'stdin'"}, {"name with newline", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './a\nb'; exec \"$@\" 'a\nb'"}, {"name 0", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './0'; exec \"$@\" '0'"}, {"name *", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './*'; exec \"$@\" '*'"}, {"name 0.1,0.2", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './0.1,0.2'; exec \"$@\" '0.1,0.2'"}, {"name ecdf2-ks2001", "d=\"${0%/*}/names\"; mkdir -p \"$d\"; cd \"$d\"; cp \"$0\" './ecdf2-ks2001'; exec \"$@\" 'ecdf2-ks2001'"}};
// settings of the user that have nothing to do with the result
static std::vector<std::vector<std::string>> settings() {
    std::string loc = E.clock_so.substr(0, E.clock_so.rfind('/') + 1) + "locale";
    return {{}, {"LOCPATH=" + loc, "LC_ALL=de_DE.UTF-8", "LANG=de_DE.UTF-8"}, {"LOCPATH=" + loc, "LC_ALL=", "LC_NUMERIC=de_DE.UTF-8"}, {"LC_ALL=C.UTF-8"}, {"LC_ALL=xx_YY"}, {"TMPDIR=/nonexistent", "HOME="}, {"POSIXLY_CORRECT=1", "COLUMNS=5"}, {"OMP_NUM_THREADS=3", "MALLOC_PERTURB_=165"}, {"GLIBCXX_TUNABLES=x", "MALLOC_ARENA_MAX=1", "TZ=Asia/Tokyo"}};
}
static Reg c08({"C08", "generated boundary file (both lists, either list empty, or both empty) in a drawn notation and layout with a drawn algorithm, passed in a drawn way (path, link, pipe, standard input ...) under drawn settings (locale with a decimal comma ...), compared with the reference probability; one in six a misuse (algorithm that does not apply, unknown name, wrong argument count); non-trivial: misuse, or reference probability in (1e-6, 1-1e-6)",
    50000, 500000,
    [](Rng& r, long idx) {
        Case c; long k = idx % 12; int n = 1 + (idx / 12) % 200; if (r.chance(.25)) n = (int)r.loguni(1, 6); else if (r.chance(.004)) n = (int)r.loguni(300, 3000);
        long fn = r.range(0, 5); if (n > 400 && fn != FFT2 && fn != NEW_b && fn != NEW_B) fn = FFT2;
        std::string f;
        if (k >= 2) {
            c.kind = "value";
            if (idx % 997 == 500) { // many numbers, little work: all points in one interval
                fn = FFT2; n = r.chance(.3) ? r.pick(std::vector<int>{32767, 65535, 65536}) + r.range(0, 2) : (int)r.loguni(5000, 120000); c.fam = "huge"; double x = r.uni(0, 2) / n, y = 1 - r.uni(0, 2) / n;
                int side = r.range(0, 3); if (side != 1) c.b.assign(n, x); if (side != 2) c.B.assign(n, y);
            } else if (fn <= FFT2) {
                if (r.chance(.12)) { // few entries in narrow windows: digits of the input matter
                    n = r.range(1, 2); double w = std::pow(10, -r.uni(2, n == 1 ? 8 : 4)); for (int i = 0; i < n; ++i) { double x = (i + r.u() * (1 - w)) / n; c.b.push_back(x); c.B.push_back(x + w); } c.fam = "narrow"; fix(c.b); fix(c.B); }
                else { gen_two_sided(r, n, c.b, c.B, c.fam); c.fam = c.fam.substr(0, c.fam.find(':')); }
                if (r.chance(.2)) c.b.clear(); else if (r.chance(.2)) c.B.clear(); else if (r.chance(.005)) { c.b.clear(); c.B.clear(); }
            } else { V v = gen_lower(r, n, c.fam); if (fn == NEW_b || fn == MNS_b) c.b = v; else c.B = reflect(v); }
        } else {
            gen_two_sided(r, n, c.b, c.B, f);
            switch (r.range(0, 4)) {
            case 0: c.kind = "err:unequal"; fn = r.range(0, 1); { V& v = r.chance(.5) ? c.b : c.B; if (n > 1 && r.chance(.5)) v.resize(r.range(1, n - 1)); else { int e = r.range(1, 3); while (e--) v.push_back(1.0); } } break;
            case 1: c.kind = "err:both"; fn = r.range(2, 5); if (r.chance(.3)) c.b.resize(r.range(1, n)); break;
            case 2: c.kind = "err:none"; fn = r.range(2, 5); c.b.clear(); c.B.clear(); break;
            case 3: { c.kind = "err:algo"; static const std::vector<std::string> A = {"ecdf2-KS2001", "ecdf2", "ecdf1", "ecdf1-m2020", "ecdf2-ks200", "ecdf2-ks20011", " ecdf2-ks2001", "ecdf2-ks2001 ", "ecdf2-mn201", "ecdf2-mn2017x", "ECDF1-NEW", "ecdf1-ne", "ecdf1-new2", "ecdf1_new", "ecdf1-mns201", "ecdf1-mns20166", "ecdf2-mns2016", "ecdf1-mn2017", "poisson", "ecdf", "-h", "--help", "", "xecdf2-ks2001", "ecdf2-"}; c.sv = {r.pick(A)}; if (r.chance(.5)) { if (r.chance(.5)) c.b.clear(); else c.B.clear(); } break; }
            default: c.kind = "err:args"; c.sv = {r.pick(std::vector<std::string>{"none", "algo", "file", "three", "four"})}; }
        }
        c.iv = {fn, (long)(r.next() >> 2), r.chance(.2), r.chance(.7), c.kind == "value" && r.chance(.3) ? (r.chance(.3) ? r.range(10, WAYS.size() - 1) : r.range(1, 9)) : 0, r.chance(.4) ? r.range(1, settings().size() - 1) : 0};
        return c;
    },
    [](const Case& c) {
        int fn = c.iv[0]; std::string path = infile(c08_file(c));
        std::vector<std::string> av = {bin("crossprob"), ALGO[fn], path};
        if (c.kind == "err:algo") av[1] = c.sv[0];
        if (c.kind == "err:args") { const std::string& s = c.sv[0]; if (s == "none") av.resize(1); else if (s == "algo") av.resize(2); else if (s == "file") av.erase(av.begin() + 1); else { av.push_back("extra"); if (s == "four") av.push_back(path); } }
        if (c.iv[4]) { av.pop_back(); av.insert(av.begin(), {"/bin/sh", "-c", WAYS[c.iv[4]].second, path}); }
        auto env = settings()[c.iv[5]];
        ProcOut o = run_proc(av, env, 60);
        double v = 0; bool success = false; std::string why = outcome_ok(o, &v, &success);
        Res r; std::string who = fmt("crossprob (%s)", ALGO[fn]);
        if (c.iv[4]) { who += fmt(", file given by %s", WAYS[c.iv[4]].first); r.labels.push_back(std::string("way:") + WAYS[c.iv[4]].first); }
        for (auto& e : env) who += " " + e;
        if (!env.empty()) r.labels.push_back("setting:" + env.back());
        if (!why.empty()) return bad(who, why, o);
        if (c.kind != "value") { if (success) return bad(who, "prints a probability although it is not applicable (" + c.kind + ")", o); r.labels.push_back(c.kind); return r; }
        if (!success) return bad(who, "fails on a valid file", o);
        const V &b = c.b, &B = c.B;
        int n = std::max(b.size(), B.size());
        double ref = n > 3500 && (b.empty() || b[0] == b.back()) && (B.empty() || B[0] == B.back()) ? std::exp(n * std::log1p(-(b.empty() ? 0 : b[0]) - (B.empty() ? 0 : 1 - B[0]))) : n == 0 ? 1 : n <= 160 ? (double)ref_ecdf_rel(n, b, B) : ref_ecdf_abs(n, b, B);
        r.nontrivial = ref > 1e-6 && ref < 1 - 1e-6;
        if (!(std::fabs(v - ref) <= 1e-9 + 1.001 * half_unit(ref))) return bad(who, fmt("prints %.17g, reference %.17g", v, ref), o);
        r.labels.push_back(b.empty() ? "shape:upper" : B.empty() ? "shape:lower" : "shape:two");
        return r;
    }, [](const Case& c) { std::vector<Case> o; for (int k : {4, 5}) if (c.iv[k]) { Case d = c; d.iv[k] = 0; o.push_back(d); } for (auto& d : shrink_lists(c)) o.push_back(d); return o; }});

// ------------------------------------------------------------------ C09: arbitrary files and arguments
static std::string rnd_bytes(Rng& r, size_t n) { std::string s(n, 0); int m = r.range(0, 3); for (char& c : s) c = m == 0 ? (char)r.next() : m == 1 ? (char)r.range(32, 126) : m == 2 ? "0123456789.,e-+ \n\t"[r.range(0, 17)] : "\n,0."[r.range(0, 3)]; return s; }
static std::string token(Rng& r) {
    static const std::vector<std::string> T = {"0", "1", "0.5", "0.1", "0.25", "0.9", "1.0", "0.999999999999999999999", "-0", "-0.0", "-1", "2", "1e-5", "1E-5", "1e-300", "1e-310", "4.9e-324", "1e-400", "1e308", "1e309", "-1e309", "nan", "-nan", "NaN", "nan(0x12)", "inf", "-inf", "INFINITY", "infinit", "0x1p-3", "0x", "0x.8", "1e", "1e+", "e5", ".", ".5", "5.", "+.5", "++1", "--1", "0.5 0.6", "0.5;0.6", "abc", "0.5abc", "", " ", "\t", "\r", std::string(1, '\0'), std::string("0.\0005", 5), "\xef\xbb\xbf" "0.5", "\xd9\xa1", "1,5", "\"0.5\"", "0.5\"", "1_000", "1/2", "50%", "#", "b: 0.5", "[0.5]", "-", "+", "00000000000000000000.5", "0.5\r"};
    if (r.chance(.02)) return std::string(r.range(1, 5000), r.pick(std::vector<char>{'0', '9', ' ', '-', '.'}));
    if (r.chance(.25)) return fmt("%.17g", r.u());
    return r.pick(T);
}
static std::string fuzz_file(Rng& r, std::string& fam) {
    int m = r.range(0, 9);
    if (m == 0) { fam = "bytes"; return rnd_bytes(r, r.chance(.1) ? r.range(1000, 20000) : r.range(0, 60)); }
    if (m <= 3) { fam = "tokens"; std::string o; int L = r.chance(.7) ? 2 : r.range(0, 5); double p = r.u();
        for (int l = 0; l < L; ++l) { int k = r.chance(.25) ? 0 : (int)r.loguni(1, 12); double x = 0; for (int i = 0; i < k; ++i) { if (i) o += r.chance(.9) ? "," : r.pick(std::vector<std::string>{";", " ", ",,", "\t", ", ", "\n"}); if (r.chance(p)) o += token(r); else { x += (1 - x) * r.u() * 2 / (k + 1); o += fmt("%.6g", x); } } if (r.chance(.15)) o += ","; o += r.chance(.9) ? "\n" : r.pick(std::vector<std::string>{"\r\n", "\r", "", "\n\n", " \n"}); }
        if (r.chance(.2) && !o.empty()) o.pop_back();
        return o; }
    V b, B; std::string f; int n = r.chance(.03) ? (int)r.loguni(60, 1500) : (int)r.loguni(1, 40);
    gen_two_sided(r, n, b, B, f);
    if (r.chance(.25)) b.clear(); else if (r.chance(.25)) B.clear(); else if (r.chance(.15)) B.resize(r.range(0, n)); else if (r.chance(.1)) b.resize(r.range(0, n));
    if (m >= 7) { fam = "spoiled"; int k = r.range(1, 2); while (k--) spoil(r, r.chance(.5) ? b : B, f); if (r.chance(.2)) std::reverse(b.begin(), b.end()); }
    std::string t = list_text(r, b, r.chance(.5)) + "\n" + list_text(r, B, r.chance(.5)) + "\n";
    if (m <= 6) { fam = "mutated"; int k = r.range(1, 4);
        while (k--) { size_t p = r.range(0, t.size()), q = std::min(t.size(), p + (size_t)r.loguni(1, 30));
            switch (r.range(0, 6)) {
            case 0: t.erase(p, q - p); break;
            case 1: t.insert(p, token(r)); break;
            case 2: t.insert(p, t.substr(p, q - p)); break;
            case 3: if (p < t.size()) t[p] = (char)r.next(); break;
            case 4: t.resize(p); break;
            case 5: t.insert(p, r.pick(std::vector<std::string>{",", "\n", ",\n", "-", ".", "e", std::string(1, 0), "\r\n", " "})); break;
            default: if (p < t.size()) t[p] ^= 1 << r.range(0, 7); } } }
    return t;
}
static std::string count_text(Rng& r) {
    static const std::vector<std::string> T = {"", " ", "0", "-0", "-1", "-5", "abc", "5x", "x5", "1.5", "1e3", "1e", "0x10", " 7", "7 ", "+7", "++7", "99999999999999999999", "-99999999999999999999", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "nan", "inf", "\xd9\xa1", "1,0", "1_0", "\n", "5\n", "--1", "0b1", "007"};
    return r.chance(.5) ? std::to_string(r.range(1, 60)) : r.pick(T);
}
static std::vector<Case> shrink_fuzz(const Case& c) {
    std::vector<Case> o; const std::string& t = c.sv[0]; size_t n = t.size();
    for (size_t len = n; len >= 1; len /= 2) for (size_t at = 0, k = 0; at < n && k < 16; at += len, ++k) { Case d = c; d.sv[0].erase(at, len); o.push_back(d); }
    if (n < 40) for (size_t i = 0; i < n; ++i) for (char ch : {'0', '1'}) if (isalnum((unsigned char)t[i]) && t[i] > ch) { Case d = c; d.sv[0][i] = ch; o.push_back(d); }
    if (c.iv.size() > 1) for (long k : {c.iv[1] / 2, c.iv[1] * 3 / 4, c.iv[1] * 9 / 10}) if (k > 0) { Case d = c; d.iv[1] = k; o.push_back(d); }
    for (size_t i = 1; i < c.sv.size(); ++i) if (c.sv[i] != "@F") for (size_t len = c.sv[i].size(); len >= 1; len /= 2) { Case d = c; d.sv[i].erase(0, len); o.push_back(d); }
    return o;
}
static Reg c09({"C09", "generated file bytes (random bytes, token soup, mutated or spoiled valid files, megabytes of one repeated field, special paths; files found by coverage-guided fuzzing with AFL++) and generated argument vectors for both programs, three quarters on the production build and one quarter under AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial: file is neither empty nor a well-formed pair of valid lists, or the arguments are malformed",
    60000, 700000,
    [](Rng& r, long idx) {
        Case c; c.sv = {fuzz_file(r, c.fam)}; bool mc = idx % 5 < 2;
        c.kind = mc ? "crossprob_mc" : "crossprob"; c.iv = {idx % 4 == 3};
        std::string file = "@F";
        if (r.chance(.04)) { file = r.pick(std::vector<std::string>{"", "@F/x", "@MISSING", "@DIR", "/dev/null", ".", "/", "@LONG", "-", "--", "@F ", "\xff\xfe", "nul\n"}); c.fam = "path"; }
        if (mc) { c.sv.push_back(r.chance(.05) ? r.pick(std::vector<std::string>{"", "ecdfs", "Poisson", "ecd", "poisson ", "@F", "ecdf2-ks2001", "1"}) : r.chance(.5) ? "ecdf" : "poisson"); c.sv.push_back(file); c.sv.push_back(r.chance(.3) ? count_text(r) : std::to_string(r.range(1, 30))); }
        else { c.sv.push_back(r.chance(.05) ? r.pick(std::vector<std::string>{"", "ecdf", "poisson", "ecdf2", "ECDF2-KS2001", "ecdf1-new ", "@F", "ecdf1", "-h"}) : ALGO[r.range(0, 5)]); c.sv.push_back(file); }
        if (r.chance(.03)) { int k = r.range(0, 2); if (k == 0) c.sv.resize(r.range(1, c.sv.size() - 1)); else if (k == 1) c.sv.push_back(token(r)); else { c.sv.push_back("a"); c.sv.push_back("b"); c.sv.push_back("c"); } for (size_t i = 1; i < c.sv.size(); ++i) { size_t z = c.sv[i].find('\0'); if (z != std::string::npos) c.sv[i].resize(z); } c.fam = "argc"; }
        if (idx % 1500 == 7 || idx % 1500 == 808) { // a few megabytes of the same thing: prefix, unit, suffix, repetitions of the unit
            c.fam = "huge"; std::string u = r.pick(std::vector<std::string>{",", ",", "0,", "0.5,", "1,", "nan,", "x,", "0,1,", " ", "0", "9", "\n", "-", "1e", ".5,", std::string(1, '\0')});
            bool valid = u == "0," || u == "0.5," || u == "1," || u == ".5,"; long most = std::min(6000000L / (long)u.size(), c.iv[0] ? 500000L : 3000000L);
            c.sv = {r.pick(std::vector<std::string>{"", "0.5,", "\n", "0.25\n"}) + "\1" + u + "\1" + (valid && !mc ? "0.1,2" : r.pick(std::vector<std::string>{"", "0.75", ",", "2"})) + r.pick(std::vector<std::string>{"", "\n", "\n\n", "\n0.5\n"}), mc ? r.chance(.5) ? "ecdf" : "poisson" : ALGO[r.range(0, 5)], "@F"};
            if (mc) c.sv.push_back("1"); c.iv.push_back((long)r.loguni(30000, most));
        }
        return c;
    },
    [](const Case& c) {
        std::string text = c.sv[0];
        if (c.iv.size() > 1) { size_t p = text.find('\1'), q = p == std::string::npos ? p : text.find('\1', p + 1); if (q != std::string::npos) { std::string u = text.substr(p + 1, q - p - 1), t = text.substr(0, p); t.reserve(t.size() + u.size() * c.iv[1] + text.size()); for (long i = 0; i < c.iv[1]; ++i) t += u; text = t + text.substr(q + 1); } }
        std::string path = infile(text);
        std::vector<std::string> av = {bin(c.kind.c_str(), c.iv[0])};
        for (size_t i = 1; i < c.sv.size(); ++i) { std::string s = c.sv[i]; if (s.compare(0, 2, "@F") == 0) s = path + s.substr(2); else if (s == "@MISSING") s = E.scratch + "/no/such/file"; else if (s == "@DIR") s = E.scratch; else if (s == "@LONG") s = std::string(6000, 'x'); av.push_back(s); }
        ProcOut o = run_proc(av, {}, 60); bool success = false;
        std::string why = outcome_ok(o, nullptr, &success);
        if (!why.empty()) return bad(c.kind + (c.iv[0] ? " (sanitized)" : ""), why, o);
        Res r; r.labels.push_back(c.kind + (success ? ":probability" : ":error")); if (c.iv[0]) r.labels.push_back("sanitized");
        r.nontrivial = !c.sv[0].empty();
        return r;
    }, shrink_fuzz,
    [](const std::string& path, long idx) {   // <target>-<number>, see AFL_TARGETS in run
        std::ifstream f(path); std::stringstream s; s << f.rdbuf(); int t = atoi(path.c_str() + path.rfind('/') + 1); bool mc = t == 4 || t == 5;
        Case c; c.fam = "coverage-guided"; c.kind = mc ? "crossprob_mc" : "crossprob"; c.iv = {idx % 2};
        static const char* CMD[8] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-mns2016", "ecdf", "poisson", "ecdf1-new", "ecdf2-ks2001"};
        c.sv = {s.str(), CMD[t & 7], "@F"}; if (mc) c.sv.push_back("3");
        return c;
    }});

// ------------------------------------------------------------------ C10, C11: Monte-Carlo estimates
static std::vector<std::string> at_second(long t) { return {"LD_PRELOAD=" + E.clock_so, "FAKE_TIME=" + std::to_string(t)}; }
static const double LOGP = -11;   // a single estimate alarms below 1e-10, twice in a row with independent seeds
static double mc_exact(const std::string& cmd, const V& b, const V& B) {
    int n = std::max(b.size(), B.size());
    if (cmd == "ecdf") { if (n == 0) return 1; if (!b.empty() && (int)b.size() < n) return 0; return n <= 120 ? (double)ref_ecdf_rel(n, b, B) : ref_ecdf_abs(n, b, B); }
    return ref_poisson(n, b, B);
}
struct Mc { bool ok = false; double p = 0; ProcOut o; std::string why; };
static Mc mc_run(const std::string& cmd, const V& b, const V& B, long N, long t, double timeout = 120) {
    Mc m; m.o = run_proc({bin("crossprob_mc"), cmd, infile(txt(b) + "\n" + txt(B) + "\n"), std::to_string(N)}, at_second(t), timeout);
    bool s = false; m.why = outcome_ok(m.o, &m.p, &s); if (m.why.empty() && !s) m.why = "fails on a valid file"; m.ok = m.why.empty(); return m;
}
// number of non-crossing simulations closest to the expectation that the printed estimate allows
static long k_near(double ph, long N, double expect) { double h = half_unit(ph) * 1.0001; double lo = (ph - h) * N, hi = (ph + h) * N; double k = std::round(expect); if (k < lo) k = std::ceil(lo - 1e-6); if (k > hi) k = std::floor(hi + 1e-6); return std::max(0L, std::min(N, (long)k)); }
static void mc_boundary(Rng& r, int n, bool poisson, V& b, V& B, std::string& fam) {
    std::string f; b.clear(); B.clear();
    int s = r.range(0, 9);
    if (s < 3) { b = gen_lower_pos(r, n, f); fam = "lower"; }
    else if (s < 6) { B = reflect(gen_lower_pos(r, n, f)); fam = "upper"; }
    else if (s < 8) { b = gen_lower_pos(r, n, f); V u = reflect(gen_lower_pos(r, n, f)); if (poisson || r.chance(.5)) { u.resize(r.range(0, n)); fam = "two-shorter"; } else fam = "two"; B = u; }
    else if (s == 8) { gen_two_sided(r, n, b, B, f); fam = "any"; if (r.chance(.4)) B.resize(r.range(0, n)); }
    else { b = gen_lower_pos(r, n, f); B = reflect(gen_lower_pos(r, n, f)); fam = "firstshort"; b.resize(r.range(0, n)); if (r.chance(.5)) b.clear(); }
    if (poisson && (s < 3 || s == 6)) { int k = std::min((int)b.size() - 1, (int)r.range(0, (long)(1.5 * std::sqrt(n)))); if (r.chance(.5)) for (int i = 0; i < (int)b.size(); ++i) b[i] = i >= k ? b[i - (r.chance(.2) ? 0 : 0)] * (1 - k / (2.0 * n)) : b[i]; fix(b); }
}
// large samples: boundaries with a closed form. iv: [N, second, n, form], dv: [parameter]
static double mc_large(const Case& c, bool poisson, V& b, V& B) {
    int n = c.iv[2]; double x = c.dv[0]; b.clear(); B.clear();
    auto at_most = [&](double mean, int k) { return boost::math::gamma_q(k + 1.0, mean); };
    switch (c.iv[3]) {
    case 0: b.assign(n, x / n); return poisson ? std::exp(-x) * at_most(n - x, n) : std::exp(n * std::log1p(-x / n));
    case 1: B.assign(n, 1 - x / n); return poisson ? 1 - at_most(n - x, n - 1) : std::exp(n * std::log1p(-x / n));
    case 2: { int k = n / 2 + (int)((x - 1.5) * .5 * std::sqrt(n)); B.assign(n, 1.0); for (int i = 0; i < k; ++i) B[i] = .5; if (!poisson) return binom_upper_tail(n, k, .5); B.resize(k); b.assign(n, 0.0);   // at least k before 1/2, at most n altogether
        double p = 0; for (int j = k; j <= n; ++j) p += boost::math::gamma_p_derivative(j + 1.0, n / 2.0) * at_most(n / 2.0, n - j); return p; }
    default: { int k = n / 2 + (int)((x - 1.5) * .5 * std::sqrt(n)); b.assign(n, 0.0); for (int i = k; i < n; ++i) b[i] = .5; if (!poisson) return 1 - binom_upper_tail(n, k + 1, .5);
        double p = 0; for (int j = 0; j <= k; ++j) p += boost::math::gamma_p_derivative(j + 1.0, n / 2.0) * at_most(n / 2.0, n - j); return p; } }
}
Res mc_check(const Case& c, const std::string& cmd) {
    Res r;
    if (c.kind == "single" || c.kind == "large") {
        Case wide; if (c.kind == "large") { double p = mc_large(c, cmd == "poisson", wide.b, wide.B); wide.dv = {p}; }
        const V &lower = c.kind == "large" ? wide.b : c.b, &upper = c.kind == "large" ? wide.B : c.B;
        double p = c.kind == "large" ? wide.dv[0] : mc_exact(cmd, c.b, c.B); long N = c.iv[0];
        for (int stage = 0; stage < 2; ++stage) {
            long M = stage ? std::min(4 * N, 900000L) : N;
            Mc m = mc_run(cmd, lower, upper, M, c.iv[1] + 7919 * stage);
            if (!m.ok) return bad("crossprob_mc " + cmd, m.why, m.o);
            long k = k_near(m.p, M, p * M);
            double lp = p <= 0 ? (k ? -999 : 0) : p >= 1 ? (k < M ? -999 : 0) : binom_two_sided_log10p(M, k, p);
            if (stage == 0) { r.nontrivial = p > 1e-3 && p < .999; r.labels.push_back(p < 1e-9 ? "p:0" : p < 1e-3 ? "p:small" : p < .999 ? "p:mid" : "p:high"); }
            if (lp >= LOGP) return r;
            r.why = fmt("crossprob_mc %s with %ld simulations prints %.6g, exact probability %.10g (tail probability 1e%.0f, seen twice)", cmd.c_str(), M, m.p, p, lp);
        }
        r.ok = false; return r;
    }
    // batch: pooled over boundaries of one family
    std::string last;
    for (int stage = 0; stage < 2; ++stage) {
        Rng g(rc::Random((uint64_t)c.iv[0])); double D = 0, S = 0; long total = 0;
        for (long i = 0; i < c.iv[1]; ++i) {
            V b, B; std::string f; int n; double p; int tries = 0;
            do { n = (int)g.loguni(1, c.iv[2]); mc_boundary(g, n, cmd == "poisson", b, B, f); p = mc_exact(cmd, b, B); } while ((f != c.sv[0] || p < .02 || p > .98) && ++tries < 200);
            if (p < .02 || p > .98) continue;
            long N = std::min(400000L, 2000000L / (n + 3));
            Mc m = mc_run(cmd, b, B, N, (long)(g.next() % 2000000000) + stage);
            if (!m.ok) return bad("crossprob_mc " + cmd, m.why, m.o);
            D += k_near(m.p, N, p * N) - p * N; S += p * (1 - p) * N; total += N;
        }
        r.labels.push_back("batch-runs"); if (S == 0) { r.nontrivial = false; return r; }
        double z = D / std::sqrt(S);
        if (std::fabs(z) < 7.5) return r;
        r.why = fmt("crossprob_mc %s over %ld boundaries of family '%s' (%ld simulations): estimates deviate from the exact probabilities by %.1f standard deviations, seen twice", cmd.c_str(), c.iv[1], c.sv[0].c_str(), total, z);
    }
    r.ok = false; return r;
}
Case mc_gen(Rng& r, long idx, bool poisson) {
    Case c;
    if (idx % 40 == 39) { static const char* F[] = {"lower", "upper", "two-shorter", "any", "lower", "upper", "two-shorter", "firstshort"}; c.kind = "batch"; c.sv = {F[(idx / 40) % 8]}; c.fam = "batch:" + c.sv[0]; c.iv = {(long)(r.next() >> 2), 25, r.pick(std::vector<long>{3, 12, 60})}; return c; }
    if (idx % 400 == 7) { c.kind = "large"; long n = r.chance(.3) ? r.pick(std::vector<int>{32768, 65536, 46341}) + r.range(0, 2) : (long)r.loguni(4000, 130000); c.iv = {std::max(50L, 20000000 / n), r.range(1000000, 2000000000), n, r.range(0, 3)}; c.dv = {r.uni(.2, 2.8)}; c.fam = "large"; return c; }
    c.kind = "single"; int n = r.chance(.02) ? (int)r.loguni(100, 2500) : r.chance(.5) ? 1 + (idx / 2) % 40 : (int)r.loguni(1, 80);
    mc_boundary(r, n, poisson, c.b, c.B, c.fam);
    if (r.chance(.01)) { c.b.clear(); c.B.clear(); c.fam = "unbounded"; }
    c.iv = {std::max(200L, std::min(300000L, r.range(1, 3) * 1500000 / (n + 4))), r.range(1000000, 2000000000)};
    return c;
}
static std::vector<Case> shrink_mc(const Case& c) { if (c.kind == "large") { std::vector<Case> o; for (long m : {c.iv[2] / 2, c.iv[2] * 9 / 10, c.iv[2] - 1000, c.iv[2] - 1}) if (m > 500) { Case d = c; d.iv[2] = m; o.push_back(d); } return o; } return c.kind == "single" ? shrink_lists(c) : std::vector<Case>(); }
static const char* MCRULE = "generated boundary (lower, upper, two lists, lists of unequal length, empty lists, closed forms up to n=130000), number of simulations and clock second; the estimate is tested against the exact probability (two-stage binomial test, first 1e-10, confirmed with 4 times the simulations), and batches of 25 boundaries are pooled (|z|<7.5 twice); non-trivial: exact probability in (0.001, 0.999)";
static Reg c10({"C10", MCRULE, 5000, 80000, [](Rng& r, long idx) { return mc_gen(r, idx, false); }, [](const Case& c) { return mc_check(c, "ecdf"); }, shrink_mc});
static Reg c11({"C11", MCRULE, 5000, 80000, [](Rng& r, long idx) { return mc_gen(r, idx, true); }, [](const Case& c) { return mc_check(c, "poisson"); }, shrink_mc});

// ------------------------------------------------------------------ C12: Monte-Carlo runs
static Reg c12({"C12", "generated boundary, number of simulations and clock second (clock replaced by preloading): same output in another environment (memory contents, stack layout, file name); k/N granularity; certain and impossible events, N up to beyond 2^31; malformed N; scatter and serial correlation over consecutive seconds; scatter of runs of up to 4 million simulations; different streams at seconds differing by a power of two or a usual unit of time; non-trivial: all but certain/impossible events with N < 1000",
    6000, 60000,
    [](Rng& r, long idx) {
        Case c; static const char* K[] = {"same", "granular", "certain", "badN", "same", "granular", "scatter", "pow2"};
        c.kind = K[idx % 8]; c.sv = {r.chance(.5) ? "ecdf" : "poisson"}; bool poisson = c.sv[0] == "poisson";
        int n = (int)r.loguni(1, 60); if (r.chance(.02)) n = (int)r.loguni(1000, 4000); std::string f;
        mc_boundary(r, n, poisson, c.b, c.B, f);
        long t = r.range(1000000, 2000000000), N = (long)r.loguni(1, 3000);
        if (idx < 2) { c.kind = "certain"; c.sv[0] = idx ? "poisson" : "ecdf"; c.b = {1.0}; c.B.clear(); if (idx) c.b.clear(), c.B = {0.0}; N = 2147483648L + 1000; t = 1234567890; }
        else if (c.kind == "certain") { // exactly 1 or exactly 0
            bool one = r.chance(.5); n = r.range(1, 5); c.b.clear(); c.B.clear();
            if (poisson) { if (one) { if (r.chance(.5)) c.b.assign(150, 0.0); else n = 0; } else { c.B.assign(n, 0.0); if (r.chance(.5)) c.b.assign(n, 0.0); } }
            else if (one) { if (r.chance(.5)) c.b.assign(n, 0.0); else c.B.assign(n, 1.0); if (r.chance(.3)) { c.b.assign(n, 0.0); c.B.assign(n, 1.0); } }
            else { if (r.chance(.5)) c.b.assign(n, 1.0); else c.B.assign(n, 0.0); }
            if (poisson && one && !c.b.empty()) c.b.clear();   // P(more than |b| jumps) > 0: not certain
            N = r.chance(.02) ? (1L << 24) + r.range(1, 1 << 22) : r.chance(.2) ? r.range(65000, 70000) : (long)r.loguni(1, 3000);
        }
        else if (c.kind == std::string("granular")) N = r.chance(.7) ? r.range(1, 60) : (long)r.loguni(1, 40000);
        else if (c.kind == std::string("scatter") || c.kind == std::string("pow2")) {
            n = r.range(1, 4); std::string g; int tries = 0; double p;
            do { mc_boundary(r, n, poisson, c.b, c.B, g); p = mc_exact(c.sv[0], c.b, c.B); } while ((p < .2 || p > .8) && ++tries < 500);
            if (p < .2 || p > .8) { c.b.clear(); c.B = {poisson ? .7 : .5}; }
            if (c.kind == std::string("scatter")) {
                N = r.range(50, 1000); long K = 48;
                if (r.chance(.08)) { N = (long)r.loguni(1 << 16, 1 << 22); K = 32; if (n > 2) { n = 1; c.b.clear(); c.B = {poisson ? .7 : .5}; } }   // long runs go on drawing fresh numbers
                c.iv = {N, t, r.pick(std::vector<long>{1, 1, 1, 2, 60, 3600, 86400}), K};
            } else c.iv = {50000, t, r.chance(.7) ? 1L << r.range(0, 30) : r.pick(std::vector<long>{3, 5, 7, 9, 10, 12, 15, 24, 30, 60, 90, 99, 100, 120, 144, 255, 257, 300, 365, 500, 600, 720, 900, 999, 1000, 1440, 1800, 3600, 5400, 7200, 10000, 14400, 18000, 21600, 43200, 65535, 65537, 86400, 100000, 172800, 604800, 1000000, 2592000, 31536000, 31622400, 100000000})};
            return c;
        }
        else if (c.kind == std::string("badN")) { static const std::vector<std::string> T = {"0", "-1", "-7", "", "abc", "5x", "1.5", "1e3", "0x10", "--5", "99999999999999999999", "-99999999999999999999", "9223372036854775808", "-9223372036854775808", "nan", "inf", "1,000", "10 0", "1_0", "-", "+", "00", "-0", "5.", "٣", "1e", "0.0"}; c.sv.push_back(r.chance(.8) ? r.pick(T) : std::to_string(-r.range(0, 100000))); }
        if (c.kind == std::string("same") && r.chance(.06)) N = (long)r.loguni(2e6, 1.2e7) / std::max(c.b.size(), std::max(c.B.size(), (size_t)1));   // long enough for a clock that is read again to show another time
        c.iv = {N, t, r.range(0, 255), r.range(0, 3000)};
        return c;
    },
    [](const Case& c) {
        const std::string& cmd = c.sv[0]; long N = c.iv[0], t = c.iv[1]; Res r;
        if (c.kind == "badN") {
            ProcOut o = run_proc({bin("crossprob_mc"), cmd, infile(txt(c.b) + "\n" + txt(c.B) + "\n"), c.sv[1]}, at_second(t), 30);
            bool s = false; std::string why = outcome_ok(o, nullptr, &s);
            if (!why.empty()) return bad("crossprob_mc " + cmd + " with '" + c.sv[1] + "' simulations", why, o);
            if (s) return bad("crossprob_mc " + cmd, "accepts '" + c.sv[1] + "' as number of simulations", o);
            return r;
        }
        if (c.kind == "scatter") {
            double p = mc_exact(cmd, c.b, c.B); long K = c.iv[3], step = c.iv[2];
            for (int stage = 0; stage < 2; ++stage) {
                double chi = 0, lag = 0, prev = 0, sum = 0; std::vector<double> est; std::set<double> vals; Mc m;
                for (long i = 0; i < K; ++i) { m = mc_run(cmd, c.b, c.B, N, t + i * step + stage * 100000007L); if (!m.ok) return bad("crossprob_mc " + cmd, m.why, m.o); double z = (k_near(m.p, N, std::round(m.p * N)) - N * p) / std::sqrt(N * p * (1 - p)); chi += z * z; sum += z; if (i) lag += z * prev; prev = z; vals.insert(m.p); }
                // Wilson-Hilferty; z-scores of chi-square, lag-1 product and mean
                double wh = (std::cbrt(chi / K) - (1 - 2.0 / (9 * K))) / std::sqrt(2.0 / (9 * K)), zl = lag / std::sqrt((double)K - 1), zs = sum / std::sqrt((double)K);
                if (std::fabs(wh) < 7 && std::fabs(zl) < 7.5 && std::fabs(zs) < 7.5) return r;
                r.why = fmt("estimates of crossprob_mc %s (%ld simulations each, exact probability %.6g) at %ld seconds with step %ld do not scatter like independent binomial frequencies: chi-square %.1f (z=%.1f), serial z=%.1f, mean z=%.1f, %zu different values; seen twice", cmd.c_str(), N, p, K, step, chi, wh, zl, zs, vals.size());
            }
            r.ok = false; return r;
        }
        if (c.kind == "pow2") {
            long d = c.iv[2];
            for (int i = 0; i < 8; ++i) {
                Mc a = mc_run(cmd, c.b, c.B, N, t + i * 977), b = mc_run(cmd, c.b, c.B, N, t + i * 977 + d);
                if (!a.ok) return bad("crossprob_mc " + cmd, a.why, a.o); if (!b.ok) return bad("crossprob_mc " + cmd, b.why, b.o);
                if (a.p != b.p) return r;
            }
            return Res::fail(fmt("crossprob_mc %s gives identical estimates at seconds differing by %ld (8 of 8 times)", cmd.c_str(), d));
        }
        Mc a = mc_run(cmd, c.b, c.B, N, t, N > 100000000 ? 600 : 120);
        if (!a.ok) return bad("crossprob_mc " + cmd, a.why, a.o);
        // a multiple of 1/N, to six digits
        { double k = std::round(a.p * N); if (N <= 100000 && !(std::fabs(k / N - a.p) <= 1.001 * half_unit(a.p) + 1e-15)) return bad("crossprob_mc " + cmd, fmt("prints %.6g, which is no multiple of 1/%ld", a.p, N), a.o); }
        if (c.kind == "certain") {
            double p = mc_exact(cmd, c.b, c.B); r.nontrivial = N >= 1000; if (N > 1000000) r.labels.push_back(N > 2147483647 ? "N>2^31" : "N>2^24");
            if ((p == 0 && a.p != 0) || (p == 1 && a.p != 1)) return bad("crossprob_mc " + cmd, fmt("with %ld simulations of an event of probability %g", N, p), a.o);
            return r;
        }
        if (c.kind == "same") {
            std::string f2 = E.scratch + "/another-name-for-the-same-file.txt"; write_file(f2, txt(c.b) + "\n" + txt(c.B) + "\n");
            auto env = at_second(t); env.push_back("MALLOC_PERTURB_=" + std::to_string(c.iv[2])); env.push_back("PADDING=" + std::string(c.iv[3] + 1, 'x'));
            static const char* ZONE[] = {"UTC0", "JST-9", "EST5EDT", "XXX-5:45", "Europe/Berlin", ":nowhere"}; uint64_t q = hash64(c.str());
            for (std::string v : {std::string("TZ=") + ZONE[q % 6], fmt("FAKE_NSEC=%ld", (long)(q / 7 % 1000000000)), std::string("FAKE_ADVANCE=1"), std::string("HOME=/nonexistent"), std::string("USER=someone"), std::string("HOSTNAME=elsewhere"), std::string("OMP_NUM_THREADS=3"), std::string("TMPDIR=/nonexistent"), std::string(q & 1 ? "LC_ALL=de_DE.UTF-8" : "LC_ALL=C.UTF-8"), "LOCPATH=" + E.clock_so.substr(0, E.clock_so.rfind('/') + 1) + "locale"}) env.push_back(v);
            ProcOut o = run_proc({"/usr/bin/env", "-C", q & 2 ? "/" : E.scratch, bin("crossprob_mc"), cmd, f2, std::to_string(N)}, env, 120); unlink(f2.c_str());
            if (o.out != a.o.out || o.exit != 0) return bad("crossprob_mc " + cmd, "at the same second with the same input in another environment prints something else than '" + trim(a.o.out) + "'", o);
        }
        return r;
    },
    [](const Case& c) { std::vector<Case> o; if (c.kind == "same" || c.kind == "granular" || c.kind == "badN") o = shrink_lists(c); if (c.kind != "pow2" && c.kind != "scatter" && c.iv[0] < 100000000) for (long N : {1L, 2L, 10L, c.iv[0] / 2}) if (N > 0 && N < c.iv[0]) { Case d = c; d.iv[0] = N; o.push_back(d); } return o; }});

// ------------------------------------------------------------------ C14: memory
static Reg c14({"C14", "generated valid boundary of every size (0..400 swept, special sizes up to 3500) for each library function in C++ and through both builds of the Python module (lists, tuples, vectors), and for both programs, some with invalid lists, under AddressSanitizer+UndefinedBehaviorSanitizer(+leaks), one in sixty runs of the programs under Valgrind Memcheck (uninitialised values); the value is also compared with the unsanitized library; non-trivial: at least one entry strictly inside (0,1)",
    9000, 160000,
    [](Rng& r, long idx) {
        Case c; long k = idx % 60; int n = (idx / 10) % 401; std::string f;
        c.kind = k < 38 ? "lib" : k < 44 ? "python" : k < 50 ? "crossprob" : k < 58 ? "crossprob_mc" : k == 58 ? "valgrind" : "valgrind-mc";
        if (k == 0) n = r.chance(.5) ? 1024 * r.range(1, 3) + r.range(-2, 2) : (int)r.loguni(400, 3500); else if (k < 6) { int q = r.range(1, 45); n = r.chance(.5) ? q * q + r.range(-1, 1) : 128 * r.range(1, 12) + r.range(-2, 2); }
        if (c.kind.compare(0, 4, "valg") == 0) n = (int)r.loguni(1, 60); if (c.kind == "crossprob_mc") n = r.chance(.1) ? n : (int)r.loguni(1, 80) - r.chance(.1);
        n = std::max(0, n); long fn = r.range(0, 5); if (n > 450 && (fn == KS2 || fn >= MNS_b)) fn = r.pick(std::vector<long>{1, 2, 3}); if (n > 260 && fn >= MNS_b) n = 260;
        bool mc = c.kind == "crossprob_mc" || c.kind == "valgrind-mc";
        if (mc) { if (n) mc_boundary(r, n, r.chance(.5), c.b, c.B, f); c.sv = {r.chance(.5) ? "ecdf" : "poisson", std::to_string(r.range(1, 8))}; if (r.chance(.01) && n) { n = r.range(2000, 3000); c.b = gen_lower(r, n, f); c.B.clear(); } }
        else if (fn <= FFT2) { if (n) gen_two_sided(r, n, c.b, c.B, c.fam); c.fam = c.fam.substr(0, c.fam.find(':')); if (c.kind != "lib" && c.kind != "python") { if (r.chance(.2)) c.b.clear(); else if (r.chance(.2)) c.B.clear(); } }
        else { V v = gen_lower(r, n, c.fam); if (fn == NEW_b || fn == MNS_b) c.b = v; else c.B = reflect(v); }
        long bad = 0; if ((c.kind == "lib" || c.kind == "python") && r.chance(.15)) {
            bad = 1; V& v = fn == NEW_B || fn == MNS_B || (fn <= FFT2 && r.chance(.5)) ? c.B : c.b;
            if (fn <= FFT2 && r.chance(.4)) { if (r.chance(.3)) v.clear(); else if (r.chance(.5) && !v.empty()) v.resize(r.range(0, v.size() - 1)); else v.resize(v.size() + r.range(1, 300), v.empty() ? .5 : v.back()); }
            else spoil(r, v, f);
        }
        c.iv = {fn, r.chance(.04), bad, c.kind == "python" ? (long)r.range(0, 5) | (long)r.range(0, 5) << 4 : 0, r.chance(.3)};
        return c;
    },
    [](const Case& c) {
        int fn = c.iv[0]; Res r; r.nontrivial = false; bool invalid = c.iv.size() > 2 && c.iv[2]; for (const V* v : {&c.b, &c.B}) for (double x : *v) if (x > 0 && x < 1) r.nontrivial = true;
        if (c.kind == "python") {
            int w = c.iv[4]; if (E.pysut_san[w].empty()) { r.nontrivial = false; r.labels.push_back("no sanitized module"); return r; }
            Outcome o = sut_py_san(w).call(fn, c.b, c.B, c.iv[3]);
            if (invalid ? o.kind >= Outcome::CRASH : !o.finite()) { r.ok = false; r.hang = o.kind == Outcome::HANG; r.why = fmt("the Python module's %s under sanitizers with %zu/%zu entries: %s", FN_NAME[fn], c.b.size(), c.B.size(), o.show().c_str()); return r; }
            if (std::max(c.b.size(), c.B.size()) <= 150 && hash64(c.str()) % 3 == 0) {   // calls that leave something behind do so every time
                r.labels.push_back("repeated in Python"); uint64_t h = 0; int grown = 0;
                for (int i = 0; i < 400; ++i) { uint64_t g = sut_py_san(w).call(fn, c.b, c.B, c.iv[3]).heap; grown = i > 3 && g >= h + 8 ? grown + 1 : 0; h = g; if (i >= 9 && grown < 5) break; }
                if (grown >= 300) { r.ok = false; r.why = fmt("the Python module's %s with %zu/%zu entries takes more memory with every call (%d calls in a row)", FN_NAME[fn], c.b.size(), c.B.size(), grown); return r; }
            }
            Outcome q = sut_native().call(fn, c.b, c.B); if (o.kind == Outcome::OTHER_ERROR) o.kind = Outcome::RUNTIME_ERROR; if (q.kind == Outcome::OTHER_ERROR) q.kind = Outcome::RUNTIME_ERROR;
            if (o.kind != q.kind || (o.finite() && std::fabs(o.value - q.value) > 1e-9)) { r.ok = false; r.why = fmt("%s: %s, but %s through the Python module built with sanitizers", FN_NAME[fn], q.show().c_str(), o.show().c_str()); }
            return r;
        }
        if (c.kind == "lib") {
            Sut own(E.sut_san, {}, 180); bool alone = c.iv.size() > 1 && c.iv[1];
            Outcome o = (alone ? own : sut_san()).call(fn, c.b, c.B);
            if (alone && o.finite()) { r.labels.push_back("server ended after the call"); std::string s = own.stop(); if (!s.empty()) { r.ok = false; r.why = fmt("%s under sanitizers with %zu/%zu entries, at the end of the process: ", FN_NAME[fn], c.b.size(), c.B.size()) + s; return r; } }
            if (invalid ? o.kind >= Outcome::CRASH : !o.finite()) { r.ok = false; r.hang = o.kind == Outcome::HANG; r.why = fmt("%s under sanitizers with %zu/%zu entries: %s", FN_NAME[fn], c.b.size(), c.B.size(), o.show().c_str()); return r; }
            Outcome q = sut_native().call(fn, c.b, c.B);
            if (invalid ? q.kind != o.kind : !q.finite() || std::fabs(o.value - q.value) > 1e-9) { r.ok = false; r.why = fmt("%s: %s, but %s when built with sanitizers", FN_NAME[fn], q.show().c_str(), o.show().c_str()); }
            return r;
        }
        bool mc = c.kind == "crossprob_mc" || c.kind == "valgrind-mc", vg = c.kind.compare(0, 4, "valg") == 0;
        std::string f = infile(txt(c.b) + "\n" + txt(c.B) + "\n"); std::vector<std::string> av;
        if (vg) av = {"/usr/bin/valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite", E.vgdir + "/" + (mc ? "crossprob_mc" : "crossprob")};
        else av = {bin(mc ? "crossprob_mc" : "crossprob", true)};
        if (mc) { av.push_back(c.sv[0]); av.push_back(f); av.push_back(c.sv[1]); } else { av.push_back(ALGO[fn]); av.push_back(f); }
        bool applicable = mc || (fn <= FFT2 ? c.b.empty() || c.B.empty() || c.b.size() == c.B.size() : c.b.empty() != c.B.empty());
        ProcOut o = run_proc(av, {}, 180); bool s = false; std::string why = outcome_ok(o, nullptr, &s);
        if (why.empty() && vg && o.exit == 99) why = "makes Memcheck report an error";
        if (why.empty() && applicable && !s) why = "fails on a valid file";
        if (!why.empty()) return bad(c.kind, why, o);
        return r;
    }, shrink_lists});

// ------------------------------------------------------------------ C15: histories
// sv: one op per entry: "<fn> <generator seed> <n> <invalid> <variation>"; iv: [malloc perturb, number of calls or repetitions, order seed]
static void vary(Rng& r, V& v, int how) {   // a list that much resembles another one
    size_t n = v.size(); if (!n) return; size_t i = r.next() % n, j = r.next() % n; double d;
    switch (how) {
    case 1: v[i] = v[i] * .5 + .5 * (i ? v[i - 1] : 0); break;                                            // one entry
    case 2: d = std::min(v[i] - (i ? v[i - 1] : 0), (j + 1 < n ? v[j + 1] : 1) - v[j]) * .5; v[i] -= d; v[j] += d; break;  // same sum
    case 3: for (size_t k = 1; k + 1 < n; ++k) v[k] = v[0] + (v[k] - v[0]) * .9; break;                      // same ends
    case 4: for (double& x : v) x *= 1 - 1e-7; break;
    case 5: v = reflect(v); break;
    case 6: for (size_t k = n / 2; k < n; ++k) v[k] = v[n / 2]; break;                                      // same first half
    case 7: for (size_t k = 0; k < n / 2; ++k) v[k] = 0; break;                                              // same second half
    case 8: v[n - 1] = 1; break;
    default: v[0] = 0; }
    fix(v);
}
Op mkop(const std::string& s) {
    Op o; unsigned long long sd; int var = 0; sscanf(s.c_str(), "%d %llu %d %d %d", &o.fn, &sd, &o.n, &o.inv, &var); o.seed = sd;
    Rng r(rc::Random(o.seed)); std::string f;
    // for one seed the functions get the same lower list, or its reflection
    if (o.n) { Rng q(rc::Random(o.seed + 1)); if (o.seed % 3) gen_two_sided(q, o.n, o.b, o.B, f); else { o.b = gen_lower(q, o.n, f); o.B = reflect(gen_lower(q, o.n, f)); } }
    if (var) { Rng q(rc::Random(o.seed * 31 + var)); if (var % 2) vary(q, o.b, var / 2); else vary(q, o.B, var / 2); if (var > 20) vary(q, o.b, var / 2 - 10); }
    if (o.fn == NEW_b || o.fn == MNS_b) o.B.clear(); else if (o.fn > FFT2) o.b.clear();
    if (o.inv == 1) spoil(r, o.fn == NEW_B || o.fn == MNS_B ? o.B : o.b, f);
    if (o.inv == 2 && o.fn <= FFT2 && o.n) o.b.pop_back();
    return o;
}
static std::map<std::string, Outcome>& memo() { static std::map<std::string, Outcome> m; return m; }
// the result of a call made first in a fresh process
const Outcome& alone(const std::string& s) {
    auto it = memo().find(s); if (it != memo().end()) return it->second;
    if (memo().size() > 200000) memo().clear();
    Op o = mkop(s); Sut f(E.sut); Outcome x = f.call(o.fn, o.b, o.B); f.stop();
    return memo()[s] = x;
}
static Reg c15({"C15", "generated sequence of 2..40 library calls (mixed functions, sizes 0..1200, repeated inputs, inputs that differ from an earlier one in one entry, the ends, the sum or the algorithm only, invalid inputs) in one process with perturbed heap contents (some in threads of their own or in forked processes), or up to 3000 calls drawn from a pool of up to 400, each result compared with the same call made first in a fresh process; short sequences are repeated and heap in use must not grow; non-trivial: at least two different sizes or functions",
    6000, 60000,
    [](Rng& r, long idx) {
        Case c; c.kind = idx % 12 == 11 ? "long" : idx % 6 == 4 ? "heap" : "sequence"; bool lng = c.kind == "long", many = lng && r.chance(.15); int k = many ? (int)r.loguni(40, 400) : lng ? r.range(2, 16) : c.kind == "heap" ? r.range(1, 6) : (int)r.loguni(2, 40);
        std::vector<std::string> pool; long big = r.chance(.3) ? 1200 : 300;
        for (int i = 0; i < k; ++i) {
            if (!pool.empty() && !lng && r.chance(.2)) { c.sv.push_back(r.pick(pool)); continue; }
            int fn = r.range(0, 5), inv = r.chance(.15) ? (int)r.range(1, 2) : 0, var = 0; unsigned long long seed = r.next() % 5000;
            int n = r.chance(.03) ? 0 : (int)r.loguni(1, many ? 400 : lng ? 12 : (fn == KS2 || fn >= MNS_b) ? 250 : big); if (r.chance(lng ? .05 : .15)) n = 128 + r.range(-2, 2);
            if (!pool.empty() && r.chance(many ? .1 : .5)) { // a relative of an earlier call
                int f0, n0, i0, v0; sscanf(r.pick(pool).c_str(), "%d %llu %d %d %d", &f0, &seed, &n0, &i0, &v0);
                n = n0; if (r.chance(.7)) fn = f0; else if (n > 250) fn = r.range(1, 3);
                if (r.chance(.8)) var = r.range(1, 29); inv = r.chance(.1);
            }
            std::string s = fmt("%d %llu %d %d %d", fn, seed, n, inv, var);
            pool.push_back(s); c.sv.push_back(s);
        }
        c.iv = {r.range(0, 255), lng ? (long)r.loguni(200, 3000) : 3, (long)(r.next() >> 2), r.chance(lng ? .1 : .3)}; if (c.kind == "sequence" && r.chance(.25)) c.iv[3] = r.range(2, 4);
        return c;
    },
    [](const Case& c) {
        Res r; std::vector<std::string> env = {"MALLOC_PERTURB_=" + std::to_string(c.iv[0])}; bool threads = c.iv.size() > 3 && c.iv[3] == 1; if (c.iv.size() > 3 && c.iv[3] > 1) { env.push_back("SUT_FORK=" + std::to_string(c.iv[3])); r.labels.push_back("some calls in forked processes"); } if (threads) { env.push_back("SUT_THREADS=1"); r.labels.push_back("each call in its own thread"); }
        Sut s(E.sut, env); std::set<std::string> kinds;
        auto one = [&](const Op& o, Sut& t) { return t.call(o.fn, o.b, o.B); };
        uint64_t heap[32] = {0}; bool lng = c.kind == "long";
        int reps = c.kind == "heap" ? 28 : 1; std::vector<Op> ops; for (auto& x : c.sv) ops.push_back(mkop(x));
        Rng order(rc::Random((uint64_t)(c.iv.size() > 2 ? c.iv[2] : 0)));
        for (int rep = 0; rep < reps; ++rep)
            for (size_t call = 0; call < (lng ? (size_t)c.iv[1] : ops.size()); ++call) {
                size_t i = lng ? order.next() % ops.size() : call;
                Outcome a = one(ops[i], s); kinds.insert(fmt("%d/%d", ops[i].fn, ops[i].n));
                heap[rep] = a.heap;
                const Outcome& b = alone(c.sv[i]);
                bool same = a.kind == b.kind && (a.kind != Outcome::OK || std::fabs(a.value - b.value) <= 1e-10 || (std::isnan(a.value) && std::isnan(b.value))) && (a.kind == Outcome::OK || a.kind >= Outcome::CRASH || a.msg == b.msg);
                if (a.kind == Outcome::CRASH || a.kind == Outcome::HANG) same = false;
                if (!same) { r.ok = false; r.hang = a.kind == Outcome::HANG; r.why = fmt("call %zu of the sequence, %s with n=%d: %s, but %s when called first in a fresh process", call + 1, FN_NAME[ops[i].fn], ops[i].n, a.show().c_str(), b.show().c_str()); memo().clear(); return r; }
            }
        // tables of the FFT planner, and unused ends of blocks, may grow now and then for some hundred repetitions; a leak goes on in every window
        if (c.kind == "heap") {
            bool leak = true; for (int k = 7; k < reps; k += 4) leak &= heap[k] > heap[k - 4];
            if (leak) {
                uint64_t mark[8]; int k = 0; const int W = 100;
                for (int rep = 0; rep <= 7 * W && leak; ++rep) {
                    uint64_t h = 0; for (const Op& o : ops) h = one(o, s).heap;
                    if (rep % W == 0) { mark[k++] = h; if (k > 1) leak &= h >= mark[k - 2] + 8 * W; }
                }
                if (leak) { r.ok = false; r.why = fmt("heap in use grows with every repetition of the sequence: %llu bytes after 28 repetitions, %llu after 128, %llu after 728", (unsigned long long)mark[0], (unsigned long long)mark[1], (unsigned long long)mark[7]); }
            }
        }
        r.nontrivial = kinds.size() > 1;
        return r;
    },
    [](const Case& c) { std::vector<Case> o; size_t n = c.sv.size();
        if (c.kind == "long") { for (long k : {c.iv[1] / 10, c.iv[1] / 2, c.iv[1] * 9 / 10, c.iv[1] - 1}) if (k > 0 && k < c.iv[1]) { Case d = c; d.iv[1] = k; o.push_back(d); } }
        for (size_t len = n / 2; len >= 1; len /= 2) for (size_t at = 0; at < n; at += len) { if (n - len < 1) continue; Case d = c; d.sv.erase(d.sv.begin() + at, d.sv.begin() + std::min(n, at + len)); if (!d.sv.empty()) o.push_back(d); } return o; }});

std::string end_of_run_check() { if (E.prop == "C14" && sut_san().running()) { std::string s = sut_san().stop(); if (!s.empty()) return "the sanitized server reports at its end (leaks of the calls made): " + s; } return ""; }
