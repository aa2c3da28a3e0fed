// C17: failing allocations, reads and writes (injected by faults.c, or real: /dev/full, closed descriptors, file size limits)
#include "core.hh"
#include <algorithm>
#include <fstream>
#include <unistd.h>
static const char* COMMAND[6] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-new", "ecdf1-mns2016", "ecdf1-mns2016"};
static std::string join(const V& v, const std::string& sep) { std::string o; for (size_t i = 0; i < v.size(); ++i) { if (i) o += sep; o += fmt("%.17g", v[i] < 1e-300 ? 0 : v[i]); } return o; }
static bool prints_number(const std::string& out) {
    size_t p = 0;
    while (p < out.size()) { size_t q = std::min(out.find('\n', p), out.size()); std::string s = out.substr(p, q - p); char* e; if (!s.empty()) { strtod(s.c_str(), &e); if (e != s.c_str() && !*e) return true; } p = q + 1; }
    return false;
}
static const std::vector<std::string> KINDS = {"library", "library", "library", "python", "python-regenerated", "memory", "memory", "read", "read", "write"};
// iv: function, fault mode, fault parameter, simulations (0: crossprob), final newline; sv: mc command, separator, write target
static Reg c17({"C17", "generated boundaries and boundary files; one fault per case: an allocation of the library, a Python call or a program fails (by number, from a number on, or by size), reading the file fails after a drawn number of bytes or comes in small or interrupted pieces, the result cannot be written (full device, closed descriptor, size limit), or standard input or error is closed; compared with the same run without the fault; non-trivial: the fault took effect",
    40000, 400000,
    [](Rng& r, long idx) {
        Case c; c.kind = KINDS[idx % KINDS.size()]; long fn = r.range(0, 5); bool lib = c.kind == "library" || c.kind[0] == 'p';
        int n = r.chance(.5) ? r.range(1, 8) : r.chance(.7) ? (int)r.loguni(5, 200) : (int)r.loguni(100, fn == KS2 || fn >= MNS_b ? 300 : 1500);
        if (c.kind[0] == 'p') n = (int)r.loguni(1, 700);
        std::string f;
        if (fn <= FFT2) gen_two_sided(r, n, c.b, c.B, f); else { V v = gen_lower(r, n, f); if (fn == NEW_b || fn == MNS_b) c.b = v; else c.B = reflect(v); }
        long mode = 0, k = 0, N = 0;
        if (c.kind == "library") { mode = r.range(1, 3); k = mode == 3 ? (long)r.loguni(1, 4000) : r.range(1, 24); }
        else if (lib) {   // in units of 16 bytes; converting the arguments must not fail: it takes 8 bytes times the next power of two
            mode = 3; k = (long)std::max(256.0, 4.0 * n + 64) * r.pick(std::vector<long>{1, 1, 2, 4});
            if (n >= 64 && r.chance(.6)) { long cap = 64; while (cap < n) cap *= 2; k = cap / 2 + 1; }
        }
        else {
            if (r.chance(.4)) N = (long)r.loguni(1, 2000);
            if (c.kind == "memory") { mode = r.chance(.75) ? 1 : 3; k = mode == 1 ? (long)(r.next() >> 20) : (long)r.loguni(256, 100000); }
            else if (c.kind == "read") { mode = r.range(1, 4); k = mode == 1 ? r.range(1, 3) : mode == 4 ? (long)(r.next() >> 20) : (long)r.loguni(1, 300); }
            else mode = r.range(0, 5);
        }
        c.iv = {fn, mode, k, N, r.chance(.7), r.chance(.15)};
        c.sv = {r.chance(.5) ? "ecdf" : "poisson", r.pick(std::vector<std::string>{",", ", ", " ,  ", ",              "})};
        return c;
    },
    [](const Case& c) {
        Res r; int fn = c.iv[0]; long mode = c.iv[1], k = c.iv[2]; r.nontrivial = false;
        if (c.kind == "library" || c.kind[0] == 'p') {
            Sut& s = c.kind == "library" ? sut_faulty() : sut_py_faulty(c.kind != "python");
            std::string who = c.kind + " " + FN_NAME[fn];
            static const char* after[3] = {"", "after an allocation has failed", "after an allocation has failed again"};
            Outcome base; double hits = 0;
            for (int i = 0; i < 3; ++i) {
                Outcome o = s.call(fn, c.b, c.B);
                if (i == 0) { base = o; if (o.kind != Outcome::OK) { r.labels.push_back("failed without a fault"); return r; } }
                else if (o.kind != Outcome::OK || !(std::fabs(o.value - base.value) <= 1e-10)) { Res q = Res::fail(who + " " + after[i] + ": " + o.show() + ", before: " + base.show()); q.hang = o.kind == Outcome::HANG; return q; }
                if (i == 2) break;
                Outcome q = s.call(fn, c.b, c.B, (uint64_t)mode << 22 | (uint64_t)k);
                hits += q.hit;
                if (q.kind == Outcome::CRASH || q.kind == Outcome::HANG) { Res x = Res::fail(who + " when an allocation fails: " + q.show()); x.hang = q.kind == Outcome::HANG; return x; }
                if (q.kind == Outcome::OK && !(std::fabs(q.value - base.value) <= 1e-10)) return Res::fail(who + " when an allocation fails: " + q.show() + ", otherwise " + base.show());
                if (q.kind != Outcome::OK && !q.hit) return Res::fail(who + " fails without a fault: " + q.show());
                if (q.hit) r.labels.push_back(q.kind == Outcome::OK ? "survived" : "exception");
            }
            r.nontrivial = hits > 0;
            return r;
        }
        std::string data = join(c.b, c.sv[1]) + "\n" + join(c.B, c.sv[1]) + (c.iv[4] || c.B.empty() ? "\n" : ""), in = E.scratch + "/fault-in", rep = E.scratch + "/fault-report";
        if (c.iv[5]) data += std::string(9000, 'x');   // the file goes on after the two lines
        bool mc = c.iv[3] > 0;
        write_file(in, data);
        std::vector<std::string> argv = {E.bindir + (mc ? "/crossprob_mc" : "/crossprob"), mc ? c.sv[0] : COMMAND[fn], in}; if (mc) argv.push_back(std::to_string(c.iv[3]));
        auto env = [&](std::vector<std::string> more) { more.push_back("LD_PRELOAD=" + E.clock_so + ":" + E.faults_so); more.push_back("FAKE_TIME=1700000000"); more.push_back("VERIF_FAULT_REPORT=" + rep); unlink(rep.c_str()); return more; };
        auto report = [&](uint64_t& hit, uint64_t& seen) { hit = seen = 0; std::ifstream f(rep); return bool(f >> hit >> seen); };
        ProcOut base = run_proc(argv, env({fmt("VERIF_ALLOC_FAULT=1 %lu", 1ul << 40)}), 60); uint64_t hit, seen;
        std::string who = (mc ? "crossprob_mc " : "crossprob ") + argv[1];
        if (base.exit || base.sig || !report(hit, seen)) { r.labels.push_back("failed without a fault"); return r; }
        ProcOut o; std::string fault; bool must_fail = false, must_succeed = false;
        if (c.kind == "memory") {
            uint64_t at = mode == 1 ? 1 + (uint64_t)k % std::max<uint64_t>(1, seen) : (uint64_t)k;
            o = run_proc(argv, env({fmt("VERIF_ALLOC_FAULT=%ld %lu", mode, at)}), 60);
            fault = mode == 1 ? fmt("when allocation %lu of %lu fails", at, seen) : fmt("when allocations of %lu bytes or more fail", at);
        } else if (c.kind == "read") {
            long at = mode == 4 ? (long)((uint64_t)k % (data.size() + 1)) : k;
            o = run_proc(argv, env({"VERIF_READ_FILE=" + in, fmt("VERIF_READ_FAULT=%ld %ld", mode, at)}), 60);
            must_succeed = mode == 2 || mode == 3;
            fault = mode == 1 ? fmt("when read %ld of the file fails", at) : mode == 4 ? fmt("when the file cannot be read after byte %ld", at) : fmt("when reads of the file give at most %ld bytes%s", at, mode == 3 ? " and are interrupted" : "");
        } else {
            static const char* HOW[6] = {"exec \"$@\" >/dev/full", "exec \"$@\" >&-", "trap '' XFSZ; ulimit -f 0; exec \"$@\" >\"$0\"", "exec \"$@\" <&-", "exec \"$@\" 2>&-", "exec \"$@\" 2>/dev/full"};
            static const char* NAME[6] = {"when its output is a full device", "when its output is closed", "when its output exceeds a size limit", "when its input is closed", "when its error output is closed", "when its error output is full"};
            std::vector<std::string> sh = {"/bin/sh", "-c", HOW[mode], E.scratch + "/fault-out"}; sh.insert(sh.end(), argv.begin(), argv.end());
            o = run_proc(sh, {"LD_PRELOAD=" + E.clock_so, "FAKE_TIME=1700000000"}, 60);
            (mode < 3 ? must_fail : must_succeed) = true; fault = NAME[mode];
        }
        if (c.kind != "write") { if (report(hit, seen)) r.nontrivial = hit > 0; } else r.nontrivial = true;
        auto fail = [&](const std::string& w) { Res q = Res::fail(who + " " + fault + " " + w + ": " + o.show() + "; without the fault: " + base.show()); q.hang = o.hang; return q; };
        if (o.hang) return fail("does not end");
        if (o.sig) return fail("is killed");
        if (must_fail && !o.exit) return fail("exits with status 0");
        if (must_succeed && o.exit) return fail("fails");
        if (!o.exit && o.out != base.out) return fail("prints something else");
        if (o.exit && prints_number(o.out)) return fail("fails, yet prints a number");
        if (o.exit && !must_fail && (o.out + o.err).find_first_not_of(" \t\r\n") == std::string::npos) return fail("fails without an explanation");
        r.labels.push_back(o.exit ? "error exit" : "same output");
        return r;
    }, [](const Case& c) { std::vector<Case> o = shrink_lists(c); for (long v : {1L, 2L, c.iv[2] / 2, c.iv[2] - 1}) if (v >= 1 && v < c.iv[2]) { Case d = c; d.iv[2] = v; o.push_back(d); } if (c.iv[5]) { Case d = c; d.iv[5] = 0; o.push_back(d); } if (c.iv[3] > 1) { Case d = c; d.iv[3] = 1; o.push_back(d); } return o; }});
