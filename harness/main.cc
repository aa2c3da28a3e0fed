// pbt: runs one worker's share of the generated cases of one property, or replays one case.
#include "core.hh"
#include <unistd.h>
#include <dirent.h>
#include <algorithm>
#include <time.h>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <signal.h>
#include <sys/prctl.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
std::string end_of_run_check();   // props.cc: e.g. leak reports when the sanitized server ends

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
    signal(SIGPIPE, SIG_IGN);
    prctl(PR_SET_PDEATHSIG, SIGTERM);
    E.prop = a["prop"]; E.tier = a["tier"]; E.bindir = a["bindir"]; E.sandir = a["sandir"]; E.sut = a["sut"]; E.sut_san = a["sut-san"];
    E.pysut = a["pysut"]; E.pysut2 = a["pysut2"]; E.pysut_san[0] = a["pysut-san0"]; E.pysut_san[1] = a["pysut-san1"]; E.clock_so = a["clock"]; E.faults_so = a["faults"]; E.mem_so = a["mem"]; E.vgdir = a["vgdir"]; E.scratch = a["scratch"];
    E.threads = a["threads"]; E.threads_tsan = a["threads-tsan"]; E.mt = a["mt"]; E.effects = a["effects"]; E.state_so = a["state"]; E.record_so = a["record"]; E.pyeffects = a["pyeffects"]; E.pylib = a["pylib"]; E.pylib2 = a["pylib2"];
    { std::istringstream l(a["builds"]); std::string x; while (std::getline(l, x, ',')) E.builds.push_back({x.substr(0, x.rfind('=')), x.substr(x.rfind('=') + 1)}); }
    if (a.count("seed")) E.seed = strtoull(a["seed"].c_str(), 0, 10);
    if (a.count("worker")) E.worker = atoi(a["worker"].c_str());
    if (a.count("workers")) E.workers = atoi(a["workers"].c_str());
    if (a.count("corpus")) { if (DIR* d = opendir(a["corpus"].c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') E.corpus.push_back(a["corpus"] + "/" + e->d_name); closedir(d); } std::sort(E.corpus.begin(), E.corpus.end()); }
    if (a.count("scale")) E.scale = atof(a["scale"].c_str());
    double deadline = now() + (a.count("deadline") ? atof(a["deadline"].c_str()) : 1e9);
    if (!PROPS.count(E.prop)) { fprintf(stderr, "unknown property %s\n", E.prop.c_str()); return 2; }
    Prop& p = PROPS[E.prop];

    if (a.count("replay")) {
        std::ifstream f(a["replay"]); std::stringstream s; s << f.rdbuf();
        Case c = Case::parse(s.str());
        Res r = p.check(c); fresh_suts();
        printf("%s\n%s\n", c.brief().c_str(), r.ok ? "holds" : ("FAILS: " + r.why).c_str());
        return r.ok ? 0 : 1;
    }

    long total = (long)((E.thorough() ? p.thorough : p.quick) * E.scale); if (total < E.workers) total = E.workers;
    long own = total; total += E.corpus.size();   // files found by the fuzzer come after the generated cases
    long done = 0, skipped = 0; std::map<std::string, long> labels; std::unordered_set<uint64_t> distinct, nontriv;
    std::vector<std::string> samples, unrepro; std::string violation, vcase; long shrinks = 0; int vague = 0;
    std::string stop = E.scratch + "/../violated";   // another worker has found a violation: no need to go on
    for (long round = 0; round * E.workers < total; ++round) {
        // every round of cases is dealt to the workers in another order, so that no kind of case falls to one worker
        long idx = round * E.workers + (E.worker + hash64(std::to_string(round)) % E.workers) % E.workers;
        if (idx >= total) continue;
        if (access(stop.c_str(), F_OK) == 0) break;
        if (now() > deadline) { ++skipped; continue; }
        rc::Gen<Case> gen([&p, idx, own](const rc::Random& rnd, int) {
            Rng r(rnd);
            return rc::shrinkable::shrinkRecur(idx < own ? p.gen(r, idx) : p.from_file(E.corpus[idx - own], idx), [&p](const Case& x) { return rc::seq::fromContainer(p.shrink(x)); });
        });
        uint64_t sd = hash64(E.prop + "/" + std::to_string(E.seed) + "/" + std::to_string(idx));
        rc::Shrinkable<Case> cur = gen(rc::Random(sd), 100);
        Case c = cur.value();
        double t0 = now();
        Res r = p.check(c);
        if (getenv("PBT_SLOW") && now() - t0 > atof(getenv("PBT_SLOW"))) fprintf(stderr, "slow %.2fs idx %ld %s\n", now() - t0, idx, c.brief().c_str());
        ++done;
        uint64_t h = hash64(c.str()); distinct.insert(h);
        if (r.nontrivial) { nontriv.insert(h); if (samples.size() < 2) samples.push_back(c.brief()); }
        if (!c.fam.empty()) ++labels["fam:" + c.fam];
        if (!c.kind.empty()) ++labels["kind:" + c.kind];
        for (auto& l : r.labels) ++labels[l];
        if (r.ok) continue;
        fprintf(stderr, "worker %d case %ld fails: %s | %s\n", E.worker, idx, r.why.c_str(), c.brief().c_str());
        auto confirmed = [&](const Case& k, Res& last) { for (int i = 0; i < 3; ++i) { if (i == 1) fresh_suts(); last = p.check(k); if (last.ok) return false; } return true; };
        Res last;
        if (!confirmed(c, last)) {
            // once: a disturbance of the machine. Again and again (other than by a time limit): the outcome depends on history or memory contents
            unrepro.push_back(c.brief() + " -- " + r.why); fprintf(stderr, "  not reproduced\n");
            if (!r.hang && ++vague >= 3) { violation = "three cases failed in this run but not when repeated in a fresh process; the last: " + r.why; vcase = c.str(); break; }
            continue;
        }
        // shrink: accept a child that still fails
        double ts = now(); int budget = 600; Case best = c; std::string why = last.why;
        if (!r.hang) {
            bool progress = true;
            while (progress && budget > 0 && now() - ts < 60) {
                progress = false;
                auto seq = cur.shrinks();
                while (budget > 0 && now() - ts < 60) {
                    auto m = seq.next(); if (!m) break;
                    --budget; ++shrinks;
                    Case k = m->value();
                    Res q = p.check(k);
                    if (!q.ok && !q.hang) { best = k; why = q.why; cur = *m; progress = true; break; }
                }
            }
            Res fin;
            if (!confirmed(best, fin)) { best = c; why = last.why; } else why = fin.why;
        }
        violation = why; vcase = best.str();
        if (FILE* f = fopen(stop.c_str(), "w")) fclose(f);
        fprintf(stderr, "  shrunk to: %s | %s\n", best.brief().c_str(), why.c_str());
        break;
    }
    std::string fin = end_of_run_check();
    if (violation.empty() && !fin.empty()) { violation = fin; vcase = ""; }
    std::ofstream o(a["out"]);
    o << "{\"done\":" << done << ",\"total\":" << total << ",\"skipped\":" << skipped << ",\"shrinks\":" << shrinks << ",\"rule\":" << jstr(p.rule) << ",\"labels\":{";
    bool first = true; for (auto& l : labels) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":["; first = true; for (auto& s : samples) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "],\"unreproduced\":["; first = true; for (auto& s : unrepro) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "],\"violation\":" << (violation.empty() ? "null" : jstr(violation)) << ",\"case\":" << jstr(vcase) << ",\"nontrivial\":[";
    first = true; for (uint64_t h : nontriv) { o << (first ? "" : ",") << '"' << std::hex << h << std::dec << '"'; first = false; }
    o << "],\"distinct\":" << distinct.size() << "}\n";
    return violation.empty() ? 0 : 1;
}
