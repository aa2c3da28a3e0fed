// C20: the bundled random generator against a second implementation of TinyMT64, written from its published recursion
#include "core.hh"
#include <sstream>
namespace {
typedef uint64_t U;
struct Ref {   // state: 127 bits; one step is linear over GF(2)
    U s0, s1, m1, m2, tm;
    void certify() { if (!(s0 << 1) && !s1) { s0 = 'T'; s1 = 'M'; } }
    void init(U seed) { U s[2] = {seed ^ m1 << 32, m2 ^ tm}; for (U i = 1; i <= 7; ++i) { U p = s[(i + 1) % 2]; s[i % 2] ^= i + 6364136223846793005ull * (p ^ p >> 62); } s0 = s[0]; s1 = s[1]; certify(); }
    void array(const std::vector<U>& k) {
        U st[4] = {0, m1, m2, tm}; size_t n = k.size(), count = std::max<size_t>(n + 1, 8), at = 0;
        auto f1 = [](U x) { x ^= x >> 59; return x * 2173292883993ull; }; auto f2 = [](U x) { x ^= x >> 59; return x * 58885565329898161ull; };
        for (size_t j = 0; j < count; ++j) {     // the first round adds the length, the next n the keys, the rest nothing
            U &a = st[at % 4], &b = st[(at + 1) % 4], &c = st[(at + 2) % 4], r = f1(a ^ b ^ st[(at + 3) % 4]);
            b += r; r += j == 0 ? (U)n : j <= n ? k[j - 1] + at % 4 : at % 4; c += r; a = r; ++at;
        }
        for (int j = 0; j < 4; ++j) { U &a = st[at % 4], &b = st[(at + 1) % 4], &c = st[(at + 2) % 4], r = f2(a + b + st[(at + 3) % 4]); b ^= r; r -= at % 4; c ^= r; a = r; ++at; }
        s0 = st[0] ^ st[1]; s1 = st[2] ^ st[3]; certify();
    }
    U out() {
        U x = (s0 & ~(1ull << 63)) ^ s1; x ^= x << 12; x ^= x >> 32; x ^= x << 32; x ^= x << 11;
        U o = x & 1; s0 = s1; s1 = x; if (o) { s0 ^= m1; s1 ^= m2 << 32; }
        U y = (s0 + s1) ^ s0 >> 8; if (y & 1) y ^= tm; return y;
    }
};
U bits(double x) { U u; memcpy(&u, &x, 8); return u; }
U word(Rng& r) { switch (r.range(0, 5)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << r.range(0, 63); case 3: return r.next() % 1000; default: return r.next(); } }
}
static void unshift(U& x, int k, bool left) { U y = x; for (int i = 0; i < 64 / k + 1; ++i) y = x ^ (left ? y << k : y >> k); x = y; }
// a state whose next output is wanted: y = temper(s0', s1')
static void state_for(Rng& r, U want, U m1, U m2, U tm, U& a, U& b) {
    for (int tries = 0; tries < 64; ++tries) {
        U y = want; if (tm & 1) { y = want & 1 ? want ^ tm : want; if (!(y & 1) != !(want & 1)) y = want; } else if (want & 1) y = want ^ tm;
        U s0 = r.next(), s1 = (y ^ s0 >> 8) - s0;                // the state after the step
        for (int o = 0; o < 2; ++o) {
            U x = s1 ^ (o ? m2 << 32 : 0), prev1 = s0 ^ (o ? m1 : 0); if ((int)(x & 1) != o) continue;
            unshift(x, 11, true); unshift(x, 32, true); unshift(x, 32, false); unshift(x, 12, true);
            U prev0 = x ^ prev1; if (prev0 >> 63) continue;
            Ref t{prev0, prev1, m1, m2, tm}; if (t.out() == want) { a = prev0; b = prev1; return; }
        }
    }
    a = r.next(); b = r.next();
}
static Reg c20({"C20", "generated parameters (published sets and arbitrary words), seeds and key arrays (0 to 300 keys, edge words), states chosen so that the next output is an extreme word or that initialisation would give the zero state, two generators used in turn, every output conversion; each output compared bit by bit with a second implementation and with the documented range; non-trivial: at least one output",
    30000, 400000,
    [](Rng& r, long idx) {
        Case c; c.kind = "generator"; Ref cur[2] = {}; int g = 0; std::string t; auto hex = [](U x) { return fmt(" %lx", (unsigned long)x); };
        static const U P[][3] = {{0xfa051f40, 0xffd0fff4, 0x58d02ffeffbfffbc}, {0x65980cb3, 0xeb38facf, 0xcb44ddf6b1ffbff7}, {0x8f7011ee, 0xfc78ff1f, 0x3793fdff}};
        int ops = r.range(2, 12);
        for (int i = 0; i < ops; ++i) {
            bool start = i == 0 || r.chance(.2);
            if (!start && r.chance(.1)) { g ^= 1; t += fmt("G %d ", g); start = !cur[g].m1 && !cur[g].m2 && !cur[g].tm; }
            if (start) {
                Ref& x = cur[g]; if (r.chance(.4)) { auto& p = P[r.range(0, 2)]; x.m1 = p[0]; x.m2 = p[1]; x.tm = p[2]; } else { x.m1 = (uint32_t)word(r); x.m2 = (uint32_t)word(r); x.tm = word(r); if (!x.m1 && !x.m2 && !x.tm) x.m1 = 1; }
                int how = r.range(0, 5);
                if (how == 0) { // a seed that leads to the zero state
                    U s[2] = {r.chance(.5) ? 0 : 1ull << 63, 0}; if (r.chance(.2)) s[r.range(0, 1)] ^= 1ull << r.range(0, 62);
                    for (U k = 7; k >= 1; --k) { U p = s[(k + 1) % 2]; s[k % 2] ^= k + 6364136223846793005ull * (p ^ p >> 62); }
                    x.tm = s[1] ^ x.m2; t += "P" + hex(x.m1) + hex(x.m2) + hex(x.tm) + " I" + hex(s[0] ^ x.m1 << 32) + " ";
                } else {
                    t += "P" + hex(x.m1) + hex(x.m2) + hex(x.tm) + " ";
                    if (how < 3) t += "I" + hex(word(r)) + " ";
                    else if (how == 3) { int n = r.chance(.1) ? (int)r.loguni(10, 300) : r.range(0, 12); t += "A" + hex(n); for (int k = 0; k < n; ++k) t += hex(word(r)); t += " "; }
                    else { U want = r.pick(std::vector<U>{0, 1, 0xfff, 0x1000, ~0ull, ~0xfffull, ~0x7ffull, ~0x3ffull, ~0x400ull, 1ull << 63, (1ull << 63) - 1, 0x1fff, 0x2000}), a, b; state_for(r, want, x.m1, x.m2, x.tm, a, b); t += "S" + hex(a) + hex(b) + " "; }
                }
            }
            t += std::string(1, "uhhdtco"[r.range(0, 6)]) + hex(r.chance(.05) ? (long)r.loguni(10, 5000) : r.range(1, 8)) + " ";
        }
        c.sv = {t}; return c;
    },
    [](const Case& c) {
        Res r; r.nontrivial = false; if (E.mt.empty()) { r.labels.push_back("generator not accessible"); return r; }
        static bool sound = [] { Ref t{0, 0, 0xfa051f40, 0xffd0fff4, 0x58d02ffeffbfffbc}; t.init(1); return t.out() == 15503804787016557143ull && t.out() == 17280942441431881838ull && t.out() == 2177846447079362065ull; }();
        if (!sound) { fprintf(stderr, "the second implementation does not give the published outputs\n"); exit(2); }
        std::string path = E.scratch + "/mt-in"; write_file(path, c.sv[0]);
        ProcOut o = run_proc({E.mt, path}, {}, 60);
        if (o.exit || o.sig || o.hang) { Res q = Res::fail("the generator ends abnormally: " + o.show()); q.hang = o.hang; return q; }
        std::istringstream f(c.sv[0]), lines(o.out); std::string op, w; f >> std::hex;
        Ref gens[2] = {}; Ref* g = gens; long at = 0;
        while (f >> op) {
            U a = 0, b = 0, d = 0; f >> a;
            if (op == "P") { f >> b >> d; g->m1 = a; g->m2 = b; g->tm = d; }
            else if (op == "S") { f >> b; g->s0 = a; g->s1 = b; }
            else if (op == "I") g->init(a);
            else if (op == "A") { std::vector<U> k(a); for (U& x : k) f >> x; g->array(k); }
            else if (op == "G") g = &gens[a & 1];
            else for (; a; --a, ++at) {
                U y = g->out(), want, got; double m = 1 + (double)(y >> 12) * 0x1p-52;
                switch (op[0]) { case 'u': want = y; break; case 'h': want = bits(m - 1); break; case 'd': want = bits((double)y * 0x1p-64); break; case 't': want = bits(m); break; case 'c': want = bits(2 - m); break; default: want = bits((double)(y >> 12 | 1) * 0x1p-52); }
                if (!std::getline(lines, w)) return Res::fail("outputs are missing");
                got = strtoull(w.c_str(), 0, 16); r.nontrivial = true;
                if (got != want) { double x, z; memcpy(&x, &got, 8); memcpy(&z, &want, 8); static const std::map<char, const char*> N = {{'u', "uint64"}, {'h', "double01"}, {'d', "double"}, {'t', "double12"}, {'c', "doubleOC"}, {'o', "doubleOO"}}; return Res::fail(fmt("output %ld (%s) is %016lx (%.17g), TinyMT64 gives %016lx (%.17g)", at + 1, N.at(op[0]), (unsigned long)got, x, (unsigned long)want, z)); }
                double v; memcpy(&v, &got, 8);
                bool in = op[0] == 'u' || op[0] == 'd' ? true : op[0] == 'h' ? v >= 0 && v < 1 : op[0] == 't' ? v >= 1 && v < 2 : op[0] == 'c' ? v > 0 && v <= 1 : v > 0 && v < 1;
                if (!in) return Res::fail(fmt("output %ld (%c) is %.17g, outside its documented range", at + 1, op[0], v));
                if (y < 4096 || y > ~4096ull) r.labels.push_back("extreme output");
            }
        }
        return r;
    },
    [](const Case& c) {
        std::vector<Case> o; std::vector<std::string> ops; std::istringstream f(c.sv[0]); std::string w;
        while (f >> w) { std::string x = w; int n = w == "P" ? 3 : w == "S" ? 2 : 1; while (n-- > 0 && f >> w) { if (x == "A") n = (int)strtol(w.c_str(), 0, 16); x += " " + w; } ops.push_back(x); }
        auto add = [&](const std::vector<std::string>& v) { Case d = c; d.sv[0].clear(); for (auto& x : v) d.sv[0] += x + " "; o.push_back(d); };
        for (size_t i = 1; i < ops.size(); ++i) { if (strchr("PIASG", ops[i][0])) continue; auto v = ops; v.erase(v.begin() + i); add(v); }
        if (ops.size() > 4) { auto v = ops; v.resize(v.size() / 2); add(v); }
        for (size_t i = 0; i < ops.size(); ++i) if (strchr("uhdtco", ops[i][0])) { long n = strtol(ops[i].c_str() + 2, 0, 16); for (long k : {1L, n / 2}) if (k > 0 && k < n) { auto v = ops; v[i] = ops[i].substr(0, 2) + fmt("%lx", k); add(v); } }
        return o; }});
