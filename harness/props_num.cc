// Numeric properties: C01-C06 (oracles: reference dynamic programme, closed forms, metamorphic laws)
#include "core.hh"
#include <algorithm>

static std::string where(int fn, const Outcome& o, double ref, double tol) { return fmt("%s gives %s, reference %.17g (tolerance %.3g)", FN_NAME[fn], o.show().c_str(), ref, tol); }
static std::string nbucket(size_t n) { return n < 2 ? "n:1" : n < 10 ? "n:2-9" : n < 50 ? "n:10-49" : n < 128 ? "n:50-127" : n < 300 ? "n:128-299" : n < 1024 ? "n:300-1023" : n < 2048 ? "n:1024-2047" : n < 5000 ? "n:2048-4999" : "n:5000+"; }
static void labels(Res& r, size_t n, double p) {
    r.labels.push_back(nbucket(n));
    r.labels.push_back(p == 0 ? "p:0" : p < 1e-100 ? "p:<1e-100" : p < 1e-9 ? "p:1e-100..1e-9" : p < 1e-3 ? "p:1e-9..1e-3" : p < .5 ? "p:1e-3..0.5" : p < 1 - 1e-9 ? "p:0.5..1" : "p:1");
}
static double ref_any(int n, const V& b, const V& B) { return n <= 160 ? (double)ref_ecdf_rel(n, b, B) : ref_ecdf_abs(n, b, B); }
static Res abs_check(Sut& s, int fn, int n, const V& b, const V& B, double ref, double tol) {
    Outcome o = s.call(fn, b, B);
    Res r; labels(r, n, ref);
    r.nontrivial = ref > 1e-6 && ref < 1 - 1e-6;
    if (!o.finite() || !(std::fabs(o.value - ref) <= tol)) { r.ok = false; r.hang = o.kind == Outcome::HANG; r.why = where(fn, o, ref, tol); }
    return r;
}
// sizes near which sizes of blocks, windows or transforms change
static int special_size(Rng& r, int max) {
    for (;;) {
        int base;
        switch (r.range(0, 4)) {
        case 0: base = 1 << r.range(1, 13); break;
        case 1: { int k = r.range(1, 70); base = k * k; break; }
        case 2: base = 1024 * r.range(1, 8); break;
        case 3: base = 128; break;
        default: base = 100 * r.range(1, 40); }
        int n = base + r.range(-3, 3);
        if (n >= 1 && n <= max) return n;
    }
}

// narrow bands: cheap at every size, since the count can only take few values at a time
static void gen_band(Rng& r, int n, V& b, V& B, std::string& fam) {
    b.resize(n); B.resize(n); double c1 = r.uni(1.2, 4), c2 = r.uni(1.2, 4); int m = r.range(0, 4);
    if (m == 1) { int k = 1 + (int)(r.uni(.8, 2.5) * std::sqrt(n)); fam = "big:ksband"; for (int i = 0; i < n; ++i) { b[i] = (i + 1.0 - k) / n; B[i] = double(i + k) / n; } }
    else { double x0 = r.u(), x1 = r.u(); fam = m == 2 ? "big:grid" : m == 3 ? "big:hole" : "big:band"; int g = r.range(n / 4, 3 * n);
        for (int i = 0; i < n; ++i) { double q = (i + 1.0) / (n + 1.0), s = std::sqrt(q * (1 - q) / (n + 2.0)); b[i] = q - s * (c1 + .5 * r.u()) - 1.0 / n; B[i] = q + s * (c2 + .5 * r.u()) + 1.0 / n;
            if (m == 2) { b[i] = std::floor(b[i] * g) / g; B[i] = std::ceil(B[i] * g) / g; }
            if (m == 3 && q > std::min(x0, x1) && q < std::min(x0, x1) + .1 * std::fabs(x1 - x0)) { B[i] = std::min(1.0, std::min(x0, x1) + .1 * std::fabs(x1 - x0) + s); } } }
    fix(b); fix(B);
}

// the widest windows at sizes beyond the reference's reach: boundaries with a closed form. iv: [n, form], dv: parameters
static long double wide_lists(const Case& c, V& b, V& B) {
    int n = c.iv[0]; double x = c.dv[0], y = c.dv[1]; b.assign(n, 0.0); B.assign(n, 1.0); long double p = 1;
    switch (c.iv[1]) {
    case 0: for (int i = 0; i < n; ++i) b[i] = x * (i + 1) / n; p = 1 - (long double)x; break;
    case 1: for (int i = 0; i < n; ++i) B[i] = 1 - x * (n - i) / n; p = 1 - (long double)x; break;
    case 2: b.assign(n, x / n); B.assign(n, 1 - y / n); p = expl(n * log1pl(-((long double)(x / n) + y / n))); break;   // all of them in one interval
    case 3: { int k = (int)(y * n); for (int i = k; i < n; ++i) b[i] = x; p = 1 - binom_upper_tail(n, k + 1, x); break; }
    default: { int k = (int)(y * n); for (int i = 0; i < k; ++i) B[i] = x; p = binom_upper_tail(n, k, x); } }
    fix(b); fix(B); return p;
}
static std::vector<Case> shrink_wide(const Case& c) {
    if (c.kind != "wide") return shrink_lists(c);
    std::vector<Case> o; long n = c.iv[0];
    for (long m : {2L, 10L, 100L, 128L, 300L, n / 2, n * 3 / 4, n * 9 / 10, n - 100, n - 10, n - 1}) if (m >= (c.iv[1] == 2 ? 10 : 1) && m < n) { Case d = c; d.iv[0] = m; o.push_back(d); }
    return o;
}
static Case gen_wide(Rng& r, int n, long form) {
    Case c; c.kind = "wide"; c.fam = "wide"; c.iv = {n, form};
    if (form < 2) c.dv = {r.chance(.5) ? r.uni(0, .999) : r.uni(0, .1), 0};
    else if (form == 2) c.dv = {r.uni(0, 3), r.uni(0, 3)};
    else { double q = r.u(); c.dv = {std::min(1.0, std::max(0.0, q + std::sqrt(q * (1 - q) / n) * r.uni(-1.5, 1.5))), q}; }
    return c;
}
static double abs_tol(double n) { return std::max(1e-10, 2e-14 * n); }
static Reg c01({"C01", "generated pair (b,B) of equal length, families in core.cc (ties, grids, bands, thin windows, impossible pairs), n swept 1..260 and drawn up to 1200, narrow bands up to 3500, the widest windows with a closed form up to 2200; non-trivial: reference probability strictly between 0 and 1-1e-6 and >= 1e-280",
    300000, 3000000,
    [](Rng& r, long idx) {
        Case c; c.kind = "ks2001"; int n;
        long k = idx % 20;
        if (idx % 6000 == 59) {
            n = r.chance(.5) ? special_size(r, 2200) : (int)r.loguni(400, 2200); return gen_wide(r, n, (idx / 6000 + r.range(0, 1)) % 5);
        }
        if (k < 8) n = 1 + (idx / 20 * 8 + k) % 40;
        else if (k < 17) n = 1 + (idx / 20 * 9 + k - 8) % 260;
        else if (k < 19) n = (int)r.loguni(1, 300);
        else if (r.chance(.02)) { n = r.chance(.3) ? special_size(r, 3500) : (int)r.loguni(300, 3500); gen_band(r, n, c.b, c.B, c.fam); return c; }
        else n = r.chance(.85) ? r.range(1, 260) : r.chance(.6) ? special_size(r, 520) : r.range(300, E.thorough() ? 1000 : r.chance(.03) ? 1200 : 620);
        gen_two_sided(r, n, c.b, c.B, c.fam);
        return c;
    },
    [](const Case& c) {
        if (c.kind == "wide") { V b, B; long double p = wide_lists(c, b, B); return abs_check(sut_native(), KS2, c.iv[0], b, B, (double)p, 1e-9 * std::max(1e-280, (double)p)); }
        int n = c.b.size();
        long double ref = ref_ecdf_rel(n, c.b, c.B);
        Outcome o = sut_native().call(KS2, c.b, c.B);
        Res r; labels(r, n, (double)ref);
        r.nontrivial = ref >= 1e-280L && ref < 1 - 1e-6L;
        long double tol = ref >= 1e-280L ? 1e-9L * ref : 2e-280L;
        if (!o.finite() || (!(fabsl(o.value - ref) <= tol) && !ref_between(n, c.b, c.B, o.value, 1e-9L))) { r.ok = false; r.hang = o.kind == Outcome::HANG; r.why = where(KS2, o, (double)ref, (double)tol); }
        return r;
    }, shrink_wide});

static Reg c02({"C02", "generated pair (b,B), n swept 1..600, special sizes and log-uniform up to 2300 (quick) / 5000 (thorough), narrow bands up to 12000 / 40000, the widest windows with a closed form up to 14000 (50000 for all points in one interval); non-trivial: reference probability in (1e-6, 1-1e-6)",
    60000, 500000,
    [](Rng& r, long idx) {
        Case c; c.kind = "mn2017"; int n;
        long k = idx % 12;
        if (idx % 480 == 11) { long form = (idx / 480) % 5, max = form == 2 ? 50000 : E.thorough() ? 16000 : form > 2 ? 14000 : 7000; return gen_wide(r, r.chance(.4) ? std::min(max, 1024 * r.range(2, max / 1024) + r.range(-2, 2)) : (int)r.loguni(1500, max), form); }
        if (idx % 240 == 131) { n = r.chance(.4) ? special_size(r, 9000) : (int)r.loguni(1500, E.thorough() ? 40000 : 12000); gen_band(r, n, c.b, c.B, c.fam); return c; }
        if (k < 4) n = 1 + (idx / 12 * 4 + k) % 130;
        else if (k < 8) n = 100 + (idx / 12 * 4 + k - 4) % 500;
        else if (k < 9) n = (int)r.loguni(100, 900);
        else if (k < 11) n = special_size(r, 1100);
        else n = r.chance(.5) ? special_size(r, E.thorough() ? 4200 : 2100) : (int)r.loguni(600, E.thorough() ? 5000 : 2300);
        gen_two_sided(r, n, c.b, c.B, c.fam);
        if (n > 1000 && r.chance(.7)) { // wide windows so that the longest transforms are used
            std::string f; if (r.chance(.5)) { c.b = gen_lower_pos(r, n, f); c.B.assign(n, 1.0); if (r.chance(.5)) for (int i = 0; i < n / 3; ++i) c.B[i] = std::min(1.0, (i + 1.0) / n + 2.5 / std::sqrt(n)); }
            else { c.B = reflect(gen_lower_pos(r, n, f)); c.b.assign(n, 0.0); if (r.chance(.5)) for (int i = 2 * n / 3; i < n; ++i) c.b[i] = std::max(0.0, (i + 1.0) / n - 2.5 / std::sqrt(n)); }
            fix(c.b); fix(c.B); c.fam = "wide:" + f;
        }
        return c;
    },
    [](const Case& c) {
        if (c.kind == "wide") { V b, B; long double p = wide_lists(c, b, B); return abs_check(sut_native(), FFT2, c.iv[0], b, B, (double)p, abs_tol(c.iv[0])); }
        int n = c.b.size(); return abs_check(sut_native(), FFT2, n, c.b, c.B, ref_any(n, c.b, c.B), abs_tol(n)); }, shrink_wide});

static Case gen_one_sided(Rng& r, int n) {
    Case c; std::string f; V v = gen_lower(r, n, f);
    if (r.chance(.5)) { c.kind = "b"; c.b = v; } else { c.kind = "B"; c.B = r.chance(.7) ? reflect(v) : v; }
    c.fam = f; return c;
}
static Reg c03({"C03", "generated single list, as lower or upper list, n swept 0..700, special sizes and log-uniform up to 2600 (quick) / 8000 (thorough), with a closed form up to 12000 / 40000; non-trivial: reference probability in (1e-6, 1-1e-6)",
    80000, 700000,
    [](Rng& r, long idx) {
        int n; long k = idx % 12;
        if (idx % 480 == 11) { static const long F[] = {0, 1, 3, 4}; long max = E.thorough() ? 40000 : 12000; return gen_wide(r, r.chance(.3) ? special_size(r, max) : (int)r.loguni(1500, max), F[idx / 480 % 4]); }
        if (k < 4) n = (idx / 12 * 4 + k) % 130;
        else if (k < 9) n = 100 + (idx / 12 * 5 + k - 4) % 600;
        else if (k < 11) n = special_size(r, 1200);
        else n = r.chance(.5) ? special_size(r, E.thorough() ? 5000 : 2600) : (int)r.loguni(700, E.thorough() ? 8000 : 2600);
        return gen_one_sided(r, n);
    },
    [](const Case& c) {
        if (c.kind == "wide") { V b, B; long double p = wide_lists(c, b, B); bool lower = c.iv[1] == 0 || c.iv[1] == 3; return abs_check(sut_native(), lower ? NEW_b : NEW_B, c.iv[0], lower ? b : V(), lower ? V() : B, (double)p, abs_tol(c.iv[0])); }
        int n = std::max(c.b.size(), c.B.size());
        int fn = c.kind == "b" ? NEW_b : NEW_B;
        // an upper list is evaluated as such; the reference treats it directly
        return abs_check(sut_native(), fn, n, fn == NEW_b ? c.b : V(), fn == NEW_b ? V() : c.B, ref_any(n, c.b, c.B), abs_tol(n));
    }, shrink_wide});
static Reg c04({"C04", "generated single list, as lower or upper list, n swept 0..400 and sampled up to 2000; non-trivial: reference probability in (1e-6, 1-1e-6), or below 1e-12 (where cancellation is total)",
    22000, 250000,
    [](Rng& r, long idx) {
        int n; long k = idx % 12;
        if (k < 6) n = (idx / 12 * 6 + k) % 130;
        else if (k < 11) n = 100 + (idx / 12 * 5 + k - 6) % 300;
        else n = r.chance(.6) ? special_size(r, 1000) : (int)r.loguni(300, r.chance(.2) ? 2000 : 1000);
        return gen_one_sided(r, n);
    },
    [](const Case& c) {
        int n = std::max(c.b.size(), c.B.size());
        int fn = c.kind == "b" ? MNS_b : MNS_B;
        double ref = ref_any(n, c.b, c.B);
        Res r = abs_check(sut_native(), fn, n, fn == MNS_b ? c.b : V(), fn == MNS_b ? V() : c.B, ref, 1e-10);
        r.nontrivial |= ref < 1e-12;
        return r;
    }, shrink_lists});

// ---- C05: large samples ----
static V large_list(const Case& c) {   // lists are rebuilt from parameters: iv[0]=n, dv parameters
    int n = c.iv[0]; V v(n);
    if (c.kind == "linear") for (int i = 0; i < n; ++i) v[i] = c.dv[0] * (i + 1) / n;
    else if (c.kind == "ks") for (int i = 0; i < n; ++i) v[i] = std::max(0.0, (i + 1.0) / n - c.dv[0]);
    else if (c.kind == "const") v.assign(n, c.dv[0]);
    else if (c.kind == "single") { for (int i = 0; i < n; ++i) v[i] = i + 1 >= c.iv[1] ? c.dv[0] : 0; }
    else if (c.kind == "levels") { int m = c.dv.size(); for (int k = 0; k < m; ++k) for (int i = c.iv[1 + k]; i < n; ++i) v[i] = std::max(v[i], c.dv[k]); }
    else { // arbitrary: c.iv[1] = seed of rapidcheck's generator, c.iv[2] selects a family
        Rng r(rc::Random((uint64_t)c.iv[1])); std::string f; v = c.iv[2] ? gen_lower_pos(r, n, f) : gen_lower(r, n, f); }
    fix(v); return v;
}
static std::vector<Case> shrink_large(const Case& c) {
    std::vector<Case> o; long n = c.iv[0];
    for (long m : {2L, 10L, 100L, 127L, 128L, 200L, n / 2, n * 3 / 4, n * 9 / 10, n - 1000, n - 100, n - 10, n - 1}) if (m >= (c.iv[1] == 2 ? 10 : 1) && m < n) { Case d = c; d.iv[0] = m; for (size_t i = c.kind == "interval" ? 2 : 1; i < d.iv.size() && c.kind != "arbitrary"; ++i) d.iv[i] = d.iv[i] * m / n; o.push_back(d); }
    return o;
}
static Reg c05({"C05", "n log-uniform or special in 2000..16000 (quick) / 60000 (thorough); boundary from a family with a closed form (Daniels line, Birnbaum-Tingey, constant, binomial tail, the two-sided Kolmogorov distribution by Marsaglia-Tsang-Wang, few levels via the reference DP, all points in one interval or a restricted count at one place up to n=200000) or arbitrary with cross-agreement; both orientations; non-trivial: value in (1e-6, 1-1e-6)",
    704, 5500,
    [](Rng& r, long idx) {
        Case c; long max = E.thorough() ? 60000 : 16000;
        long n = r.chance(.4) ? 1024 * r.range(2, max / 1024 / 2) + r.range(-2, 2) : r.chance(.1) ? r.range(max / 2, max) : (long)r.loguni(2000, max * .7);
        static const char* K[] = {"linear", "ks", "const", "single", "levels", "kolmogorov", "arbitrary", "arbitrary", "arbitrary", "interval", "interval"};
        c.kind = K[idx % 11]; c.iv = {n};
        if (c.kind == "interval") { // few steps, so that every size is cheap: all n points in one interval, or the number of points before a place is restricted
            n = r.chance(.3) ? 1024 * r.range(16, 190) + r.range(-2, 2) : r.chance(.2) ? r.pick(std::vector<int>{32768, 46341, 65536, 131072}) + r.range(-2, 2) : (long)r.loguni(12000, 200000);
            bool direct = r.chance(.3); if (direct) n = std::min(n, (long)r.range(15000, 40000));
            c.iv = {n, direct}; c.fam = r.chance(.5) ? "all" : "count"; c.sv = {c.fam};
            double q = r.u(), sd = std::sqrt(n * q * (1 - q)) + .3, m = n * q; if (c.fam == "all") c.dv = {r.uni(0, 3) / n, r.uni(0, 3) / n};
            else { c.dv = {q}; c.iv.push_back(std::max(0L, std::min(n, (long)(m - sd * r.uni(-.5, 3))))); c.iv.push_back(std::max(c.iv[2], std::min(n, (long)(m + sd * r.uni(0, 3))))); }
            return c;
        }
        bool alone = idx / 11 % 32 == 9 && idx % 11 < 4;
        if (alone) c.iv[0] = n = (idx % 2 ? 32769 : 46342) + r.range(0, 1000);
        if (c.kind == "linear") c.dv = {r.u()};
        else if (c.kind == "kolmogorov") { c.dv = {std::min(r.uni(.45, 2.2) / std::sqrt((double)n), 130.0 / n)}; if (r.chance(.2)) c.dv[0] = (std::floor(c.dv[0] * n) + (r.chance(.5) ? .5 : 0)) / n; c.fam = "both"; c.sv = {c.fam}; return c; }
        else if (c.kind == "ks") c.dv = {r.uni(.2, 2.2) / std::sqrt((double)n)};
        else if (c.kind == "const") c.dv = {1 - std::pow(r.uni(.001, .999), 1.0 / n)};
        else if (c.kind == "single") { long k = r.chance(.3) ? r.range(1, 20) : r.chance(.3) ? n - r.range(0, 20) : r.range(1, n); double q = k / (n + 1.0); c.iv.push_back(k); c.dv = {std::min(1.0, std::max(0.0, q + std::sqrt(q * (1 - q) / n) * r.uni(-3, 3)))}; }
        else if (c.kind == "levels") { int m = r.range(2, 6); for (int k = 0; k < m; ++k) { double x = r.u(); c.dv.push_back(x); long j = (long)(n * x + std::sqrt(n * x * (1 - x)) * r.uni(-.5, 2.5)); c.iv.push_back(std::max(0L, std::min(n, j))); } }
        else { c.iv.push_back((long)(r.next() >> 2)); c.iv.push_back(r.chance(.9)); }
        c.fam = r.chance(.5) ? "lower" : "upper"; c.sv = {c.fam}; if (alone) c.sv.push_back("new only");
        return c;
    },
    [](const Case& c) {
        if (c.kind == "interval") {
            int n = c.iv[0]; V b(n), B(n, 1.0); double p;
            if (c.sv[0] == "all") { b.assign(n, c.dv[0]); B.assign(n, 1 - c.dv[1]); p = std::exp(n * std::log1p(-(c.dv[0] + c.dv[1]))); }
            else { long lo = std::min((long)n, c.iv[2]), hi = std::min((long)n, c.iv[3]); for (long i = hi; i < n; ++i) b[i] = c.dv[0]; for (long i = 0; i < lo; ++i) B[i] = c.dv[0];
                p = (lo > 0 ? binom_upper_tail(n, (int)lo, c.dv[0]) : 1) - (hi < n ? binom_upper_tail(n, (int)hi + 1, c.dv[0]) : 0); }
            return abs_check(sut_native(), c.iv[1] ? KS2 : FFT2, n, b, B, p, 1e-9);
        }
        if (c.kind == "kolmogorov") {
            int n = c.iv[0]; double d = c.dv[0]; V b(n), B(n);
            for (int i = 0; i < n; ++i) { b[i] = std::max(0.0, (i + 1.0) / n - d); B[i] = std::min(1.0, (double)i / n + d); }
            Res r = abs_check(sut_native(), FFT2, n, b, B, ks_two_sided(n, d), 1e-9);
            if (r.ok && n <= 3000) { Res q = abs_check(sut_native(), KS2, n, b, B, ks_two_sided(n, d), 1e-9); if (!q.ok) return q; }
            return r;
        }
        int n = c.iv[0]; V v = large_list(c); bool up = c.sv[0] == "upper";
        V L = up ? V() : v, U = up ? reflect(v) : V();
        double ref = NAN;
        if (c.kind == "linear") ref = 1 - c.dv[0];
        else if (c.kind == "ks") ref = ks_one_sided(n, c.dv[0]);
        else if (c.kind == "const") ref = std::exp(n * std::log1p(-c.dv[0]));
        else if (c.kind == "single") ref = c.iv[1] > n ? 1 : 1 - binom_upper_tail(n, (int)c.iv[1], c.dv[0]);
        else if (c.kind == "levels") ref = ref_ecdf_abs(n, v, V());
        Outcome a = sut_native().call(up ? NEW_B : NEW_b, L, U);
        V t(n, up ? 0.0 : 1.0);
        Outcome f = a; if (c.sv.size() < 2) f = sut_native().call(FFT2, up ? t : L, up ? U : t);
        Res r; double val = a.value; labels(r, n, val); r.nontrivial = val > 1e-6 && val < 1 - 1e-6;
        double tol = 1e-9;
        if (!a.finite()) { r.ok = false; r.why = where(up ? NEW_B : NEW_b, a, ref, tol); }
        else if (!f.finite()) { r.ok = false; r.why = where(FFT2, f, ref, tol); }
        else if (!std::isnan(ref) && !(std::fabs(a.value - ref) <= tol)) { r.ok = false; r.why = where(up ? NEW_B : NEW_b, a, ref, tol); }
        else if (!std::isnan(ref) && !(std::fabs(f.value - ref) <= tol)) { r.ok = false; r.why = where(FFT2, f, ref, tol); }
        else if (!(std::fabs(a.value - f.value) <= tol)) { r.ok = false; r.why = fmt("%s gives %.17g but %s gives %.17g for n=%d", FN_NAME[up ? NEW_B : NEW_b], a.value, FN_NAME[FFT2], f.value, n); }
        r.hang = a.kind == Outcome::HANG || f.kind == Outcome::HANG;
        return r;
    }, shrink_large});

// ---- C06: laws ----
// iv: [law, fn index, k, extra]; dv: [split point ...]; the widened lists are in dv as increments is avoided: second pair kept in sv-free form (dv = b2 ++ B2)
static const double LT = 1e-9;
struct Ev { Outcome o; double v; };
static bool get(Res& r, int fn, const V& b, const V& B, double& out) {
    Outcome o = sut_native().call(fn, b, B);
    if (!o.finite() || o.value < -LT || o.value > 1 + LT) { r.ok = false; r.hang = o.kind == Outcome::HANG; r.why = fmt("%s on %zu/%zu points gives %s, not a probability", FN_NAME[fn], b.size(), B.size(), o.show().c_str()); return false; }
    out = o.value; return true;
}
static Res law_check(const Case& c) {
    Res r; long fn = c.iv[0], k = c.iv[1]; size_t n = std::max(c.b.size(), c.B.size());
    if (n == 0) { r.nontrivial = false; return r; }
    double x, y, z;
    bool two = fn <= FFT2, low = fn == NEW_b || fn == MNS_b;
    V b = two ? c.b : low ? c.b : V(), B = two ? c.B : low ? V() : c.B;
    if (two) { if (b.empty()) b.assign(n, 0.0); if (B.empty()) B.assign(n, 1.0); }
    if (!get(r, fn, b, B, x)) return r;
    labels(r, n, x); r.nontrivial = x > 1e-6 && x < 1 - 1e-6;
    bool triv = true, imposs = false;
    for (double t : b) if (t > 0) triv = false;
    for (double t : B) if (t < 1) triv = false;
    for (double t : b) if (t >= 1) imposs = true;
    for (double t : B) if (t <= 0) imposs = true;
    if (two) for (size_t i = 0; i < n; ++i) if (b[i] >= B[i]) imposs = true;
    auto bad = [&](const std::string& w) { r.ok = false; r.why = std::string(FN_NAME[fn]) + ": " + w; return r; };
    if (triv && std::fabs(x - 1) > LT) return bad(fmt("no constraint, yet probability %.17g", x));
    if (imposs && std::fabs(x) > LT) return bad(fmt("impossible event, yet probability %.17g", x));
    if (c.kind == "widen") {
        V wb(b), wB(B); // widen by pulling list entries: b_i -> b_i*s_i style with parameters dv, then re-sorted (pointwise lower / higher)
        for (size_t i = 0; i < wb.size(); ++i) { double s = c.dv[(i + k) % c.dv.size()]; wb[i] = wb[i] * s; }
        for (size_t i = wb.size(); i-- > 1;) wb[i - 1] = std::min(wb[i - 1], wb[i]);
        for (size_t i = 0; i < wB.size(); ++i) { double s = c.dv[(i + 2 * k) % c.dv.size()]; wB[i] = 1 - (1 - wB[i]) * s; }
        for (size_t i = 1; i < wB.size(); ++i) wB[i] = std::max(wB[i], wB[i - 1]);
        fix(wb); fix(wB);
        for (size_t i = 0; i < wb.size(); ++i) wb[i] = std::min(wb[i], b[i]);
        for (size_t i = 0; i < wB.size(); ++i) wB[i] = std::max(wB[i], B[i]);
        fix(wb); fix(wB);
        if (!get(r, fn, wb, wB, y)) return r;
        if (y < x - LT) return bad(fmt("widening the boundary lowers the probability from %.17g to %.17g", x, y));
    } else if (c.kind == "reflect") {
        V rb = reflect(B), rB = reflect(b);
        int fr = two ? fn : fn == NEW_b ? NEW_B : fn == NEW_B ? NEW_b : fn == MNS_b ? MNS_B : MNS_b;
        if (!get(r, fr, rb, rB, y)) return r;
        if (std::fabs(x - y) > LT) return bad(fmt("probability %.17g, reflected %.17g", x, y));
    } else if (c.kind == "split") {
        // X_(k) <= c  or  X_(k) >= c ; needs the two-sided functions for the pieces
        int f2 = two ? fn : (c.iv[2] ? FFT2 : KS2);
        V b0 = b, B0 = B; if (b0.empty()) b0.assign(n, 0.0); if (B0.empty()) B0.assign(n, 1.0);
        size_t j = k % n; double cc = c.dv[0];
        V lB(B0), hb(b0);
        for (size_t i = 0; i <= j; ++i) lB[i] = std::min(lB[i], cc);
        for (size_t i = j; i < n; ++i) hb[i] = std::max(hb[i], cc);
        if (!get(r, f2, b0, lB, y) || !get(r, f2, hb, B0, z)) return r;
        if (y > 1e-6 && z > 1e-6) r.labels.push_back("split:both-parts"); 
        if (std::fabs(x - y - z) > LT) return bad(fmt("probability %.17g, but the parts X_(%zu)<=c and >=c for c=%.17g add up to %.17g + %.17g", x, j + 1, cc, y, z));
    } else { // "sides": all algorithms that apply agree
        for (int f = 0; f < 6; ++f) {
            V p, q;
            bool lowonly = std::all_of(B.begin(), B.end(), [](double t) { return t >= 1; }), uponly = std::all_of(b.begin(), b.end(), [](double t) { return t <= 0; });
            if (f <= FFT2) { if (f == KS2 && n > 400) continue; p = b.empty() ? V(n, 0.0) : b; q = B.empty() ? V(n, 1.0) : B; }
            else if (f == NEW_b || f == MNS_b) { if (!lowonly) continue; p = b.empty() ? V(n, 0.0) : b; }
            else { if (!uponly) continue; q = B.empty() ? V(n, 1.0) : B; }
            if (f >= MNS_b && n > 700) continue;
            if (!get(r, f, p, q, y)) return r;
            if (std::fabs(x - y) > LT) return bad(fmt("probability %.17g, but %s gives %.17g", x, FN_NAME[f], y));
        }
    }
    return r;
}
static Reg c06({"C06", "generated lists and a law (widening, reflection, additive split at a point, agreement of all applicable algorithms), plus range/certain/impossible checks on every evaluation; n swept 1..300 and drawn up to 1500; non-trivial: probability in (1e-6, 1-1e-6)",
    60000, 700000,
    [](Rng& r, long idx) {
        Case c; static const char* K[] = {"widen", "reflect", "split", "sides"};
        c.kind = K[idx % 4]; long fn = (idx / 4) % 6; long m = idx / 24; int n;
        if (m % 8 < 7) n = 1 + m % 300; else n = r.chance(.5) ? special_size(r, fn == KS2 ? 300 : 1500) : (int)r.loguni(2, fn == KS2 ? 300 : 1500);
        if (fn >= MNS_b) n = std::min(n, 600);
        if (fn <= FFT2) { if (r.chance(.25)) { std::string f; V v = gen_lower(r, n, f); c.fam = f; if (r.chance(.5)) { c.b = v; c.B.assign(n, 1.0); } else { c.B = reflect(v); c.b.assign(n, 0.0); } } else gen_two_sided(r, n, c.b, c.B, c.fam); }
        else { V v = gen_lower(r, n, c.fam); if (fn == NEW_b || fn == MNS_b) c.b = v; else c.B = reflect(v); }
        c.iv = {fn, r.range(0, n - 1), r.range(0, 1)};
        if (c.kind == "widen") { int k = r.range(1, 7); for (int i = 0; i < k; ++i) c.dv.push_back(r.chance(.3) ? 1.0 : r.chance(.1) ? 0.0 : r.u()); }
        else if (c.kind == "split") { double q = (c.iv[1] + 1.0) / (n + 1); c.dv = {std::min(1.0, std::max(0.0, q + std::sqrt(q * (1 - q) / (n + 2.0)) * r.uni(-2, 2)))}; if (r.chance(.1)) c.dv = {r.pick(std::vector<double>{0, 1, .5})}; if (r.chance(.2)) { const V& w = c.b.empty() ? c.B : c.b; c.dv = {r.pick(w)}; } }
        return c;
    }, law_check, shrink_lists});
