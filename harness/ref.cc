#include "ref.hh"
#include <algorithm>
#include <cmath>

namespace {
struct Step { double t; int cap, need; };  // state N(t) must satisfy need <= N(t) <= cap after the interval ending at t

// cap(t): number of b_i strictly below t is the largest count possible just before t; N(t)=N(t-) almost surely.
std::vector<Step> steps(const V& b, const V& B, int maxcount) {
    V T(b);
    T.insert(T.end(), B.begin(), B.end());
    T.push_back(1.0);
    std::sort(T.begin(), T.end());
    T.erase(std::unique(T.begin(), T.end()), T.end());
    std::vector<Step> s;
    size_t ib = 0, iB = 0;
    for (double t : T) {
        while (ib < b.size() && b[ib] < t) ++ib;
        while (iB < B.size() && B[iB] <= t) ++iB;
        s.push_back({t, b.empty() ? maxcount : (int)ib, (int)iB});
    }
    return s;
}

template <class F>
bool propagate(double intensity, const std::vector<Step>& S, int maxcount, std::vector<F>& cur, int& lo, int& hi, F drop) {
    // cur[lo..hi] = distribution of the count at time prev restricted to paths that satisfied everything so far
    cur.assign(maxcount + 1, F(0));
    cur[0] = 1; lo = hi = 0;
    double prev = 0;
    std::vector<F> nx(maxcount + 1, F(0)), w(maxcount + 1, F(0));
    std::vector<long double> lg(maxcount + 2);
    for (int i = 0; i <= maxcount + 1; ++i) lg[i] = lgammal((long double)i + 1);
    for (const Step& s : S) {
        if (s.t <= 0) {           // count at time 0 is 0
            if (s.need > 0) return false;
            continue;
        }
        int nlo = std::max(lo, s.need), nhi = std::min(s.cap, maxcount);
        if (nlo > nhi) return false;
        long double lam = ((long double)s.t - (long double)prev) * intensity;
        long double ll = std::log(lam);
        int K = nhi - lo, k0 = K + 1, k1 = -1;
        for (int k = 0; k <= K; ++k) {
            F a = (F)(-lam + k * ll - lg[k]);
            w[k] = std::exp(a);
            if (w[k] > drop) { if (k1 < 0) k0 = k; k1 = k; }
            else if (drop > 0 && k > lam + 1) break;
        }
        std::fill(nx.begin() + lo, nx.begin() + nhi + 1, F(0));
        for (int k = k0; k <= k1; ++k) {
            F wk = w[k];
            int a = std::max(lo, nlo - k), z = std::min(hi, nhi - k);
            F* d = nx.data() + k; const F* c = cur.data();
            for (int i = a; i <= z; ++i) d[i] += wk * c[i];
        }
        lo = nlo; hi = nhi;
        std::swap(cur, nx);
        if (drop > 0) {
            while (lo < hi && cur[hi] <= drop) { cur[hi] = 0; --hi; }
            while (lo < hi && cur[lo] <= drop) { cur[lo] = 0; ++lo; }
        } else {
            while (lo < hi && cur[hi] == 0) --hi;
            while (lo < hi && cur[lo] == 0) ++lo;
        }
        prev = s.t;
    }
    return true;
}
}

template <class F>
static F ecdf_impl(int n, const V& b, const V& B, F drop) {
    if (n == 0) return 1;
    if (!b.empty() && (int)b.size() < n) return 0;
    std::vector<Step> S = steps(b, B, n);
    S.back().need = std::max(S.back().need, n);
    // t = 1 is the last step: all n points have arrived; b_i = 1 for some i <= n makes cap < n there, hence probability 0
    std::vector<F> cur; int lo, hi;
    if (!propagate<F>(n, S, n, cur, lo, hi, drop)) return 0;
    if (hi < n || cur[n] <= 0) return 0;
    long double lp = -(long double)n + n * std::log((long double)n) - lgammal((long double)n + 1);
    return (F)std::exp(std::log((long double)cur[n]) - lp);
}
long double ref_ecdf_rel(int n, const V& b, const V& B) { return ecdf_impl<long double>(n, b, B, 0.0L); }
double ref_ecdf_abs(int n, const V& b, const V& B) { return ecdf_impl<double>(n, b, B, 1e-40); }

bool ref_between(int n, const V& b, const V& B, long double v, long double rel) {
    V nb(b), nB(B), wb(b), wB(B); const double d = 0x1p-52;
    for (double& x : nb) x = std::min(1.0, x + d);
    for (double& x : wb) x = std::max(0.0, x - d);
    for (double& x : nB) x = std::max(0.0, x - d);
    for (double& x : wB) x = std::min(1.0, x + d);
    return v >= (1 - rel) * ref_ecdf_rel(n, nb, nB) - 2e-280L && v <= (1 + rel) * ref_ecdf_rel(n, wb, wB) + 2e-280L;
}

double ref_poisson(double intensity, const V& b, const V& B) {
    if (!b.empty() && b.size() < B.size()) return 0;
    int maxc = b.empty() ? std::max((int)B.size(), (int)(intensity + 14 * std::sqrt(intensity) + 80)) : (int)b.size();
    if (intensity == 0) return 1.0;  // no lists at all
    std::vector<Step> S = steps(b, B, maxc);
    S.back().need = std::max(S.back().need, (int)B.size());
    std::vector<double> cur; int lo, hi;
    if (!propagate<double>(intensity, S, maxc, cur, lo, hi, 1e-40)) return 0;
    double s = 0;
    for (int i = lo; i <= hi; ++i) s += cur[i];
    return s;
}

double ks_one_sided(int n, double d) {
    if (d >= 1) return 1;
    if (d <= 0) return 0;
    long double s = 0;
    for (int j = 0; j <= n; ++j) {
        long double u = d + (long double)j / n, v = 1 - u;
        if (v < 0) break;
        if (v == 0) { if (n - j == 0) s += std::exp((j - 1) * std::log(u)); break; }
        s += std::exp(lgammal(n + 1.0L) - lgammal(j + 1.0L) - lgammal(n - j + 1.0L) + (n - j) * std::log(v) + (j - 1) * std::log(u));
    }
    return (double)(1 - d * s);
}

// Marsaglia, Tsang & Wang (2003): P(D_n < d) is an entry of the n-th power of a small matrix
double ks_two_sided(int n, double d) {
    if (d >= 1) return 1;
    if (2 * n * d <= 1) return 0;
    int k = (int)(n * d) + 1, m = 2 * k - 1; double h = k - n * d;
    typedef std::vector<double> M; M H(m * m, 0.0), Q(m * m, 0.0), T(m * m);
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) H[i * m + j] = i - j + 1 < 0 ? 0 : 1;
    for (int i = 0; i < m; ++i) { H[i * m] -= std::pow(h, i + 1); H[(m - 1) * m + i] -= std::pow(h, m - i); }
    H[(m - 1) * m] += 2 * h - 1 > 0 ? std::pow(2 * h - 1, m) : 0;
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) if (i - j + 1 > 0) H[i * m + j] /= std::exp(lgammal(i - j + 2.0L));
    long eH = 0, eQ = 0;   // powers of two taken out of H and Q
    auto norm = [&](M& A, long& e) { double x = 0; for (double y : A) x = std::max(x, std::fabs(y)); int q = 0; std::frexp(x, &q); for (double& y : A) y = std::ldexp(y, -q); e += q; };
    auto mul = [&](const M& A, const M& B, M& C) { std::fill(C.begin(), C.end(), 0.0); for (int i = 0; i < m; ++i) for (int l = 0; l < m; ++l) { double a = A[i * m + l]; if (a != 0) for (int j = 0; j < m; ++j) C[i * m + j] += a * B[l * m + j]; } };
    for (int i = 0; i < m; ++i) Q[i * m + i] = 1;
    for (int e = n; e;) {
        if (e & 1) { mul(Q, H, T); Q.swap(T); eQ += eH; norm(Q, eQ); }
        if (e >>= 1) { mul(H, H, T); H.swap(T); eH *= 2; norm(H, eH); }
    }
    double q = Q[(k - 1) * m + k - 1];
    return q <= 0 ? 0 : (double)std::exp(std::log((long double)q) + eQ * std::log(2.0L) + lgammal(n + 1.0L) - n * std::log((long double)n));
}

double binom_upper_tail(int n, int k, double x) {
    if (k <= 0) return 1;
    if (x <= 0) return 0;
    if (x >= 1) return 1;
    long double up = 0, dn = 0, lx = std::log((long double)x), l1 = log1pl(-(long double)x);
    for (int j = 0; j <= n; ++j) {
        long double t = std::exp(lgammal(n + 1.0L) - lgammal(j + 1.0L) - lgammal(n - j + 1.0L) + j * lx + (n - j) * l1);
        if (j >= k) up += t; else dn += t;
    }
    return (double)(up < dn ? up : 1 - dn);
}

// Chernoff bound in both directions: P(|.|>=) <= 2 exp(-N KL(k/N || p)); conservative, valid for every N and p.
double binom_two_sided_log10p(long N, long k, double p) {
    if (p <= 0) return k == 0 ? 0 : -1e9;
    if (p >= 1) return k == N ? 0 : -1e9;
    double q = (double)k / N, kl = 0;
    if (q > 0) kl += q * std::log(q / p);
    if (q < 1) kl += (1 - q) * std::log((1 - q) / (1 - p));
    double l = std::log10(2.0) - N * kl / std::log(10.0);
    return l > 0 ? 0 : l;
}
