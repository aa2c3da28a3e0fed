// Reference oracles. None of this code is derived from the algorithms under test beyond the mathematics.
#pragma once
#include <vector>
typedef std::vector<double> V;

// Pr[b_i <= X_(i) <= B_i] for the order statistics of n uniforms (n >= list sizes).
// b: lower limits for the first |b| order statistics, B: upper limits for the first |B|; an empty list imposes nothing.
// Full positive-term dynamic programme in long double (relative accuracy, about n*1e-18).
long double ref_ecdf_rel(int n, const V& b, const V& B);
// Same with negligible (< 1e-35 absolute) terms dropped, in double: for larger n, absolute accuracy about 1e-13*sqrt(n).
double ref_ecdf_abs(int n, const V& b, const V& B);
// Poisson process with given intensity on [0,1]: at least |B| jumps, i-th jump <= B_i, >= b_i, at most |b| jumps if |b|>0.
double ref_poisson(double intensity, const V& b, const V& B);

// Closed forms.
double ks_two_sided(int n, double d);          // P(|F_n(t) - t| < d for all t), Marsaglia-Tsang-Wang
// v is, up to rel, a value between those for the lists narrowed and widened by 2^-52: the closest a computation that rounds differences of bounds can get
bool ref_between(int n, const V& b, const V& B, long double v, long double rel);
double ks_one_sided(int n, double d);              // Pr[X_(i) >= i/n - d for all i]  (Birnbaum-Tingey)
double binom_upper_tail(int n, int k, double x);   // Pr[Bin(n,x) >= k] = Pr[X_(k) <= x]
double binom_two_sided_log10p(long N, long k, double p); // log10 of a conservative two-sided tail probability of k under Bin(N,p)
