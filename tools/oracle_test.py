#!/usr/bin/env python3
"""The reference model (harness/ref.cc) against exact enumeration with rationals, for boundaries on a grid: every way to put n points into the m cells, weighted by the multinomial probability."""
import ctypes, math, os, random, subprocess, sys, tempfile
from fractions import Fraction as F
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
d = tempfile.mkdtemp()
open(d + "/w.cc", "w").write('''#include "ref.hh"
extern "C" double ecdf(int n, const double* b, int nb, const double* B, int nB) { return (double)ref_ecdf_rel(n, V(b, b + nb), V(B, B + nB)); }
extern "C" double ecdf2(int n, const double* b, int nb, const double* B, int nB) { return ref_ecdf_abs(n, V(b, b + nb), V(B, B + nB)); }
extern "C" double poisson(double l, const double* b, int nb, const double* B, int nB) { return ref_poisson(l, V(b, b + nb), V(B, B + nB)); }
''')
subprocess.check_call(["g++", "-O2", "-std=c++17", "-shared", "-fPIC", "-I" + H, "-o", d + "/w.so", d + "/w.cc", H + "/ref.cc"])
so = ctypes.CDLL(d + "/w.so")
subprocess.call(["rm", "-rf", d])
for f in (so.ecdf, so.ecdf2, so.poisson): f.restype = ctypes.c_double
def arr(v): return (ctypes.c_double * max(1, len(v)))(*v)
def compositions(n, m):
    if m == 1: yield (n,); return
    for k in range(n + 1):
        for r in compositions(n - k, m - 1): yield (k,) + r
def ok_counts(c, b, B, m):
    # cumulative counts at grid points j/m. X_(i) >= b_i iff #points below b_i is <= i-1; X_(i) <= B_i iff #points up to B_i is >= i
    cum = [0]
    for k in c: cum.append(cum[-1] + k)
    return all(cum[x] <= i for i, x in enumerate(b)) and all(cum[x] >= i + 1 for i, x in enumerate(B))
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
worst = worstp = 0
cases = 3000
for t in range(cases):
    n, m = rnd.randint(1, 6), rnd.choice([2, 4, 5, 8][: 4 if t % 3 else 3])
    kind = rnd.randint(0, 3)
    b = sorted(rnd.randint(0, m) * rnd.randint(0, 1) for _ in range(n)) if kind != 1 else []
    B = sorted(m - rnd.randint(0, m) * rnd.randint(0, 1) for _ in range(n)) if kind != 2 else []
    if kind == 3: B = B[: rnd.randint(0, n)]
    if not b and not B: continue
    n = max(len(b), len(B))
    p = F(0)
    for c in compositions(n, m):
        if ok_counts(c, b, B, m):
            w = math.factorial(n)
            for k in c: w //= math.factorial(k)
            p += F(w, m ** n)
    fb, fB = [x / m for x in b], [x / m for x in B]
    if m == 5: pass     # k/5 is not exact in binary: still right to rounding
    for f in (so.ecdf, so.ecdf2):
        r = f(n, arr(fb), len(fb), arr(fB), len(fB))
        e = abs(r - float(p)) / max(float(p), 1e-300) if p else r
        worst = max(worst, e)
        assert e < 1e-13, (n, b, B, m, r, float(p))
    # Poisson with intensity n: sum over the number of jumps; X_(i) of the i-th jump, constraints b only for i <= number of jumps; needs len(B) <= jumps, and jumps <= len(b) if b
    q, top = 0.0, (len(b) if b else n + 40)
    if t % 10 == 0 or b:
        for N in range(len(B), top + 1):
            if not b and N > 14: break
            pn = F(0)
            for c in compositions(N, m):
                if ok_counts(c, b[:N], B, m):
                    w = math.factorial(N)
                    for k in c: w //= math.factorial(k)
                    pn += F(w, m ** N)
            q += float(pn) * math.exp(-n) * n ** N / math.factorial(N)
        r = so.poisson(ctypes.c_double(n), arr(fb), len(fb), arr(fB), len(fB))
        if b:
            worstp = max(worstp, abs(r - q))
            assert abs(r - q) < 1e-12, ("poisson", n, b, B, m, r, q)
print("%d boundaries: reference model agrees with exact enumeration, relative error at most %.1e (ecdf), absolute %.1e (Poisson)" % (cases, worst, worstp))
