"""C21: p-values, power and confidence bands of goodness-of-fit tests computed with the module and the program, end to end."""
import math, os, subprocess, sys
os.environ["OPENBLAS_NUM_THREADS"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import A, Dead, PY, main
import numpy as np
from scipy import special, stats
RULE = ("Hypothesis cases per worker: a test (Kolmogorov-Smirnov, studentised, higher criticism, Renyi, Berk-Jones; one- or two-sided; all or a window of the order statistics), a sample size and "
        "a seed for samples; p-values by the Python modules or the program against scipy's exact distributions, Noe-type recursion, bounds for minimum-p statistics, and simulation (calibration, "
        "power); inversion to confidence bands. Non-trivial: sample size at least 2 and a p-value, level or power within (1e-6, 1-1e-6).")
COUNT = {"pvalue": 2500, "law": 200, "quantile": 50, "calibration": 16, "power": 80}
FAMILIES = ["ks", "student", "hc", "renyi", "bj"]
LOG_ALARM = math.log(2e11)      # a right program fails one simulated comparison with probability 1e-11, and it must fail twice


def lower(c, t, n, w):
    """b with: the statistic's lower half is < t exactly if X_(i) >= b_i for the i in the window w"""
    i = np.arange(1, n + 1)
    if c["family"] == "ks":
        v = i / n - t
    elif c["family"] == "student":
        q = i / (n + 1)
        v = q - t * np.sqrt(q * (1 - q) / (n + 2))
    elif c["family"] == "hc":
        f, g = i / n, t * t / n
        v = (2 * f + g - math.copysign(1, t) * np.sqrt(g * g + 4 * g * f * (1 - f))) / (2 * (1 + g))
    elif c["family"] == "renyi":
        v = i / n / max(1e-300, 1 + t)
    else:
        v = special.betaincinv(i, n + 1 - i, math.exp(-t))
    v = np.clip(v, 0, 1)
    v[:w[0]] = 0
    v[w[1] + 1:] = v[w[1]]
    return np.maximum.accumulate(v)


def half(c, x, w):
    """the statistic's lower half, for the rows of x"""
    n = x.shape[1]
    i = np.arange(1, n + 1)
    if c["family"] == "ks":
        s = i / n - x
    elif c["family"] == "student":
        q = i / (n + 1)
        s = (q - x) / np.sqrt(q * (1 - q) / (n + 2))
    elif c["family"] == "hc":
        s = (i / n - x) / np.sqrt(x * (1 - x) / n)
    elif c["family"] == "renyi":
        s = i / n / x - 1
    else:
        s = -np.log(special.betainc(i, n + 1 - i, x))
    return s[:, w[0]:w[1] + 1].max(axis=1)


def window(c, n):
    k = sorted(min(n - 1, int(u * n)) for u in c["window"]) if c["window"] else [0, n - 1]
    return k, [n - 1 - k[1], n - 1 - k[0]]


def flip(v):
    return 1 - v[..., ::-1]


def bounds(c, t, n):
    w, r = window(c, n)
    b = lower(c, t, n, w) if c["side"] != "upper" else np.zeros(n)
    B = flip(lower(c, t, n, r)) if c["side"] != "lower" else np.ones(n)
    return b, np.clip(B, 0, 1)


def statistic(c, x):
    n = x.shape[1]
    w, r = window(c, n)
    s = []
    if c["side"] != "upper":
        s.append(half(c, x, w))
    if c["side"] != "lower":
        s.append(half(c, flip(x), r))
    return np.maximum.reduce(s)


def samples(c, N, n, k=0, beta=None):
    g = np.random.Generator(np.random.PCG64([c["seed"], k]))
    x = np.sort(g.beta(beta[0], beta[1], (N, n)) if beta else g.random((N, n)), axis=1)
    return np.clip(x, 1e-12, 1 - 1e-12)


class Wrong(Exception):
    pass


def request(c, b, B):
    """the call that a user makes for these boundaries: function name and arguments"""
    b, B, h = b.tolist(), B.tolist(), c["how"] % 4
    if c["side"] == "both" or h < 2:
        return "ecdf2", (b, B, bool(h % 2))
    f = "ecdf1_new_" if h == 2 or len(b) > 600 else "ecdf1_mns2016_"
    return (f + "b", (b,)) if c["side"] == "lower" else (f + "B", (B,))


def probabilities(c, lists):
    """P(b <= X <= B) for every pair, through the interface of the case"""
    calls = [request(c, b, B) for b, B in lists]
    if c["route"] != "program":
        out = PY[c["route"]]({"op": "batch", "calls": calls})
        for r in out:
            if r[0] != "value":
                raise Wrong("%s of n=%d raises %s (%s)" % (calls[0][0], len(lists[0][0]), r[1], r[2]))
        return np.array([r[1] for r in out])
    v = []
    path = "%s/c21-%d.txt" % (A.scratch, os.getpid())
    for fn, args in calls:
        command = {"ecdf2": "ecdf2-mn2017" if args[-1] is True else "ecdf2-ks2001"}.get(fn, "ecdf1-new" if "new" in fn else "ecdf1-mns2016")
        one = ", ".join("%.17g" % x for x in args[0])
        lines = [one, ", ".join("%.17g" % x for x in args[1])] if fn == "ecdf2" else [one, ""] if fn[-1] == "b" else ["", one]
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            p = subprocess.run([A.prod + "/crossprob", command, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            raise Wrong("crossprob %s does not end for n=%d" % (command, len(args[0])))
        try:
            v.append(float(p.stdout.decode().strip().split()[-1]))
            assert p.returncode == 0
        except (ValueError, IndexError, AssertionError):
            raise Wrong("crossprob %s of n=%d: status %d, %r" % (command, len(args[0]), p.returncode, p.stdout[-200:]))
    return np.array(v)


def exact(b, B):
    """Noe-type recursion: number of points up to each boundary value, conditional binomials; positive terms only"""
    n = len(b)
    L = np.longdouble
    T = np.unique(np.concatenate([b, B, [1.0]]))
    T = T[T > 0]
    if (B <= 0).any() or (b >= 1).any():
        return 0.0
    lf = np.array([math.lgamma(k + 1) for k in range(n + 1)], dtype=L)
    q = np.zeros(n + 1, dtype=L)     # q[m]: weight of m points so far, times 1/m!-style factors
    q[0] = 1
    prev = L(0)
    for t in T:
        d = L(t) - prev
        w = np.exp(np.arange(n + 1, dtype=L) * np.log(d) - lf)
        hi, lo = int((b < t).sum()), int((B <= t).sum())
        z = np.zeros(n + 1, dtype=L)
        for m in np.nonzero(q)[0]:
            z[m:] += q[m] * w[:n + 1 - m]
        z[hi + 1:] = 0
        z[:lo] = 0
        q, prev = z, L(t)
    return float(q[n] * np.exp(lf[n]))


def kolmogorov(n, d):
    """P(D_n >= d); scipy is exact up to n = 140, beyond it Marsaglia, Tsang and Wang's matrix"""
    if n <= 140:
        return stats.kstwo.sf(d, n)
    if d >= 1 or 2 * n * d <= 1:
        return float(d < 1)
    k = int(n * d) + 1
    m, h = 2 * k - 1, k - n * d
    i = np.arange(m)
    e = i[:, None] - i[None, :] + 1
    H = np.where(e >= 0, 1.0, 0.0)
    H[:, 0] -= h ** (i + 1.0)
    H[-1, :] -= h ** (m - i * 1.0)
    H[-1, 0] += max(0, 2 * h - 1) ** m
    H = np.where(e > 0, H * np.exp(-special.gammaln(np.maximum(e, 1) + 1.0)), H)
    Q, eH, eQ, r = np.eye(m), 0.0, 0.0, n
    while r:
        if r & 1:
            Q = Q @ H
            x = Q.max()
            Q, eQ = Q / x, eQ + eH + math.log(x)
        H = H @ H
        x = H.max()
        H, eH, r = H / x, 2 * eH + math.log(x), r >> 1
    return 1 - Q[k - 1, k - 1] * math.exp(eQ + math.lgamma(n + 1) - n * math.log(n))


def tolerance(c):
    return 2e-6 if c["route"] == "program" else 2e-9


def same(c, what, p, ref, tol):
    if not abs(p - ref) <= tol:
        raise Wrong("%s: %.15g, expected %.15g" % (what, p, ref))


def name(c):
    return "%s %s test%s, n=%d, by %s" % (c["family"], c["side"], " on a window" if c["window"] else "", c["n"], c["route"] + "/" + "ecdf2 direct,ecdf2 FFT,one-sided new,one-sided mns2016".split(",")[c["how"] % 4])


SEEN = []


def check(c):
    del SEEN[:]
    try:
        {"pvalue": pvalue, "law": law, "quantile": quantile, "calibration": calibration, "power": power}[c["op"]](c)
        return ""
    except Wrong as e:
        return "%s: %s" % (name(c), e)
    except Dead as e:
        return "%s: the interpreter died: %s" % (name(c), e)


def cost(c, n):
    return n if not (c["how"] % 4 == 0 and n > 400) else 400        # the direct two-sided algorithm is O(n^3)


def pvalue(c):
    n = cost(c, c["n"])
    x = samples(c, 1, n)
    if c["shift"]:
        x = np.clip(x ** (1 + c["shift"] / math.sqrt(n)), 1e-12, 1 - 1e-12)
    t = statistic(c, x)[0]
    b, B = bounds(c, t, n)
    p = 1 - probabilities(c, [(b, B)])[0]
    SEEN.append(p)
    if c["family"] == "ks" and not c["window"] and t > 0:
        if c["side"] == "both" and n * t < 110:
            same(c, "p-value of D=%.17g" % t, p, kolmogorov(n, t), tolerance(c) + 1e-9)
        elif c["side"] != "both":
            same(c, "p-value of D=%.17g" % t, p, special.smirnov(n, t), tolerance(c) + 1e-9)
    if n <= 70:
        same(c, "p-value of T=%.17g" % t, p, 1 - exact(b, B), tolerance(c))
    if c["family"] == "bj":
        minp_bounds(c, n, t, p)


def minp_bounds(c, n, t, p):
    w, _ = window(c, n)
    s = math.exp(-t)
    m = (w[1] - w[0] + 1) * (2 if c["side"] == "both" else 1)
    tol = tolerance(c)
    if not (min(s, 1) - tol <= p <= m * s + tol):
        raise Wrong("smallest p-value %.12g of %d gives p-value %.12g, outside [min p, m min p]" % (s, m, p))


def scale_of(c, n, u):
    """a threshold around which the p-value is neither 0 nor 1, for u around 1"""
    return {"ks": u / math.sqrt(n), "student": 2 * u, "hc": 3 * u, "renyi": 2 * u * u, "bj": (2 + math.log(n)) * u}[c["family"]]


def law(c):
    n = cost(c, c["n"])
    ts = sorted(scale_of(c, n, u) for u in c["u"])
    p = 1 - probabilities(c, [bounds(c, t, n) for t in ts])
    SEEN.extend(p)
    tol = tolerance(c)
    if (p < -tol).any() or (p > 1 + tol).any():
        raise Wrong("p-values %r" % p.tolist())
    for k in range(len(ts) - 1):
        if p[k + 1] > p[k] + 2 * tol:
            raise Wrong("the p-value rises from %.15g to %.15g as the statistic rises from %.15g to %.15g" % (p[k], p[k + 1], ts[k], ts[k + 1]))
    if c["family"] == "bj":
        for t, q in zip(ts, p):
            minp_bounds(c, n, t, q)


def quantile(c):
    """the confidence band of level 1-alpha by bisection; scipy's critical value, or the coverage of the band"""
    n, alpha = min(cost(c, c["n"]), 400), c["alpha"]
    lo, hi = 0.0, scale_of(c, n, 1)
    tail = lambda t: 1 - probabilities(c, [bounds(c, t, n)])[0]
    for k in range(60):
        if tail(hi) < alpha:
            break
        lo, hi = hi, hi * 2
    else:
        raise Wrong("no threshold has p-value below %g" % alpha)
    for k in range(40):
        m = (lo + hi) / 2
        if tail(m) < alpha:
            hi = m
        else:
            lo = m
    SEEN.append(alpha)
    if c["family"] == "ks" and not c["window"]:
        same(c, "level of the critical value %.15g" % hi, kolmogorov(n, hi) if c["side"] == "both" else special.smirnov(n, hi), alpha, 1e-8 + 2 * tolerance(c))
    if lo == 0:
        return
    b, B = bounds(c, hi, n)
    N = max(2000, min(40000, 1000000 // n))
    simulated(c, "coverage of the band of level %g" % (1 - alpha), N, lambda x: ((x >= b) & (x <= B)).all(axis=1), 1 - alpha, n)


def simulated(c, what, N, event, p, n, beta=None):
    """Chernoff bound, twice"""
    f = []
    for k in (1, 2):
        f.append(float(event(samples(c, N, n, k, beta)).mean()))
        q = f[-1]
        a, z = min(1.0, max(0.0, p + tolerance(c))), min(1.0, max(0.0, p - tolerance(c)))
        p_ = min(max(q, z), a)
        kl = (q * math.log(q / p_) if q > 0 and p_ > 0 else 0 if q == 0 else math.inf) + ((1 - q) * math.log((1 - q) / (1 - p_)) if q < 1 and p_ < 1 else 0 if q == 1 else math.inf)
        if N * kl <= LOG_ALARM:
            return
    raise Wrong("%s: %.10g, but %r of %d simulated samples" % (what, p, f, N))


def calibration(c):
    """p-values of samples from the null hypothesis are uniform (Dvoretzky-Kiefer-Wolfowitz bound, twice)"""
    n, N = min(c["n"], 40), 4000
    if c["route"] == "program":     # too many runs
        c = dict(c, route="committed")
    SEEN.append(.5)
    seen = []
    for k in (1, 2):
        T = statistic(c, samples(c, N, n, k))
        p = np.sort(1 - probabilities(c, [bounds(c, t, n) for t in T]))
        i = np.arange(1, N + 1)
        d = max((i / N - p).max(), (p - (i - 1) / N).max())
        seen.append(d)
        if 2 * N * max(0, d - tolerance(c)) ** 2 <= LOG_ALARM:
            return
    raise Wrong("p-values of %d samples from the null distribution are not uniform: sup |F_N(p) - p| = %r" % (N, seen))


def power(c):
    """X ~ G: the probability that the test accepts is that of the boundaries G(b), G(B)"""
    n = min(c["n"], 250)
    b, B = bounds(c, scale_of(c, n, c["u"][0]), n)
    a = c["beta"]
    G = lambda x: special.betainc(a[0], a[1], x)
    p = probabilities(c, [(np.maximum.accumulate(G(b)), np.maximum.accumulate(G(B)))])[0]
    SEEN.append(p)
    N = max(2000, min(40000, 1000000 // n))
    simulated(c, "acceptance under Beta(%g, %g)" % tuple(a), N, lambda x: ((x >= b) & (x <= B)).all(axis=1), p, n, a)


def enumerated():
    return []


def labels(c):
    return ("op:" + c["op"], "family:" + c["family"], "side:" + c["side"], "route:" + c["route"])


def nontrivial(c):      # asked after check(c)
    return c["n"] >= 2 and any(1e-6 < p < 1 - 1e-6 for p in SEEN)


def strategies():
    from hypothesis import strategies as st
    base = {"family": st.sampled_from(FAMILIES), "side": st.sampled_from(["both", "both", "lower", "upper"]), "route": st.sampled_from(["committed", "committed", "regenerated", "program"]),
            "how": st.integers(0, 3), "seed": st.integers(0, 2 ** 31), "window": st.one_of(st.none(), st.none(), st.tuples(st.floats(0, 1), st.floats(0, 1)).map(list))}
    size = st.one_of(st.integers(1, 70), st.integers(1, 300), st.sampled_from([127, 128, 129, 256, 1000]), st.integers(300, 1800))
    small = st.integers(1, 60)
    def mk(op, **kw):
        return st.fixed_dictionaries(dict(base, op=st.just(op), **kw))
    u = st.floats(.3, 2)
    return {"pvalue": mk("pvalue", n=size, shift=st.one_of(st.just(0.0), st.floats(-.9, 4))), "law": mk("law", n=size, u=st.lists(u, min_size=2, max_size=8)),
            "quantile": mk("quantile", n=st.one_of(small, st.integers(1, 300)), alpha=st.one_of(st.sampled_from([.01, .05, .1, .5, .9]), st.floats(.001, .95))), "calibration": mk("calibration", n=small),
            "power": mk("power", n=st.one_of(small, st.integers(1, 250)), u=st.lists(u, min_size=1, max_size=1), beta=st.tuples(st.floats(.5, 2), st.floats(.5, 2)).map(list))}


if __name__ == "__main__":
    sys.exit(main(sys.modules[__name__]))
