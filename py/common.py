"""Shared by the Python checks: arguments, child interpreters, Hypothesis workers."""
import argparse, hashlib, json, os, pickle, select, struct, subprocess, sys, time
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
for o in ("lib", "lib2", "prod", "tier", "out", "scratch", "replay", "san"):
    ap.add_argument("--" + o)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--limit", type=float, default=500)
ap.add_argument("--worker", type=int, default=-1)
A = ap.parse_args()
HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = 8


class Dead(Exception):
    pass


class Child:
    def __init__(self, cmd):
        self.cmd, self.p = cmd, None

    def start(self):
        self.err = open("%s/child-err.%d" % (A.scratch, os.getpid()), "w+")
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)

    def io(self, data, reader, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                raise Dead("no answer within %d s" % timeout)
            return reader(self.p.stdout)
        except (BrokenPipeError, EOFError, struct.error):
            code = self.p.wait()
            self.err.seek(0)
            t = self.err.read()[-300:]
            self.p = None
            raise Dead("ended with status %d %s" % (code, t))


def read(f, n):
    s = f.read(n)
    if len(s) < n:
        raise EOFError
    return s


class Py(Child):
    def __call__(self, q):
        s = pickle.dumps(q)
        return self.io(struct.pack("<I", len(s)) + s, lambda f: pickle.loads(read(f, struct.unpack("<I", read(f, 4))[0])))


class Native(Child):
    FN = {"ecdf1_new_b": 2, "ecdf1_new_B": 3, "ecdf1_mns2016_b": 4, "ecdf1_mns2016_B": 5}

    def __call__(self, fn, lists, fft):
        k = int(bool(fft)) if fn == "ecdf2" else self.FN[fn]
        b, B = (lists[0], lists[1]) if fn == "ecdf2" else (lists[0], []) if k in (2, 4) else ([], lists[0])
        q = struct.pack("<3I", k, len(b), len(B)) + struct.pack("<%dd" % (len(b) + len(B)), *b, *B)
        def rd(f):
            st, v, h, n = struct.unpack("<idQI", read(f, 24))
            return st, v, read(f, n).decode()
        return self.io(q, rd)


PY = {"committed": Py(["/usr/bin/python3", HERE + "/child.py", A.lib]), "regenerated": Py(["/usr/bin/python3", HERE + "/child.py", A.lib2])}
if A.san:
    pre, libs = json.loads(A.san)
    for k, l in zip(list(PY), libs):
        PY[k + ", sanitized"] = Py(pre + [HERE + "/child.py", l])
NATIVE = Native([A.prod + "/sut"])


def worker(K):
    from hypothesis import given, settings, seed, HealthCheck, Phase
    t0 = time.time()
    res = {"evaluations": 0, "distinct": 0, "nontrivial": set(), "samples": [], "labels": {}, "rule": K.RULE, "violations": [], "skipped": 0, "unreproduced": []}
    distinct = set()

    def record(c):
        res["evaluations"] += 1
        k = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]
        distinct.add(k)
        for l in K.labels(c):
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if K.nontrivial(c):
            res["nontrivial"].add(k)
            if len(res["samples"]) < 1 or (c.get("op") != "call" and len(res["samples"]) < 2 and A.worker == 0):
                res["samples"].append(json.dumps(c)[:600])

    if A.worker == 0:
        for c in K.enumerated():
            w = K.check(c)
            record(c)
            if w:
                res["violations"].append({"text": w + " | " + str(c.get("expr")), "case": json.dumps(c, sort_keys=True)})
    scale = (12 if A.tier == "thorough" else 1) * float(os.environ.get("VERIF_SCALE") or 1)
    for name, strat in K.strategies().items():
        last = {}

        class Found(Exception):
            pass

        @seed(A.seed * 1000 + A.worker)
        @settings(max_examples=max(1, int(K.COUNT[name] * scale)), database=None, deadline=None, report_multiple_bugs=False, suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
        @given(strat)
        def prop(c):
            if time.time() - t0 > A.limit and not last:
                res["skipped"] += 1
                return
            if last and time.time() - last["t"] > 40:      # enough shrinking
                return
            w = K.check(c)
            if not last:
                record(c)
            if w:
                last["c"], last["w"] = c, w
                last.setdefault("t", time.time())
                raise Found(w)
        try:
            prop()
        except Found:
            pass
        except BaseException as e:
            if not last:
                raise
        if last:
            for p in list(PY.values()) + [NATIVE]:
                if p.p:
                    p.p.kill()
                    p.p.wait()
                    p.p = None
            ws = [K.check(last["c"]) for _ in range(2)]
            if all(ws):
                res["violations"].append({"text": ws[0], "case": json.dumps(last["c"], sort_keys=True)})
            else:
                res["unreproduced"].append(last["w"])
    res["distinct"] = len(distinct)
    res["nontrivial"] = sorted(res["nontrivial"])
    json.dump(res, open(A.out, "w"))


def main(K):
    if A.replay:
        c = json.load(open(A.replay))
        w = K.check(c)
        print(json.dumps(c)[:1000])
        print("FAILS: " + w if w else "holds")
        return 1 if w else 0
    if A.worker >= 0:
        worker(K)
        return 0
    ps = []
    for w in range(WORKERS):
        a = list(sys.argv)
        a[a.index("--out") + 1] = "%s/out-%d.json" % (A.scratch, w)
        ps.append(subprocess.Popen([sys.executable] + a + ["--worker", str(w)], stdin=subprocess.DEVNULL))
    codes = [p.wait() for p in ps]
    total = None
    for w in range(WORKERS):
        j = json.load(open("%s/out-%d.json" % (A.scratch, w)))
        if total is None:
            total = j
            continue
        for k in ("evaluations", "distinct", "skipped"):
            total[k] += j[k]
        for k in ("samples", "violations", "unreproduced", "nontrivial"):
            total[k] += j[k]
        for k, n in j["labels"].items():
            total["labels"][k] = total["labels"].get(k, 0) + n
    total["nontrivial"] = sorted(set(total["nontrivial"]))
    json.dump(total, open(A.out, "w"))
    return 0 if not any(codes) else 2

