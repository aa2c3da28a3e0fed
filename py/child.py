"""Executes requests of check_c13.py against the Python module, in an interpreter of its own. argv[1]: module directory."""
import array, collections.abc, ctypes, decimal, fractions, gc, os, pickle, struct, sys, threading, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
nul = os.open(os.devnull, os.O_RDWR)
os.dup2(nul, 0)
os.dup2(nul, 1)
import crossprob

VectorDouble = crossprob.VectorDouble
try:        # the interpreter has none of its own; this one is built for the same version
    sys.path.append("/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2])
    import numpy
except Exception:
    numpy = None
sys.path.pop()


class L(list):
    pass


class T(tuple):
    pass


class F(float):
    pass


class HasFloat:
    def __init__(self, v): self.v = v
    def __float__(self): return self.v


class Seq(collections.abc.Sequence):
    def __init__(self, v): self.v = v
    def __len__(self): return len(self.v)
    def __getitem__(self, i): return self.v[i]


class ItemRaises(Seq):      # like a pandas Series without the label 0
    def __getitem__(self, i): raise KeyError(i)


class LenTooLong(Seq):
    def __len__(self): return len(self.v) + 5


class mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = mallinfo2


def heap():
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd, sys.getallocatedblocks()


FN = {f: getattr(crossprob, f) for f in ("ecdf2", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B")}
CT = {"list": list, "tuple": tuple, "vector": VectorDouble, "listsub": L, "tuplesub": T, "array": lambda v: array.array("d", v), "seq": Seq}
ET = {"float": float, "mixed": lambda x: int(x) if x == int(x) else x, "floatsub": F, "bool": lambda x: bool(x) if x in (0, 1) else x}


def readonly(v):
    a = numpy.array(v, float)
    a.flags.writeable = False
    return a


NP = {"numpy": lambda v: numpy.array(v, float), "npstrided": lambda v: numpy.array([y for x in v for y in (x, -7.0)], float)[::2], "npreversed": lambda v: numpy.array(v[::-1], float)[::-1],
      "npreadonly": readonly, "npcolumn": lambda v: numpy.array([[x, 7.0] for x in v], float).reshape(len(v), 2)[:, 0], "npscalars": lambda v: list(numpy.array(v, float)),
      "npint": lambda v: numpy.array([int(x) if abs(x) < 1e9 else 5 for x in v], int), "npfloat32": lambda v: numpy.array(v, "f4"), "npobject": lambda v: numpy.array(v, object)}
CT.update(NP if numpy else {k: list for k in NP})


def convert(v, ct, et):
    if ct in NP:
        et = "float"
    e = ET[et]
    return CT[ct]([e(x) if abs(x) < 1e300 and x == x else x for x in v])


def outcome(f):
    try:
        r = f()
        return ("value", r, type(r).__name__)
    except BaseException as e:
        return ("error", type(e).__name__, str(e))


def snap(x):
    return [repr(float(v)) for v in x]


def call(q):
    args = [convert(v, q["ctype"], q["etype"]) for v in q["lists"]]
    before = [snap(a) for a in args]
    items = [x for a in args if q["ctype"] != "vector" for x in list(a)[:3]]
    rest = (q["fft"],) if q["fn"] == "ecdf2" else ()
    f = FN[q["fn"]]
    names = {"ecdf2": ["b", "B", "use_fft"]}.get(q["fn"], [q["fn"][-1]])
    rc = [sys.getrefcount(a) for a in args] + [sys.getrefcount(x) for x in items]
    if q["kw"]:
        kw = dict(zip(names, tuple(args) + rest))
        r = outcome(lambda: f(**kw))
        del kw
    else:
        r = outcome(lambda: f(*(tuple(args) + rest)))
    rc2 = [sys.getrefcount(a) for a in args] + [sys.getrefcount(x) for x in items]
    after = [snap(a) for a in args]
    return {"outcome": r, "modified": before != after, "refs": rc != rc2}


def types(q):
    env = {k: v for k, v in globals().items() if k in ("VectorDouble", "L", "T", "F", "HasFloat", "Seq", "ItemRaises", "LenTooLong", "array", "decimal", "fractions", "crossprob", "numpy")}
    try:
        args = [eval(a, env) for a in q["args"]]
    except Exception as e:
        return {"skip": repr(e)}
    r = outcome(lambda: FN[q["fn"]](*args))
    plain = []
    for a in q["args"]:
        try:
            a = eval(a, env)
            plain.append(a if isinstance(a, bool) else [float(x) for x in a])
        except Exception:
            plain.append(None)
    again = outcome(lambda: crossprob.ecdf1_new_b([0.25]))      # the interpreter's error state is clean
    return {"outcome": r, "plain": plain, "again": again}


def vector(q):
    """v: the module's vector, l: the model"""
    l = list(q["init"])
    v = VectorDouble(convert(l, q["ctype"], "float")) if q["init"] or q["ctype"] != "empty" else VectorDouble()
    other = None
    for n, st in enumerate(q["steps"]):
        op, a = st[0], st[1:]
        def run(x, isv):
            if op == "append": return x.append(a[0])
            if op == "push_back": return x.push_back(a[0]) if isv else x.append(a[0])
            if op == "pop": return x.pop()
            if op == "get": return x[a[0]]
            if op == "set": x[a[0]] = a[1]; return None
            if op == "del": del x[a[0]]; return None
            if op == "delslice": del x[slice(*a)]; return None
            if op == "slice": return list(x[slice(*a)])
            if op == "setslice": x[slice(*a[1:])] = (type(x) if len(a[0]) % 2 else list)(a[0]); return None
            if op == "clear": return x.clear()
            if op == "len": return len(x)
            if op == "size": return x.size() if isv else len(x)
            if op == "empty": return x.empty() if isv else not x
            if op == "bool": return bool(x)
            if op == "iter": return [y for y in x]
            if op == "reversed": return list(reversed(list(x)))
            if op == "contains": return a[0] in x
            if op == "copy": return list(VectorDouble(x)) if isv else list(x)
            if op == "sum": return [max(x), min(x), sorted(x)]
            if op == "front": return x.front() if isv else x[0]
            if op == "back": return x.back() if isv else x[-1]
            if op == "resize":
                if isv: x.resize(a[0], a[1])
                else: x[:] = x[:a[0]] + [a[1]] * (a[0] - len(x))
                return None
            if op == "assign":
                if isv: x.assign(a[0], a[1])
                else: x[:] = [a[1]] * a[0]
                return None
            if op == "reserve": return x.reserve(a[0]) if isv else None
            raise AssertionError(op)
        if op in ("front", "back", "sum") and not l:
            continue
        if op == "slice" and a[0] is not None and a[0] >= len(l):      # SWIG's own defect, see known_findings.txt
            continue
        r = []
        for x, isv in ((v, True), (l, False)):
            try:
                r.append(("ok", run(x, isv)))
            except Exception as e:
                r.append(("error", type(e).__name__))
        if repr(r[0]) != repr(r[1]):
            return "step %d %s: vector gives %r, a list %r" % (n, st, r[0], r[1])
        if len(v) != len(l) or repr(list(v)) != repr([float(x) for x in l]):
            return "after step %d %s: vector holds %r, a list %r" % (n, st, list(v)[:8], l[:8])
    return ""


def memory(q):
    if "args" in q:
        def one():
            return types(q)
    else:
        def one():
            return call(q)
    for more in (1, 1, 4):      # caches grow for some hundred calls; a leak grows in every window of every round
        w = []
        for k in range(8):
            for _ in range(q["reps"] * more):
                one()
            w.append(heap())
        b = all(w[i + 1][0] - w[i][0] >= 8 * q["reps"] * more for i in range(1, 7))
        o = all(w[i + 1][1] - w[i][1] >= q["reps"] * more for i in range(1, 7))
        if not b and not o:
            break
    return {"bytes": b, "objects": o, "windows": w}


def expr(q):
    return {"outcome": outcome(lambda: eval(q["expr"], dict(globals())))}


def threads(q):
    """the calls one after the other, then from several threads; each gives the same"""
    def one(c):
        r = outcome(lambda: FN[c["fn"]](*([convert(v, c["ctype"], c["etype"]) for v in c["lists"]] + ([c["fft"]] if c["fn"] == "ecdf2" else []))))
        return r
    expect = [one(c) for c in q["calls"]]
    got = [[] for _ in range(q["threads"])]
    go = threading.Barrier(q["threads"])
    def work(t):
        go.wait()
        for r in range(q["reps"]):
            for k in range(len(q["calls"])):
                k = (k + t) % len(q["calls"])
                got[t].append((k, one(q["calls"][k])))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=work, args=(t,)) for t in range(q["threads"])]
    for t in ts: t.start()
    for t in ts: t.join()
    sys.setswitchinterval(interval)
    for t in range(q["threads"]):
        if len(got[t]) != q["reps"] * len(q["calls"]):
            return "thread %d ended early" % t
        for k, r in got[t]:
            e = expect[k]
            if r[0] != e[0] or (abs(r[1] - e[1]) > 1e-10 if r[0] == "value" else r != e):
                return "%s with %d entries gives %r in one of %d threads, alone %r" % (q["calls"][k]["fn"], len(q["calls"][k]["lists"][0]), r, q["threads"], e)
    return ""


def fork(q):
    """some of the calls, then all of them in a child process, then all of them in this one; each gives the same"""
    def one(c):
        return outcome(lambda: FN[c["fn"]](*([convert(v, c["ctype"], c["etype"]) for v in c["lists"]] + ([c["fft"]] if c["fn"] == "ecdf2" else []))))
    first = [one(c) for c in q["calls"][:q["before"]]]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        libc.prctl(1, 9)        # not to outlive the parent
        os.write(w, pickle.dumps([one(c) for c in q["calls"]]))
        os._exit(0)
    os.close(w)
    s = b""
    while True:
        t = os.read(r, 65536)
        if not t:
            break
        s += t
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if st:
        return "a child process ends with status %d" % st
    child, here = pickle.loads(s), [one(c) for c in q["calls"]]
    for k, h in enumerate(here):
        for where, o in (("in a child process", child[k]),) + ((("before", first[k]),) if k < len(first) else ()):
            if o[0] != h[0] or (abs(o[1] - h[1]) > 1e-10 if h[0] == "value" else o != h):
                return "%s with %d entries gives %r %s, %r afterwards in the parent" % (q["calls"][k]["fn"], len(q["calls"][k]["lists"][0]), o, where, h)
    return ""


def batch(q):
    return [outcome(lambda: FN[fn](*args)) for fn, args in q["calls"]]


OPS = {"batch": batch, "fork": fork, "threads": threads, "call": call, "types": types, "vector": vector, "memory": memory, "expr": expr}
while True:
    h = inp.read(4)
    if len(h) < 4:
        break
    q = pickle.loads(inp.read(struct.unpack("<I", h)[0]))
    a = OPS[q["op"]](q)
    try:
        s = pickle.dumps(a)
    except Exception:
        s = pickle.dumps({"outcome": ("value", repr(a)[:200], "unpicklable"), "plain": [], "again": None})
    out.write(struct.pack("<I", len(s)) + s)
    out.flush()
