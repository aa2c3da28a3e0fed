"""C13: the Python module against the C++ library. Hypothesis generates the cases; each is executed in a child interpreter."""
import math, os, random, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import A, Dead, NATIVE, PY, main
RULE = ("Hypothesis cases per worker, each on the committed or the regenerated wrapper, a quarter of them built with AddressSanitizer and UndefinedBehaviorSanitizer: calls with generated (valid or spoiled) boundaries as list, tuple, vector, subclass, array or "
        "sequence object, compared with the C++ library (value 1e-10, or the same message); wrongly typed arguments; calls from several threads and in forked processes; operation sequences on the vector type against a list; "
        "repeated calls with heap and object counts. Non-trivial: call with a list of at least 2 entries, any types or memory case, vector sequence of at least 3 steps.")
ALLOWED = ("TypeError", "NotImplementedError", "OverflowError", "ValueError")


def unhex(v):
    return [float.fromhex(x) if x not in ("nan",) else math.nan for x in v]


def check(c):
    """returns '' or what is wrong"""
    py = PY.get(c["wrapper"]) or PY[c["wrapper"].split(",")[0]]
    try:
        return check_(py, c)
    except Dead as e:
        return "the interpreter died: %s" % e


def same_as_library(fn, lists, fft, r):
    st, v, msg = NATIVE(fn, lists, fft)
    if st == 0:
        if r[0] != "value":
            return "raises %s (%s), the library gives %r" % (r[1], r[2], v)
        if r[2] != "float":
            return "returns a %s" % r[2]
        if not abs(r[1] - v) <= 1e-10:
            return "returns %r, the library %r" % (r[1], v)
        return ""
    if r[0] == "value":
        return "returns %r, the library fails with '%s'" % (r[1], msg)
    if r[1] != "RuntimeError" or r[2] != msg:
        return "raises %s (%s), the library fails with '%s'" % (r[1], r[2], msg)
    return ""


def check_(py, c):
    op = c["op"]
    if op in ("call", "memory") and "lists" in c:
        q = dict(c, lists=[unhex(v) for v in c["lists"]])
    elif op in ("threads", "fork"):
        q = dict(c, calls=[dict(k, lists=[unhex(v) for v in k["lists"]]) for k in c["calls"]])
    else:
        q = c
    if op == "call":
        a = py(q)
        if a["modified"]:
            return "%s modifies its argument" % c["fn"]
        if a["refs"]:
            return "%s changes reference counts of its arguments" % c["fn"]
        r = a["outcome"]
        if c["ctype"] in ("array", "seq", "npint", "npfloat32", "npobject") and r[0] == "error" and r[1] in ALLOWED:
            return ""
        lists = q["lists"]
        if c["ctype"] == "npint":
            lists = [[float(int(x)) if abs(x) < 1e9 else 5.0 for x in v] for v in lists]
        if c["ctype"] == "npfloat32":
            lists = [[struct.unpack("f", struct.pack("f", x))[0] if abs(x) < 1e38 or math.isinf(x) else x for x in v] for v in lists]
        w = same_as_library(c["fn"], lists, c["fft"], r)
        return w and "%s(%s of %s) %s" % (c["fn"], c["ctype"], c["etype"], w)
    if op == "types":
        a = py(q)
        if "skip" in a:
            return ""
        r = a["outcome"]
        if not a["again"] or a["again"][0] != "value" or abs(a["again"][1] - .75) > 1e-10:
            return "after %s(%s) the call ecdf1_new_b([0.25]) gives %r" % (c["fn"], ", ".join(c["args"]), a["again"])
        if r[0] == "error":
            if r[1] in ALLOWED and r[2]:
                return ""
            if r[1] == "RuntimeError":
                p = [x for x in a["plain"] if not isinstance(x, bool)]
                if p and all(x is not None for x in p) and len(a["plain"]) == (3 if c["fn"] == "ecdf2" else 1):
                    w = same_as_library(c["fn"], p, a["plain"][-1], r)
                    return w and "%s(%s) %s" % (c["fn"], ", ".join(c["args"]), w)
                return ""
            return "%s(%s) raises %s: %s" % (c["fn"], ", ".join(c["args"]), r[1], r[2])
        p = [x for x in a["plain"] if not isinstance(x, bool)]
        if len(a["plain"]) != (3 if c["fn"] == "ecdf2" else 1) or any(x is None for x in p):
            return "%s(%s) returns %r instead of raising TypeError" % (c["fn"], ", ".join(c["args"]), r[1])
        w = same_as_library(c["fn"], p, a["plain"][-1], r)
        return w and "%s(%s) %s" % (c["fn"], ", ".join(c["args"]), w)
    if op in ("vector", "threads", "fork"):
        return py(q)
    if op == "memory":
        a = py(q)
        if a["bytes"] or a["objects"]:
            return "memory grows with every %d calls of %s: (bytes, objects) in use %s" % (c["reps"], c["fn"], a["windows"])
        return ""
    if op == "expr":
        r = py(q)["outcome"]
        if r[0] == "error" and r[1] in ALLOWED + ("MemoryError", "RuntimeError", "KeyError", "IndexError", "SystemError"):
            return ""
        if r[0] == "value" and "expect" in c:
            e = eval(c["expect"])
            return "" if repr(r[1]) == repr(e) else "%s gives %r, a list %r" % (c["expr"], r[1], e)
        return "" if r[0] == "value" else "%s raises %s" % (c["expr"], r[1])
    raise AssertionError(op)


def nontrivial(c):
    if c["op"] == "call":
        return max(len(v) for v in c["lists"]) >= 2
    if c["op"] == "vector":
        return len(c["steps"]) >= 3
    return True


# sequence objects that misbehave, and sizes that cannot be allocated: enumerated, not generated
def enumerated():
    out = []
    for w in ("committed", "regenerated"):
        for fn in ("ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B"):
            for o in ("ItemRaises", "LenTooLong"):
                out.append({"op": "expr", "wrapper": w, "expr": "crossprob.%s(%s([0.5]))" % (fn, o)})
        for o in ("ItemRaises", "LenTooLong"):
            out.append({"op": "expr", "wrapper": w, "expr": "crossprob.ecdf2(%s([0.1]), [0.5], True)" % o})
            out.append({"op": "expr", "wrapper": w, "expr": "crossprob.ecdf2([0.1], %s([0.5]), False)" % o})
            out.append({"op": "expr", "wrapper": w, "expr": "VectorDouble(%s([0.1]))" % o})
        for v, sl in (("[0.5]", "[1:]"), ("[0.5, 0.75]", "[2:2]"), ("[0.25, 0.5, 0.75]", "[3::2]"), ("[0.5, 0.75]", "[2::-1]")):
            out.append({"op": "expr", "wrapper": w, "expr": "list(VectorDouble(%s)%s)" % (v, sl), "expect": "%s%s" % (v, sl)})
        for e in ("VectorDouble(10**15)", "VectorDouble().resize(10**15)", "VectorDouble().reserve(10**15)", "VectorDouble().assign(10**15, 0.5)"):
            out.append({"op": "expr", "wrapper": w, "expr": e})
    return out


def strategies():
    from hypothesis import strategies as st
    wrapper = st.sampled_from(["committed", "committed", "regenerated"] * 2 + ["committed, sanitized", "regenerated, sanitized"])
    fn = st.sampled_from(["ecdf2", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B"])
    unit = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, .5, .25, -0.0, 1e-9, 1 - 1e-9]), st.integers(0, 16).map(lambda k: k / 16))

    @st.composite
    def lower(draw, n):
        kind = draw(st.integers(0, 4))
        if kind == 0:
            return sorted(draw(st.lists(unit, min_size=n, max_size=n)))
        seed = draw(st.integers(0, 2 ** 32))
        r = random.Random(seed)
        c = r.uniform(.5, 3.5)
        q = [(i + 1) / (n + 1) for i in range(n)]
        v = [max(0.0, x - c * math.sqrt(x * (1 - x) / (n + 2))) for x in q]
        if kind == 2:
            m = r.choice([2, 5, 10, 64])
            v = [math.floor(x * m) / m for x in v]
        if kind == 3:
            v = [x * r.random() for x in v]
        m = 0.0
        for i in range(n):
            m = v[i] = max(m, v[i])
        return v

    def size(fn):
        return st.one_of(st.integers(0, 12), st.integers(0, 200), st.sampled_from([1, 2, 127, 128, 129, 256]))

    def up(v):
        return [1 - x for x in reversed(v)]

    @st.composite
    def callcase(draw, valid=False, ctypes=("list", "list", "tuple", "vector", "vector", "listsub", "tuplesub", "array", "seq", "numpy", "npstrided", "npreversed", "npreadonly", "npcolumn", "npscalars", "npint", "npfloat32", "npobject")):
        f = draw(fn)
        n = draw(size(f))
        lists = [draw(lower(n)), up(draw(lower(n)))] if f == "ecdf2" else [draw(lower(n))]
        if f.endswith("_B"):
            lists = [up(lists[0])]
        if not valid and draw(st.integers(0, 2)) == 0:
            k = draw(st.integers(0, len(lists) - 1))
            v = lists[k]
            how = draw(st.integers(0, 3))
            if how == 0 and v:
                v[draw(st.integers(0, len(v) - 1))] = draw(st.sampled_from([math.nan, -1.0, 1.5, math.inf, -math.inf, -1e-300, 1.0000000000000002, 0.0, 1.0]))
            elif how == 1 and v:
                v.pop()
            elif how == 2:
                v.append(1.0)
            elif v:
                i, j = draw(st.integers(0, len(v) - 1)), draw(st.integers(0, len(v) - 1))
                v[i], v[j] = v[j], v[i]
        return {"op": "call", "wrapper": draw(wrapper), "fn": f, "lists": [[x.hex() if x == x else "nan" for x in v] for v in lists], "fft": draw(st.booleans()),
                "ctype": draw(st.sampled_from(ctypes)), "etype": draw(st.sampled_from(["float", "float", "mixed", "floatsub", "bool"])), "kw": draw(st.booleans())}

    good = ["[0.25]", "[0.1, 0.5]", "(0.2,)", "[]", "VectorDouble([0.1, 0.4])", "[0, 1]", "[True]", "(False, True)", "array.array('d', [0.3])", "Seq([0.5])", "L([0.4])", "range(1)", "range(2)", "VectorDouble()"]
    bad = ["None", "5", "0.5", "'abc'", "''", "b'ab'", "b''", "{}", "{0: 0.1}", "{0.3}", "set()", "[None]", "['a']", "['0.5']", "[[0.1]]", "[(0.1,)]", "object()", "[object()]", "[0.1, 'x']", "[0.1, None]", "1j", "[1j]",
           "[10**400]", "[10**20]", "[-1]", "[2]", "(x for x in [0.1])", "iter([0.2])", "[HasFloat(0.5)]", "HasFloat(0.5)", "[decimal.Decimal('0.5')]", "[fractions.Fraction(1, 2)]", "VectorDouble", "crossprob.ecdf2", "crossprob",
           "[float('nan')]", "[float('inf')]", "[0.5, 0.4]", "array.array('i', [0, 1])", "memoryview(array.array('d', [0.1]))", "bytearray(2)", "True", "[0.1] * 300", "NotImplemented", "...", "type", "[b'a']", "lambda: 1", "[VectorDouble([0.1])]", "VectorDouble([0.5]).iterator()", "frozenset([0.1])", "numpy.array([0.1])[0]", "numpy.array(0.1)", "numpy.zeros((2, 2))", "numpy.array([0.1, 0.2])", "numpy.array([1], int)", "[numpy.float32(0.5)]", "numpy.array(['a'])", "numpy.array([None])", "numpy.array([True])", "numpy.array([0.1], '>f8')", "numpy.array([1j])", "numpy.ma.array([0.1], mask=[1])", "{'a': 1}", "slice(1)"]
    flag = ["True", "False", "None", "1", "0", "'yes'", "[]", "1.0", "object()"]
    arg = st.one_of(st.sampled_from(good), st.sampled_from(bad))

    @st.composite
    def typecase(draw):
        f = draw(fn)
        want = 3 if f == "ecdf2" else 1
        k = want if draw(st.integers(0, 4)) else draw(st.integers(0, 5))
        args = [draw(arg) for _ in range(k)]
        if f == "ecdf2" and k == 3 and draw(st.integers(0, 5)):
            args[2] = draw(st.sampled_from(flag))
        return {"op": "types", "wrapper": draw(wrapper), "fn": f, "args": args}

    number = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, 1.0, -2.5, .5]))
    idx = st.one_of(st.none(), st.integers(-8, 8))
    stride = st.sampled_from([None, None, 1, 1, 2, 3, -1, -1, -2, -3, 8, -8, 0])
    step = st.one_of(
        st.tuples(st.just("append"), number), st.tuples(st.just("push_back"), number), st.tuples(st.just("pop")), st.tuples(st.just("get"), st.integers(-8, 8)),
        st.tuples(st.just("set"), st.integers(-8, 8), number), st.tuples(st.just("del"), st.integers(-8, 8)), st.tuples(st.just("clear")), st.tuples(st.just("len")), st.tuples(st.just("size")),
        st.tuples(st.just("empty")), st.tuples(st.just("bool")), st.tuples(st.just("iter")), st.tuples(st.just("reversed")), st.tuples(st.just("contains"), number), st.tuples(st.just("copy")), st.tuples(st.just("sum")),
        st.tuples(st.just("front")), st.tuples(st.just("back")), st.tuples(st.just("resize"), st.integers(0, 40), number), st.tuples(st.just("assign"), st.integers(0, 40), number), st.tuples(st.just("reserve"), st.integers(0, 300)),
        st.tuples(st.just("delslice"), idx, idx, stride), st.tuples(st.just("slice"), idx, idx, stride), st.tuples(st.just("setslice"), st.lists(number, max_size=4).map(tuple), idx, idx, stride))

    @st.composite
    def vectorcase(draw):
        return {"op": "vector", "wrapper": draw(wrapper), "init": draw(st.lists(number, max_size=10)), "ctype": draw(st.sampled_from(["list", "tuple", "vector"])),
                "steps": [list(s) for s in draw(st.lists(step, max_size=30))]}

    @st.composite
    def memcase(draw):
        if draw(st.integers(0, 3)) == 0:
            c = draw(typecase())
            return dict(c, op="memory", reps=60)
        c = draw(callcase(ctypes=("list", "tuple", "vector")))
        n = max([len(v) for v in c["lists"]] + [1])
        return dict(c, op="memory", reps=40 if n < 60 else 12)

    @st.composite
    def threadcase(draw):
        return {"op": "threads", "wrapper": draw(wrapper), "calls": draw(st.lists(callcase(ctypes=("list", "tuple", "vector", "array", "numpy")), min_size=1, max_size=6)), "threads": draw(st.integers(2, 6)), "reps": draw(st.integers(1, 4))}

    @st.composite
    def forkcase(draw):
        calls = draw(st.lists(callcase(ctypes=("list", "tuple", "vector", "array", "numpy")), min_size=1, max_size=5))
        return {"op": "fork", "wrapper": draw(wrapper), "calls": calls, "before": draw(st.integers(0, len(calls)))}

    return {"fork": forkcase(), "threads": threadcase(), "call": callcase(), "types": typecase(), "vector": vectorcase(), "memory": memcase()}


COUNT = {"fork": 60, "threads": 60, "call": 900, "types": 600, "vector": 500, "memory": 60}


def labels(c):
    return ("op:" + c["op"], "wrapper:" + c["wrapper"]) + (("ctype:" + c["ctype"],) if "ctype" in c and c["op"] == "call" else ())


sys.exit(main(sys.modules[__name__]))
