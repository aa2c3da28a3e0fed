"""Makes the calls listed in a file by the Python module and reports every change of the interpreter's and the process's state (see effects.cc).
argv: directory of the module, state.so, file, seed, directory. Report to descriptor 9."""
import array, ctypes, decimal, gc, locale, os, random, signal, sys, threading, warnings
sys.dont_write_bytecode = True
lib, so, path, seed, where = sys.argv[1:]
seed = int(seed)
calls = []
with open(path) as f:
    for line in f:
        w = line.split()
        nb = int(w[1])
        v = [float.fromhex(x) for x in w[3:]]
        calls.append((int(w[0]), v[:nb], v[nb:]))
sys.path.insert(0, lib)
os.chdir(where)
libc, st = ctypes.CDLL(None), ctypes.CDLL(so)
st.verif_state.restype = ctypes.c_char_p


def say(s):
    os.write(9, s.encode())


def on(bit):
    return seed >> bit & 1


if on(1):
    try:
        locale.setlocale(locale.LC_ALL, "de_DE.UTF-8")
    except locale.Error:
        pass
if on(4):
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGUSR1):
        signal.signal(s, [signal.SIG_IGN, lambda *a: None][s % 2])
if on(6):
    os.umask(0o137)
    os.environ["CROSSPROB_TEST"] = "1"
if on(8):
    gc.disable()
if on(9):
    sys.setrecursionlimit(600)
    sys.setswitchinterval(.01)
if on(10):
    decimal.getcontext().prec = 7
    warnings.simplefilter("error")
np = None
if on(11):
    try:
        import numpy as np
        np.seterr(all="raise")
    except ImportError:
        pass


def snapshot(modules=True):
    st.verif_reseed()
    t = st.verif_state(b".").decode(errors="replace").splitlines()
    p = {"arithmetic of denormals": (5e-324 * 1.0, 1e-310 / 4), "locale": locale.setlocale(locale.LC_ALL), "signals": [repr(signal.getsignal(s)) for s in range(1, 32)], "directory": os.getcwd(), "environment": sorted(os.environ.items()),
         "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "warnings": [repr(f) for f in warnings.filters], "garbage collector": (gc.isenabled(), gc.get_threshold()), "search path": list(sys.path),
         "threads": threading.active_count(), "random": hash(random.getstate()), "decimal": repr(decimal.getcontext()), "streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "hooks": (id(sys.excepthook), id(sys.displayhook), sys.gettrace(), sys.getprofile()), "NumPy errors": np and np.geterr()}
    if modules:
        p["modules"] = sorted(sys.modules)
    st.verif_reseed()
    return t + ["%s: %r" % x for x in p.items()]


def compare(what, x, y):
    if x != y:
        was, now = [l for l in x if l not in y] or ["-"], [l for l in y if l not in x] or ["-"]
        say("change %sbefore: %s / after: %s\n" % (what, was[0][:300], now[0][:300]))


snapshot()
x = snapshot(False)
try:
    import crossprob
except Warning as e:
    say("change by the import, a warning: %s\n" % e)
    raise
compare("by the import, ", x, snapshot(False))
ONE = {2: crossprob.ecdf1_new_b, 3: crossprob.ecdf1_new_B, 4: crossprob.ecdf1_mns2016_b, 5: crossprob.ecdf1_mns2016_B}
for fn, b, B in calls:
    libc.fflush(None)
    sys.stdout.flush()
    o = [os.fstat(i).st_size for i in (1, 2)]
    if on(7):   # integers where that is the same
        b, B = [[int(t) if t == int(t) else t for t in v] if all(t == t and abs(t) < 9 for t in v) else v for v in (b, B)]
    if on(5):
        b, B = [array.array("d", v) for v in (b, B)] if fn % 2 else (tuple(b), tuple(B))
    b0, B0 = list(b), list(B)
    x = snapshot()
    try:
        r = "result 0 %s" % float(crossprob.ecdf2(b, B, fn == 1) if fn < 2 else ONE[fn](B if fn in (3, 5) else b)).hex()
    except RuntimeError:
        r = "result 1 0"
    except Exception as e:
        r = "result 2 0"
    y = snapshot()
    libc.fflush(None)
    sys.stdout.flush()
    say(r + "\n")
    compare("", x, y)
    for i in (1, 2):
        if os.fstat(i).st_size != o[i - 1]:
            say("change something is written to standard %s\n" % ("output" if i == 1 else "error"))
    if list(map(repr, b)) != list(map(repr, b0)) or list(map(repr, B)) != list(map(repr, B0)):
        say("change the arguments\n")
say("end\n")
