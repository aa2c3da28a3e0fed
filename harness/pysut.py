"""Serves calls of the Python module over a pipe (protocol of sut_server.cc). argv[1]: directory of the built module."""
import ctypes, os, struct, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
nul = os.open(os.devnull, os.O_RDWR)
os.dup2(nul, 0)
os.dup2(nul, 1)
import crossprob
ONE = {2: crossprob.ecdf1_new_b, 3: crossprob.ecdf1_new_B, 4: crossprob.ecdf1_mns2016_b, 5: crossprob.ecdf1_mns2016_B}
try:        # where the module is built to count its work (cost.c)
    lib = ctypes.CDLL(sys.modules["_crossprob"].__file__)
    work, limit = ctypes.c_uint64.in_dll(lib, "verif_work"), ctypes.c_uint64.in_dll(lib, "verif_limit")
except ValueError:
    work, limit = ctypes.c_uint64(0), ctypes.c_uint64(0)
arm = None
if "faults" in os.environ.get("LD_PRELOAD", ""):
    arm, disarm = ctypes.CDLL(None).verif_arm, ctypes.CDLL(None).verif_disarm
    arm.argtypes, disarm.restype = [ctypes.c_int, ctypes.c_uint64, ctypes.c_int], ctypes.c_uint64
mem = None
if "/mem.so" in os.environ.get("LD_PRELOAD", ""):
    mem = ctypes.CDLL(None)
    mem.verif_mem_peak.restype = mem.verif_mem_stack.restype = ctypes.c_uint64
heap = None
if "forms" in sys.argv:
    heap = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    heap.restype = ctypes.c_size_t


def form(k, v):     # what a list can be handed over as
    if k == 1:
        return tuple(v)
    if k == 2:
        return crossprob.VectorDouble(v)
    if k == 3:
        w = crossprob.VectorDouble()
        for x in v:
            w.append(x)
        w.append(.5)
        w.pop()
        return w
    if k == 4:
        return crossprob.VectorDouble(crossprob.VectorDouble(v))
    if k == 5:
        w = crossprob.VectorDouble(v + v)
        del w[:len(v)]
        return w
    return v


while True:
    h = inp.read(12)
    if len(h) < 12:
        break
    fn, nb, nB = struct.unpack("<3I", h)
    b = list(struct.unpack("<%dd" % nb, inp.read(8 * nb)))
    B = list(struct.unpack("<%dd" % nB, inp.read(8 * nB)))
    status, value, msg = 0, 0.0, b""
    limit.value = ((fn >> 8) << 20) or 2 ** 64 - 1
    work.value = 0
    fault = fn >> 8
    fn &= 255
    if heap:
        b, B, fault = form(fault & 15, b), form(fault >> 4 & 15, B), 0
    if arm and fault:
        arm(fault >> 22, (fault & 0x3fffff) * 16, 1)
    if mem:
        mem.verif_mem_start()
    try:
        if fn < 2:
            value = crossprob.ecdf2(b, B, fn == 1)
        else:
            value = ONE[fn](B if fn in (3, 5) else b)
    except RuntimeError as e:
        status, msg = 1, str(e).encode()
    except Exception as e:
        status, msg = 2, repr(e).encode()
    if arm and disarm():
        status += 16
    if mem:     # peaks in KB: the module's, FFTW's and the stack's
        work.value = min(mem.verif_mem_peak(0) >> 10, 2 ** 24 - 1) << 40 | min(mem.verif_mem_peak(1) >> 10, 2 ** 24 - 1) << 16 | min(mem.verif_mem_stack() >> 12, 65535)
    limit.value = 2 ** 64 - 1
    if heap:
        work.value = heap()
    out.write(struct.pack("<idQI", status, value, work.value, len(msg)) + msg)
    out.flush()
