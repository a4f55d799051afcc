"""Shared pieces of the drivers: build objects from their JSON representation,
observe objects, encode numbers.  Drivers execute and record; they judge nothing."""
import os, sys, json, signal, math, traceback
import numpy as np

from tt_sketch.tensor import (CPTensor, DenseTensor, SparseTensor, Tensor, TensorSum,
                              TensorTrain, TuckerTensor)

BIG = 2**30

class Timeout(Exception): pass
def _alarm(*_): raise Timeout("timeout")
signal.signal(signal.SIGALRM, _alarm)

class limit:
    """seconds allowed for one call of the code under test"""
    def __init__(self, s=60): self.s = s
    def __enter__(self): signal.alarm(self.s)
    def __exit__(self, *a): signal.alarm(0)

def big(n):
    """integer -> little-endian digits in base 1000, all of the sign of n"""
    n = int(n); s = -1 if n < 0 else 1; n = abs(n)
    out = []
    while n: out.append(s * (n % 1000)); n //= 1000
    return out or [0]

def f6(x):
    """float -> fixed-point with 6 decimals as digits; non-finite -> a marker far out of range"""
    x = float(x)
    if not math.isfinite(x): return big(10**30 + 7)
    if abs(x) > 1e18: return big((10**27 + 7) * (1 if x > 0 else -1))
    return big(round(x * 10**6))

def f6v(a): return [f6(x) for x in np.asarray(a, dtype=float).reshape(-1)]
def f6m(a):
    a = np.asarray(a, dtype=float)
    return [f6v(r) for r in a]

def ints(a, tol=1e-8):
    """flat list of the integers the entries are equal to up to round-off;
    an entry that is no integer is recorded as a value no specification produces"""
    a = np.asarray(a)
    if np.iscomplexobj(a): return [BIG + 3] * max(1, a.size)
    a = np.asarray(a, dtype=float).reshape(-1)
    scale = float(np.max(np.abs(a))) if a.size and np.all(np.isfinite(a)) else 1.0
    out = []
    for x in a:
        if not math.isfinite(x) or abs(x) > BIG: out.append(BIG + 1); continue
        r = round(float(x))
        out.append(int(r) if abs(x - r) <= tol * (1 + scale) and tol * (1 + scale) < 0.3 else BIG + 2)
    return out

def il(t): return [int(x) for x in t]

# ---- memory layouts ----------------------------------------------------------
def layout(a, how):
    """same values, different dtype/memory layout"""
    if how == 0: return np.ascontiguousarray(a, dtype=float)
    if how == 1: return np.asfortranarray(a, dtype=float)
    if how == 2:                                   # strided view
        b = np.full(tuple(2 * n for n in a.shape), 77.0)
        v = b[tuple(slice(0, None, 2) for _ in a.shape)]
        v[...] = a; return v
    if how == 3:                                   # negative strides
        b = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)], dtype=float)
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    if how == 4: return np.ascontiguousarray(a, dtype=np.int64)
    return np.array(a, dtype=float)

def build(j, how=0):
    k = j["k"]; sh = tuple(j["sh"])
    L = lambda a, s=0: layout(np.array(a, dtype=float), (how + s) % 5 if how else 0)
    if k == "dense": return DenseTensor(layout(np.array(j["v"], dtype=float).reshape(sh), how))
    if k == "sparse":
        ix = np.array(j["ix"], dtype=np.int64).reshape(-1, len(sh)).T
        ix = np.ascontiguousarray(ix)
        if how % 3 == 1: ix = tuple(np.array(r) for r in ix)
        elif how % 3 == 2: ix = ix.astype(np.int32)
        return SparseTensor(sh, ix, L(j["e"]).reshape(-1))
    if k == "tt": return TensorTrain([L(c, m) for m, c in enumerate(j["cores"])])
    if k == "cp": return CPTensor([L(c, m) for m, c in enumerate(j["fac"])])
    if k == "tucker":
        return TuckerTensor([L(c, m) for m, c in enumerate(j["fac"])],
                            L(j["core"]["v"], 1).reshape(tuple(j["core"]["sh"])))
    if k == "sum":                     # equal summands are one and the same object
        memo, ts = {}, []
        for i, t in enumerate(j["ts"]):
            key = json.dumps(t, sort_keys=True)
            if key not in memo: memo[key] = build(t, (how + i) % 5)
            ts.append(memo[key])
        return TensorSum(ts, shape=sh)
    raise KeyError(k)

def exc_name(e):
    return type(e).__name__ + ": " + str(e).replace("\n", " ")[:160]

class Out:
    """line-wise output; a line is flushed as soon as a trace begins so that the
    orchestrator can tell which script was running if the process dies"""
    def __init__(self, path): self.f = open(path, "a")
    def begin(self, i): self.f.write(json.dumps({"begin": i}) + "\n"); self.f.flush()
    def put(self, i, obj): self.f.write(json.dumps({"end": i, "trace": obj}) + "\n"); self.f.flush()

def main(run_one):
    """argv: job.json out.ndjson first stride"""
    job = json.load(open(sys.argv[1])); out = Out(sys.argv[2])
    import tt_sketch
    want = os.environ["VF_CODE"]
    assert os.path.realpath(tt_sketch.__file__).startswith(os.path.realpath(want)), tt_sketch.__file__
    first, stride = int(sys.argv[3]), int(sys.argv[4])
    np.seterr(all="ignore")
    import warnings; warnings.simplefilter("ignore")
    for i in range(first, len(job["scripts"]), stride):
        out.begin(i)
        out.put(i, run_one(job, job["scripts"][i], i))
