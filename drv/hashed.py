"""Executes requests for entries of lazily evaluated random matrices (spec/Hashed.tla)."""
from common import *
from stream import TYPES
from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal, inds_to_sparse_sign

def index_array(cols, form, shape):
    """d x N indices in one of several integer types and layouts"""
    d = len(cols); a = np.array(cols, dtype=np.uint64).reshape(d, -1)
    small = max(shape) < 2**31
    if form == 0: return a.astype(np.int64)
    if form == 1: return a
    if form == 2: return np.asfortranarray(a.astype(np.int64))
    if form == 3: return a.astype(np.int32 if small else np.int64)
    if form == 4:
        b = np.zeros((d, 2 * a.shape[1]), dtype=np.int64); b[:, ::2] = a.astype(np.int64); return b[:, ::2]
    if form == 5: return tuple(np.array(r, dtype=np.int16 if max(shape) < 2**15 else np.int64) for r in a)
    return a.astype(np.int64)[:, ::-1][:, ::-1]
def matrices(g, cols, lo, hi, r, form):
    """list over the bonds of N x (hi - lo)"""
    sh = tuple(g["sh"]); ix = index_array(cols, form, sh); N = len(cols[0])
    if g["cls"].startswith("fn"):
        ix = np.stack(ix) if isinstance(ix, tuple) else ix
        if g["cls"] == "fn-normal": return [np.asarray(inds_to_normal(ix, sh, lo[0], hi[0], g["seed"]))]
        return [np.asarray(inds_to_sparse_sign(ix, sh, g["r"][0], lo[0], hi[0], g["nnz"][0], g["seed"]))]
    kw = dict(num_non_zero_per_row=tuple(g["nnz"])) if g["cls"] == "ss" else {}
    D = TYPES[g["cls"]](tuple(r), sh, transpose=g["side"] == "r", seed=g["seed"], **kw)
    if list(lo) != [0] * len(lo) or list(hi) != list(r): D = D.slice(tuple(lo), tuple(hi))
    return [np.asarray(m).T for m in D.sketch_sparse(SparseTensor(sh, ix, np.ones(N)))]
def stats(A, sign):
    A = A.astype(float); n, r = A.shape; R = lambda x: int(max(-46000, min(46000, round(float(x))))) if math.isfinite(float(x)) else 46000
    lag = [R((A[:-k, j] * A[k:, j]).sum()) for k in (1, 2, 3, 64) for j in range(r)] + [R((A[:-1, j] * A[1:, (j + 1) % r]).sum()) for j in range(r)]
    if sign: return dict(n=n, s=[R(x) for x in A.sum(0)], k=[R(x) for x in (A != 0).sum(0)], lag=lag, kk=[R(((A[:, j] != 0) & (A[:, j + 1] != 0)).sum()) for j in range(r - 1)])
    return dict(n=n, s=[R(x) for x in A.sum(0)], q=[R(x) for x in (A * A).sum(0)], c=[R(x / 4) for x in (A**3).sum(0)], a=[int(x) for x in (abs(A) < 1).sum(0)],
                p=[R((A[:, j] * A[:, k]).sum()) for j in range(min(r, 8)) for k in range(j)], lag=lag)
EMPTY = dict(n=0, s=[], q=[], c=[], a=[], p=[], lag=[], k=[], kk=[], dup=0)
def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]; ids = {}; ev = []; sign = g["cls"] in ("ss", "fn-sign")
    def enc(x): return ids.setdefault(float(x).hex(), len(ids) + 1) if math.isfinite(x) else 0
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", vals=[], z=[])
        try:
            with limit(60):
                if e["op"] == "stats":
                    p = g["pats"][e["pat"] - 1]; N = p["n"]; d = len(g["sh"])
                    if p["how"] == "random":
                        rs = np.random.RandomState(p["x"]); cols = [rs.randint(0, n, size=N, dtype=np.int64).tolist() for n in g["sh"]]
                        lead = list(dict.fromkeys(zip(*cols))); cols = [list(c) for c in zip(*lead)]
                    else:                    # all modes fixed but one, which runs in steps
                        cols = [[(p["base"][m] + (i * p["step"] if m == p["mode"] else 0)) % g["sh"][m] for i in range(N)] for m in range(d)]
                    wide = not sign and p["n"] > 10**5; rr = [16] * len(g["r"]) if wide else g["r"]
                    mats = matrices(g, cols, [0] * len(rr), rr, rr, e["form"])
                    for m, A in enumerate(mats, 1):      # one row of each name only; a bond with few rows says nothing
                        name = lambda i: tuple(c[i] for c in (cols if g["cls"].startswith("fn") else cols[:m] if g["side"] == "l" else cols[m:]))
                        if len({name(i) for i in (0, 1, 2)}) < 3: e["z"].append(dict(EMPTY)); continue       # the line does not move in this bond
                        dup = int(A.size - len(np.unique(A))) if wide else 0
                        if len(A) > 10**5: A = A[:3000, :6]
                        seen = {}
                        for i in range(len(A)): seen.setdefault(name(i), i)
                        A = A[sorted(seen.values())]
                        e["z"].append(dict(stats(A, sign), dup=dup) if len(A) >= 1000 else dict(EMPTY))
                else:
                    rows = [[int(x) for x in g["rows"][i - 1]] for i in e["rows"]]; cols = [list(c) for c in zip(*rows)]
                    mats = matrices(g, cols, e["lo"], e["hi"], e["r"], e["form"])
                    e["vals"] = [[[(int(x) + 2 if x in (-1, 0, 1) else 9) if sign else enc(float(x)) for x in row] for row in A.tolist()] for A in mats]
        except Exception as ex: e["exc"] = exc_name(ex)
        ev.append(e)
        if e["exc"]: break
    return dict(g=script["g"], ev=ev)
if __name__ == "__main__": main(run_one)
