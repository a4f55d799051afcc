"""Executes histories of streaming sketches (spec/Stream.tla)."""
from common import *
from copy import deepcopy
from tt_sketch.drm import TensorTrainDRM, SparseGaussianDRM, DenseGaussianDRM, SparseSignDRM
from tt_sketch.sketch import SketchedTensorTrain, assemble_sketched_tt, stream_sketch, blocked_stream_sketch
TYPES = dict(tt=TensorTrainDRM, sg=SparseGaussianDRM, dg=DenseGaussianDRM, ss=SparseSignDRM)

def f9(x):
    x = float(x)
    if not math.isfinite(x) or abs(x) > 1e15: return big(10**30 + 7)
    return big(round(x * 10**9))
def f9v(a): return [f9(x) for x in np.asarray(a, dtype=float).reshape(-1)]

def make(side, spec, shape, seed, rank):
    kw = {}
    if spec["t"] == "ss" and spec.get("nnz"): kw["num_non_zero_per_row"] = tuple(spec["nnz"])
    return TYPES[spec["t"]](tuple(rank), tuple(shape), transpose=(side == "r"), seed=seed, **kw)

def reveal(drm, shape, rng=None):
    """the rows of the random matrix, one by one: for a left one, bond m, the row of
    every (i1..im); for a right one the row of every (i_{m+1}..i_d)"""
    sh = tuple(shape); d = len(sh)
    idx = np.indices(sh).reshape(d, -1)
    mats = list(drm.sketch_sparse(SparseTensor(sh, idx, np.ones(idx.shape[1]))))
    out = []
    for m in range(1, d):
        M = np.asarray(mats[m - 1])              # rank x numel
        nl, nr = int(np.prod(sh[:m])), int(np.prod(sh[m:]))
        A = M.reshape(M.shape[0], nl, nr)
        A = A[:, :, nr - 1] if not drm.transpose else A[:, nl - 1, :]
        out.append([f9v(r) for r in A.T])
    return out

def observe(x):
    sk = isinstance(x, SketchedTensorTrain)
    return dict(sh=il(x.shape), lr=il(x.left_rank), rr=il(x.right_rank),
                psi=[f9v(c) for c in x.Psi_cores], om=[f9v(c) for c in x.Omega_mats],
                psh=[il(c.shape) for c in x.Psi_cores], osh=[il(c.shape) for c in x.Omega_mats],
                sz=int(x.size) if sk else -1)
def leaves(t):
    if isinstance(t, TensorSum): return {id(y): y for x in t.tensors for y in leaves(x)}.values()
    return [t]
def poke(t, c, m):
    """multiply the data of t in place by c"""
    for x in leaves(t):
        if isinstance(x, DenseTensor): x.data *= c
        elif isinstance(x, SparseTensor): x.entries *= c
        elif isinstance(x, TuckerTensor): x.core *= c
        else: x.cores[m % len(x.cores)] *= c
def f9m(A): return [f9v(r) for r in A]
def rec(cs): return dict(sh=[int(c.shape[1]) for c in cs], rk=[int(c.shape[2]) for c in cs[:-1]], c=[f9v(c) for c in cs])
def eig(B):
    """certificate of the spectrum: eigen-decomposition of the Gram matrix on the shorter side"""
    G = B @ B.T if B.shape[0] <= B.shape[1] else B.T @ B
    w, u = np.linalg.eigh(G)
    return dict(lam=f9v(w[::-1]), u=f9m(u[:, ::-1]))
def as_train(t):
    # the same array as a tensor train, exactly
    A = np.asarray(t.to_numpy(), float); cs = []; r = 1
    for n in A.shape[:-1]: cs.append(np.eye(r * n).reshape(r, n, r * n)); r *= n
    return TensorTrain(cs + [A.reshape(r, A.shape[-1], 1)])
def assemble(e, x0, t):
    # the sketch is assembled at the scale 2^k, the results are scaled back
    f = 2.0 ** e["k"]; x = x0 * f if e["k"] else x0
    sk = isinstance(x, SketchedTensorTrain)
    cs = x.C_cores(direction=e["dir"]) if sk else assemble_sketched_tt(x, direction=e["dir"])
    if sk and e["dir"] == "auto" and e["flip"]: cs = x.C_cores()
    lr, rr = x.left_rank, x.right_rank
    side = e["dir"] if e["dir"] != "auto" else "left" if all(a > b for a, b in zip(lr, rr)) else "right"
    end = 0 if side == "left" else len(cs) - 1
    back = lambda cs: [c / f if i == end else c for i, c in enumerate(cs)]
    cs = back(cs)
    e["obs"] = observe(x0); e["t"] = rec(cs); e["W"], e["cert"], e["none"] = [], [], []
    for m, O in enumerate(x0.Omega_mats):
        O = np.asarray(O, float); e["none"].append(not O.any())
        if side == "right": X = np.asarray(cs[m]).reshape(-1, cs[m].shape[2]); B = O
        else: X = np.asarray(cs[m + 1]).reshape(cs[m + 1].shape[0], -1).T; B = O.T
        e["W"].append(f9m(X @ np.linalg.pinv(B.T, rcond=1e-10)) if X.shape[1] == B.shape[0] else []); e["cert"].append(eig(O if side == "right" else O.T))
    if sk and e["dir"] == "auto":
        if e["train"]: t = as_train(t)
        t = t * f if e["k"] else t
        y = np.asarray(x.to_numpy()) / f
        e["tt"] = rec(back(x.to_tt().cores)); e["np"] = f9v(y); e["nsh"] = il(y.shape)
        e["dot"] = f9((t.dot(x) if e["flip"] else x.dot(t)) / f / f); e["norm"] = f9(x.norm() / f)
        kw = {k: True for k in ("rel", "rmse", "fast") if e[k]}
        if "rel" in kw: kw["relative"] = kw.pop("rel")
        v = float(t.error(x, **kw) if e["flip"] else x.error(t, **kw))
        e["inf"] = math.isinf(v) and v > 0; e["err"] = [0] if e["inf"] else f9(v if e["rel"] else v / f)
def raw(x): return [np.array(c) for c in x.Psi_cores] + [np.array(c) for c in x.Omega_mats]

def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]
    sh = tuple(g["sh"]); seed = g["seed"] + 17 * (idx % 5) if g["seed"] else [0, 0, 2**32 - 2, 1, 2**31][idx % 5]; rseed = seed + 1 if idx % 5 != 3 else 0
    slots, ev = [], []        # slot: [object, parts, tr, saved components]
    tens = {}
    def T(p):
        if p not in tens: tens[p] = build(g["tens"][p - 1], (idx + p) % 5)
        return tens[p]
    def whole(s, rep):
        parts = s[1]
        ts = [t if c == 1 else c * t for c, t in parts]
        if rep == "sum": return TensorSum(ts)
        dense = TensorSum(ts).dense()
        return dense if rep == "native" and "dense" in g["kinds"] else dense.to_sparse()
    head = dict(g=script["g"], L=[], R=[])
    with limit(60):
        D = {}
        def drm(side, rank):
            k = (side, tuple(rank))
            if k not in D: D[k] = make(side, g["l" if side == "l" else "r"], sh, rseed if side == "r" else seed, rank)
            return D[k]
        try:
            head["L"] = reveal(make("l", g["l"], sh, seed, g["fl"]), sh)
            head["R"] = reveal(make("r", g["r"], sh, rseed, g["fr"]), sh)
        except Exception as x:
            return dict(head, ev=[dict(script["ev"][0], exc=exc_name(x), changed=[], obs={})])
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", changed=[], obs={})
        op = e["op"]
        try:
            with limit(60):
                s = slots[e["a"] - 1] if "a" in e else None
                if op == "new":
                    x = stream_sketch(T(e["p"]), tuple(e["lr"]), tuple(e["rr"]), left_drm=drm("l", e["lr"]), right_drm=drm("r", e["rr"]))
                    slots.append([x, [(1, deepcopy(T(e["p"])))]])
                elif op in ("block", "reblock"):
                    X = T(e["p"]) if op == "block" else whole(s, e["rep"])
                    x = blocked_stream_sketch(X, drm("l", g["fl"]), drm("r", g["fr"]), [tuple(c) for c in e["lc"]], [tuple(c) for c in e["rc"]])
                    slots.append([x, [(1, deepcopy(X))]])
                elif op == "upd":
                    t = T(e["p"])
                    x = s[0] + t if e["c"] == 1 else s[0] - t
                    slots.append([x, s[1] + [(e["c"], deepcopy(t))]])
                elif op == "scale":
                    c = dict(int=int, float=float, np=np.float64)[e["ty"]](e["c"])
                    if e["k"]: c = c * 2 ** e["k"] if e["k"] > 0 else c * 2.0 ** e["k"]
                    x = s[0] * c if idx % 2 or isinstance(s[0], SketchedTensorTrain) is False else c * s[0]
                    if e["k"]: x = x * 2.0 ** -e["k"]
                    slots.append([x, [(c * e["c"], t) for c, t in s[1]]])
                elif op == "div":
                    ty = int if e["ty"] == "int" else float
                    x = -s[0] if e["c"] == -1 and e["n"] == 1 else s[0] / ty(e["c"]) if e["n"] == 1 else (s[0] * ty(e["n"])) / ty(e["c"] * e["n"])
                    slots.append([x, [(c / e["c"], t) for c, t in s[1]]])
                elif op == "T": slots.append([s[0].T, [(c, t.T) for c, t in s[1]]])
                elif op == "grow":
                    slots.append([s[0].increase_rank(whole(s, e["rep"]), tuple(e["lr"]), tuple(e["rr"])), s[1]])
                elif op == "cadd":
                    b = slots[e["b"] - 1]
                    x = s[0] + b[0] if e["c"] == 1 else s[0] - b[0]
                    slots.append([x, s[1] + [(e["c"] * c, t) for c, t in b[1]]])
                elif op == "asm": assemble(e, s[0], T(e["p"]))
                elif op == "poke": poke(T(e["p"]), e["c"], e["m"])
                elif op == "slice":
                    dr = drm(e["side"], g["fl"] if e["side"] == "l" else g["fr"])
                    for lo, hi in e["via"]: dr = dr.slice(tuple(lo), tuple(hi))
                    e["res"] = reveal(dr.slice(tuple(e["lo"]), tuple(e["hi"])), sh)
                else: raise KeyError("driver: " + op)
                if op != "slice":
                    if op not in ("poke", "asm"):
                        x = slots[-1]
                        e["obs"] = observe(x[0]); x.append(raw(x[0]))
                    for i, y in enumerate(slots if op in ("poke", "asm") else slots[:-1]):
                        now = raw(y[0])
                        if len(now) != len(y[2]) or not all(np.array_equal(a, b) for a, b in zip(now, y[2])): e["changed"].append(i + 1)
        except Exception as x:
            e["exc"] = exc_name(x); ev.append(e); break
        ev.append(e)
    return dict(head, ev=ev)

if __name__ == "__main__": main(run_one)
