"""Executes sessions over huge index spaces (spec/Huge.tla)."""
from common import *
from decimal import Decimal
from tt_sketch.drm import TensorTrainDRM
from tt_sketch.sketch import stream_sketch, hmt_sketch, orthogonal_sketch
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, round_tt_sum

def dec(x):
    """m * 10^e with 17 digits; below 10^-60 it is recorded as 0"""
    x = float(x)
    if not math.isfinite(x) or abs(x) > 1e30: return dict(m=big(10**17 + 3), e=30)
    if abs(x) < 1e-60: return dict(m=[0], e=0)
    s, digits, e = Decimal("%.16e" % x).as_tuple()
    return dict(m=big((-1 if s else 1) * int("".join(map(str, digits)))), e=int(e))
KINDS = [(SparseTensor, "sparse"), (TensorTrain, "tt"), (CPTensor, "cp"), (TensorSum, "sum")]
def observe(x):
    k = [n for c, n in KINDS if isinstance(x, c)]
    return dict(sh=il(x.shape), n=int(x.num_summands) if isinstance(x, TensorSum) else 1, k=k[0] if k else "?")

def build_terms(t):
    """a train or CP tensor given by its terms, products of sparse vectors"""
    sh, r = t["sh"], len(t["terms"]); d = len(sh); fac = []
    for m, n in enumerate(sh):
        F = np.zeros((n, r))
        for q, f in enumerate(t["terms"]):
            for x in f[m]: F[x["i"], q] = x["v"]
        fac.append(F)
    if t["k"] == "cp": return CPTensor(fac)
    cores = []
    for m, F in enumerate(fac):
        C = np.zeros((1 if m == 0 else r, F.shape[0], 1 if m == d - 1 else r))
        for q in range(r): C[0 if m == 0 else q, :, 0 if m == d - 1 else q] = F[:, q]
        cores.append(C)
    return TensorTrain(cores)

def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]; sh = tuple(g["sh"]); slots, ev, drms = [], [], {}
    for e0 in script["ev"]:
        e = dict(e0); e["exc"] = ""; op = e["op"]; how = (idx + len(ev)) % 5
        try:
            with limit(60):
                A = slots[e["a"] - 1] if "a" in e else None
                B = slots[e["b"] - 1] if "b" in e else None
                x = None
                if op == "make": t = g["tens"][e["p"] - 1]; x = build_terms(t) if "terms" in t else build(t, how)
                elif op == "mul":
                    c = int(e["c"]) if e["ty"] == "int" else float(e["c"])
                    x = A * c if idx % 2 else c * A
                elif op == "div": x = A / e["c"]
                elif op == "neg": x = -A
                elif op == "T": x = A.T
                elif op == "add": x = A + B
                elif op == "sub": x = A - B
                elif op == "msum":
                    xs = [slots[e["ix"][i % len(e["ix"])] - 1] for i in range(e["n"])]
                    if how % 2:
                        x = TensorSum(xs) if not any(isinstance(y, TensorSum) for y in xs) else TensorSum([], shape=xs[0].shape)
                        if not x.tensors:
                            for y in xs: x = x + y
                    else:
                        x = TensorSum([xs[0]]) if not isinstance(xs[0], TensorSum) else TensorSum(list(xs[0].tensors))
                        for y in xs[1:]: x += y
                elif op == "ttadd": x = A.add(B)
                elif op == "split": x = A.split(e["n"]); e["res"] = dec(x.dot(A))
                elif op == "orth": x = A.orthogonalize()
                elif op == "round": x = A.round()
                elif op == "rsum": x = round_tt_sum(A, 24, method=e["how"])
                elif op == "mpo":
                    M = MPO([layout(np.array(c, dtype=float), how) for c in g["mpos"][e["p"] - 1]])
                    if e["how"]: x = TTLinearMapSum([M])(A); x = x.tensors[0] if isinstance(x, TensorSum) and x.num_summands == 1 else x
                    else: x = M(A)
                elif op == "rec":
                    r = 12
                    x = dict(hmt=lambda: hmt_sketch(A, r, seed=e["seed"]), osk=lambda: orthogonal_sketch(A, r, r + 4, seed=e["seed"]),
                             ssk=lambda: stream_sketch(A, r, r + 4, seed=e["seed"]).to_tt())[e["fn"]]()
                elif op == "dot": e["res"] = dec(A.dot(B) if idx % 2 else A @ B)
                elif op == "norm": e["res"] = dec(A.norm())
                elif op == "error":
                    v = float(A.error(B, relative=e["rel"], rmse=e["rmse"], fast=e["fast"]))
                    e["nz"] = isinstance(B, TensorTrain) and all(np.any(c) for c in B.cores)
                    e["inf"] = math.isinf(v) and v > 0
                    e["res"] = dec(0 if e["inf"] else v)
                elif op == "gather":
                    ix = np.array(e["ix"], dtype=np.int64).reshape(-1, len(A.shape)).T
                    got = A.gather(tuple(np.array(r) for r in ix) if e["ty"] == "tuple" else ix)
                    e["res"] = ints(got) if np.shape(got) == (len(e["ix"]),) else [BIG + 4]
                elif op == "sketch":
                    D = g["drms"][e["l"] - 1]
                    if e["l"] not in drms:
                        drms[e["l"]] = [TensorTrainDRM(tuple(D[s]["rank"]), sh, transpose=s == "r", seed=1, cores=[np.array(c, dtype=float) for c in D[s]["cores"]]) for s in "lr"]
                    l, r = drms[e["l"]]
                    s = stream_sketch(A, tuple(D["l"]["rank"]), tuple(D["r"]["rank"]), left_drm=l, right_drm=r)
                    e["obs"] = dict(psi=[ints(c) for c in s.Psi_cores], om=[ints(c) for c in s.Omega_mats], sz=int(s.size))
                else: raise KeyError("driver: " + op)
                if x is not None: slots.append(x); e["obs"] = observe(x)
        except Exception as ex: e["exc"] = exc_name(ex)
        ev.append(e)
        if e["exc"]: break
    return dict(g=script["g"], ev=ev)
if __name__ == "__main__": main(run_one)
