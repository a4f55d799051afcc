"""Executes session scripts (see spec/Session.tla) and records what is observed."""
from common import *
from tt_sketch.drm import TensorTrainDRM
from tt_sketch.drm import SparseGaussianDRM, DenseGaussianDRM
from tt_sketch.sketch import SketchedTensorTrain, stream_sketch, hmt_sketch, orthogonal_sketch
from tt_sketch.tt_svd import tt_svd
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, round_tt_sum, tt_sum_gmres

def make_drm(j):
    return TensorTrainDRM(tuple(j["rank"]), tuple(j["sh"]), transpose=j["side"] == "r", seed=1,
                          cores=[np.array(c, dtype=float) for c in j["cores"]])

def observe(x):
    if isinstance(x, SketchedTensorTrain):
        return dict(t="sk", sh=il(x.shape), lr=il(x.left_rank), rr=il(x.right_rank),
                    psi=[ints(c) for c in x.Psi_cores], om=[ints(c) for c in x.Omega_mats], sz=int(x.size))
    a = np.asarray(x.to_numpy())
    o = dict(t="x", sh=il(x.shape), v=ints(a), sz=int(x.size), n=1, rk=[])
    if tuple(a.shape) != tuple(x.shape) or x.ndim != a.ndim: o["sh"] = il(a.shape) + [-1]
    if isinstance(x, TensorSum):
        o["n"] = int(x.num_summands)
        o["parts"] = [ints(t.to_numpy()) for t in x.tensors]
    elif isinstance(x, (TensorTrain, TuckerTensor)): o["rk"] = il(x.rank)
    elif isinstance(x, CPTensor): o["rk"] = [int(x.rank)]
    return o

def scalar(c, d, ty):
    v = c / d
    if ty == "int" and d == 1: return int(c)
    if ty == "np": return np.float64(v)
    return float(v)

def scaled(A, k): return A * 2.0 ** k if k else A
def up(v, e):
    k = e["k"]
    if not k: return v
    return v * 2 ** k if k > 0 else v * 2.0 ** k
def back(X, e): return X if not e["k"] else X * 2.0 ** -e["k"]

def run_one(job, script, idx):
    pools = job["pools"]
    pool = [x for p in pools for x in p["pool"]]
    drmj = [x for p in pools for x in p["drms"]]
    drms = {}
    def drm(k):
        if k not in drms: drms[k] = make_drm(drmj[k - 1])
        return drms[k]
    slots, prev, ev = [], [], []
    for n, e0 in enumerate(script):
        e = dict(e0); e["exc"] = ""; e["delta"] = []; e["drms"] = []
        op = e["op"]
        try:
            with limit(60):
                A = slots[e["a"] - 1] if "a" in e else None
                Bt = slots[e["b"] - 1] if "b" in e else None
                if op == "make": slots.append(build(pool[e["p"] - 1], (idx + n) % 5))
                elif op == "alias": slots.append(A)
                # a factor 2^k is applied along with the scalar and taken back afterwards
                elif op == "mul": slots.append(back(A * up(scalar(e["c"], e["d"], e["ty"]), e), e))
                elif op == "rmul": slots.append(back(up(scalar(e["c"], e["d"], e["ty"]), e) * A, e))
                elif op == "imul":
                    A *= up(scalar(e["c"], e["d"], e["ty"]), e)
                    if e["k"]: A *= 2.0 ** -e["k"]
                    slots[e["a"] - 1] = A
                elif op == "div":
                    if e["n"] == 1: slots.append(A / scalar(e["c"], 1, e["ty"]))
                    else: slots.append((A * scalar(e["n"], 1, e["ty"])) / scalar(e["c"] * e["n"], 1, e["ty"]))
                elif op == "neg": slots.append(-A)
                elif op == "add": slots.append(A + Bt)
                elif op == "sub": slots.append(A - Bt)
                elif op == "iadd": A += Bt; slots[e["a"] - 1] = A
                elif op == "isub": A -= Bt; slots[e["a"] - 1] = A
                elif op == "nest": slots.append(TensorSum([A, Bt]))
                elif op == "empty": slots.append(TensorSum([], shape=tuple(A.shape)))
                elif op == "wsum":
                    S = TensorSum([slots[i - 1] for i in e["as"]])
                    cs = [float(c) for c in e["cs"]]
                    w = {"list": cs, "np": np.array(cs), "tuple": tuple(cs), "gen": (c for c in cs)}[e["ty"]]
                    slots.append(S * w)
                elif op == "T": slots.append(A.T)
                elif op == "dense": slots.append(A.dense())
                elif op == "sparse": slots.append(A.to_sparse())
                elif op == "split": slots.append(A.split(e["n"]))
                elif op == "ttadd": slots.append(A.add(Bt))
                elif op == "orth": slots.append(A.orthogonalize())
                elif op == "round": slots.append(A.round())
                elif op == "sketch":
                    l, r = drm(e["l"]), drm(e["r"])
                    slots.append(stream_sketch(A, tuple(drmj[e["l"] - 1]["rank"]), tuple(drmj[e["r"] - 1]["rank"]),
                                               left_drm=l, right_drm=r))
                elif op == "zero": slots.append(TensorTrain.zero(tuple(A.shape), tuple(e["rk"])))
                elif op == "partial":
                    L, R = A.partial_dense("lr"), A.partial_dense("rl")
                    e["L"] = [f6m(x) for x in L]; e["R"] = [f6m(x) for x in R[::-1]]
                    e["cores"] = [[f6m(x) for x in c] for c in A.cores]
                elif op == "wsumbad":
                    S = TensorSum([slots[i - 1] for i in e["as"]])
                    cs = [float(c) for c in e["cs"]]
                    w = {"list": cs, "np": np.array(cs), "tuple": tuple(cs), "gen": (c for c in cs)}[e["ty"]]
                    try: S * w
                    except Exception as x: e["exc"] = exc_name(x)
                elif op == "call" and "l" in e: e["res"] = f6v(dcall(e["fn"], A, drm(e["l"]), drm(e["r"]), tuple(drmj[e["l"] - 1]["rank"]), tuple(drmj[e["r"] - 1]["rank"])))
                elif op == "call": e["res"] = f6v(call(e["fn"], A))
                elif op == "poke": poke(A, e["m"] - 1, e["c"])
                elif op == "dot": A2, B2 = scaled(A, e["k"]), scaled(Bt, e["k"]); e["res"] = f6(((A2 @ B2) if idx % 2 else A2.dot(B2)) * 2.0 ** (-2 * e["k"]))
                elif op == "norm": e["res"] = f6(scaled(A, e["k"]).norm() * 2.0 ** -e["k"])
                elif op == "error":
                    arg = Bt.to_numpy() * 2.0 ** e["k"] if e["np"] else scaled(Bt, e["k"])
                    x = float(scaled(A, e["k"]).error(arg, relative=e["rel"], rmse=e["rmse"], fast=e["fast"]))
                    if not e["rel"]: x *= 2.0 ** -e["k"]
                    # a train of zeros without a core of zeros: its norm may be round-off
                    e["nz"] = not e["np"] and isinstance(Bt, TensorTrain) and all(np.any(c) for c in Bt.cores)
                    e["inf"] = math.isinf(x) and x > 0
                    e["res"] = [0] if e["inf"] else f6(x)
                elif op == "gather":
                    ix = np.array(e["ix"], dtype=np.int64).reshape(-1, A.ndim).T
                    if e["ty"] == "tuple": ix = tuple(np.array(r) for r in ix)
                    got = A.gather(ix)
                    e["res"] = ints(got) if np.shape(got) == (len(e["ix"]),) else [BIG + 4]
                else: raise KeyError("driver: " + op)
                e["drms"] = [k for k, x in drms.items() if not all(np.array_equal(c, np.array(w, dtype=float)) for c, w in zip(x.cores, drmj[k - 1]["cores"]))
                             or len(x.cores) != len(drmj[k - 1]["cores"])]
                for s, x in enumerate(slots):
                    o = observe(x)
                    if s >= len(prev): prev.append(None)
                    if prev[s] != o:
                        prev[s] = o; e["delta"].append(dict(o, s=s + 1))
        except Exception as x:
            e["exc"] = exc_name(x); e["delta"] = []
            ev.append(e); break
        ev.append(e)
    return dict(ev=ev)

def dcall(fn, A, l, r, lr, rr):
    if fn == "oskd": return orthogonal_sketch(A, lr, rr, left_drm=l, right_drm=r).to_numpy()
    if fn == "hmtd": return hmt_sketch(A, rr, drm=r).to_numpy()
    return stream_sketch(A, lr, rr, left_drm=l, right_drm=r).to_numpy()

def call(fn, A):
    sh = tuple(A.shape); d = len(sh)
    if fn == "hmt": return hmt_sketch(A, 2, seed=5).to_numpy()
    if fn == "orthogonal": return orthogonal_sketch(A, 1, 3, seed=6).to_numpy()
    if fn == "stream": return stream_sketch(A, 2, 4, seed=7).to_numpy()
    if fn == "gauss": return stream_sketch(A, 3, 2, seed=8, left_drm_type=SparseGaussianDRM if isinstance(A, SparseTensor) else DenseGaussianDRM).to_numpy()
    if fn == "ttsvd": return tt_svd(A, 2).to_numpy()
    if fn == "svdvals": return np.concatenate([np.asarray(s).reshape(-1) for s in A.svdvals()])
    if fn == "roundr": return np.concatenate([A.round(max_rank=1).to_numpy().reshape(-1), round_tt_sum(TensorSum([A, A]), 2, method="pairwise").to_numpy().reshape(-1)])
    if fn == "rsum":                   # the other methods only have to leave the sum alone
        if not all(isinstance(t, TensorTrain) for t in A.tensors): return np.zeros(1)
        for how in ("sketch", "orth_sketch"): round_tt_sum(A, 2, method=how)
        return np.concatenate([round_tt_sum(A, 30, method=how).to_numpy().reshape(-1) for how in ("exact", "pairwise")])
    if fn == "mpo":
        M = MPO.eye(sh) * 2.0
        return TTLinearMapSum([M, MPO.eye(sh)])(A).to_numpy()
    if fn == "precond":
        n = sh[-1]
        P = TTPrecond(np.eye(n) * 2 + np.ones((n, n)), sh, mode=d - 1)
        return P.forward_call(P.backward_call(A)).to_numpy()
    if fn == "gmres":
        b = A if isinstance(A, TensorTrain) else TensorTrain([np.ones((1, n, 1)) for n in sh])
        x, _ = tt_sum_gmres(TTLinearMapSum([MPO.eye(sh) * 2.0]), b, max_rank=20, maxiter=2, rounding_method="exact")
        return x.to_numpy()
    if fn in ("left", "right"): return np.concatenate([c.reshape(-1) for c in A.C_cores(fn)])
    if fn == "totrain": return A.to_tt().to_numpy()
    if fn == "skdot": return [A.dot(A), A.norm()]
    raise KeyError(fn)

def poke(A, m, c):
    """multiply the tensor's own data in place (one core, all entries) by c"""
    if isinstance(A, DenseTensor): A.data *= c
    elif isinstance(A, SparseTensor): A.entries *= c
    elif m % 2: A[m] = A[m] * c
    else: A[m][...] = A[m] * c

if __name__ == "__main__": main(run_one)
