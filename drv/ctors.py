"""Makes random tensors and maps (spec/Ctors.tla)."""
from common import *
from stream import f9, f9v
from tt_sketch.tt_gmres import MPO

def rankarg(a):
    r = a["r"]
    return r[0] if a["k"] == "int" else tuple(r) if a["k"] == "tuple" else list(r) if a["k"] == "list" else np.array(r, dtype=int)
def make(q, form):
    sh = tuple(q["sh"]) if form % 2 else list(q["sh"])
    seed = None if q["seed"] < 0 else np.int64(q["seed"]) if form == 2 else q["seed"]
    kw = {} if seed is None and form % 3 else dict(seed=seed)
    k = q["kind"]
    if k == "tt":
        t = dict(none={}, yes=dict(trim=True), no=dict(trim=False))[q["trim"]]
        if q["trim"] == "none" and form == 3: t = dict(trim=None)
        if q["orth"]: t["orthog"] = True
        if q["goal"] != "norm-1" or form == 4: t["norm_goal"] = q["goal"]
        return TensorTrain.random(tuple(sh), rankarg(q["rank"]), **kw, **t)
    if k == "zero": return TensorTrain.zero(tuple(sh), rankarg(q["rank"]))
    if k == "cp": return CPTensor.random(tuple(sh), q["rank"]["r"][0], **kw)
    if k == "tucker": return TuckerTensor.random(tuple(sh), rankarg(q["rank"]), **kw)
    if k == "sparse": return SparseTensor.random(tuple(sh), q["nnz"], **kw)
    if k == "mpo": return MPO.random(rankarg(q["rank"]), tuple(sh), tuple(q["outs"]))
    return DenseTensor.random(tuple(sh))
def arrays(x):
    if isinstance(x, (TensorTrain, MPO, CPTensor)): return list(x.cores)
    if isinstance(x, TuckerTensor): return list(x.factors) + [x.core]
    if isinstance(x, SparseTensor): return [x.entries]
    return [x.data]
def digest(x):
    a = arrays(x) + ([np.asarray(x.indices)] if isinstance(x, SparseTensor) else [])
    return (type(x).__name__,) + tuple((np.asarray(y).shape, np.ascontiguousarray(y).tobytes()) for y in a)
def parts(x):
    A = [np.asarray(a) for a in arrays(x)]; out = []
    for m, a in enumerate(A):
        f = a.reshape(-1).astype(float); near = [k for k in range(m + 1, len(A)) if A[k].size == a.size][:6]
        out.append(dict(sh=il(a.shape), n=int(a.size), fin=bool(np.all(np.isfinite(f))), s=f9(f.sum()), q=f9((f * f).sum()), dup=int(f.size - len(np.unique(f))),
                        zero=int((f == 0).sum()), x=[dict(k=k + 1, v=f9((f * A[k].reshape(-1)).sum())) for k in near],
                        lead=f9v(f[1:3] / f[0]) if f.size > 2 and f[0] != 0 and np.all(np.isfinite(f[:3])) else [], v=f9v(f) if f.size <= 300 else []))
    return out
def obs(x, q):
    o = dict(sh=il(x.in_shape if isinstance(x, MPO) else x.shape), outs=il(x.out_shape) if isinstance(x, MPO) else [], parts=parts(x), ix=[], count=0, rk=[])
    if hasattr(x, "rank"): o["rk"] = il(np.atleast_1d(x.rank))
    if isinstance(x, SparseTensor):
        I = np.asarray(x.indices); o["ix"] = [il(r) for r in I.T] if I.ndim == 2 and I.shape[0] == len(x.shape) else [[-1]] * int(I.size + 1)
        o["count"] = int(np.count_nonzero(x.to_numpy()))
    return o
def run_one(job, script, idx):
    objs, ev, known = [], [], {}
    def ids(): return [known.setdefault(digest(x), len(known) + 1) for x in objs]
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", exn="", obj={}, ids=[], shared=[])
        try:
            with limit(60):
                if e["op"] == "make":
                    x = make(e["q"], e["form"]); e["obj"] = obs(x, e["q"]); objs.append(x)
                elif e["op"] == "cover":         # positions of sixty tensors, half or nearly all of them filled
                    sh = tuple(e["sh"]); N = int(np.prod(sh)); nnz = max(1, -(-N // 2) if e["half"] else N - 1); S = set()
                    for k in range(60):
                        x = SparseTensor.random(sh, nnz, seed=k * 7 + idx) if e["form"] % 2 else SparseTensor.random(sh, nnz)
                        S |= set(map(tuple, np.asarray(x.indices).T.tolist()))
                    e["ix"] = [list(x) for x in sorted(S)]
                else:
                    x = objs[e["p"] - 1]
                    A = arrays(x)
                    for i, a in enumerate(A):
                        was = [np.array(b) for b in A]
                        a += 1
                        e["shared"] += [[i + 1, k + 1] for k, b in enumerate(A) if k != i and not np.array_equal(b, was[k])]
                    if isinstance(x, SparseTensor) and np.asarray(x.indices).size: np.asarray(x.indices)[...] = 0
        except Exception as ex: e["exc"], e["exn"] = exc_name(ex), type(ex).__name__
        e["ids"] = ids()
        ev.append(e)
    return dict(ev=ev)
if __name__ == "__main__": main(run_one)
