"""Calls taking ranks (spec/Calls.tla, TraceRanks.tla)."""
from common import *
from stream import TYPES
from tt_sketch.utils import process_tt_rank, trim_ranks
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tt_svd import tt_svd
from tt_sketch.tt_gmres import MPO, round_tt_sum

def rankarg(a):
    r = a["r"]
    return {"int": lambda: r[0], "npint": lambda: np.int64(r[0]), "list": lambda: list(r), "tuple": lambda: tuple(r),
            "np": lambda: np.array(r, dtype=np.int64), "nptuple": lambda: tuple(np.int32(x) for x in r)}[a["k"]]()

def tensor(sh, kind, seed):
    rng = np.random.RandomState(seed)
    if kind == "dense": return DenseTensor(rng.normal(size=sh))
    if kind == "sparse":
        return DenseTensor(rng.normal(size=sh)).to_sparse()
    if kind == "tt": return TensorTrain.random(tuple(sh), 2, seed=seed)
    if kind == "cp": return CPTensor.random(tuple(sh), 2, seed=seed)
    return TuckerTensor.random(tuple(sh), 2, seed=seed)

def run_one(job, script, idx):
    ev = []
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", res=[])
        sh = tuple(e["sh"]); op = e["op"]; R = rankarg(e["rank"])
        try:
            with limit(60):
                if op == "trim":
                    e["res"] = il(process_tt_rank(R, sh, trim=e["trim"])) if e["how"] == "process" else il(trim_ranks(sh, R))
                elif op == "train":
                    if e["how"] == "zero": t = TensorTrain.zero(sh, R)
                    else:
                        kw = {}
                        if e["how"] == "orthog": kw["orthog"] = True
                        if e["how"] == "orthog-trim": kw.update(orthog=True, trim=True)
                        if e["how"] == "trim": kw["trim"] = True
                        if e["how"] == "notrim": kw["trim"] = False
                        t = TensorTrain.random(sh, R, seed=idx, **kw)
                    e["res"] = il(t.rank); e["shapes"] = [il(c.shape) for c in t.cores]
                elif op == "drm":
                    D = TYPES[e["t"]](R, sh, transpose=e["side"] == "r", seed=idx)
                    e["res"] = il(D.rank[::-1] if e["side"] == "r" else D.rank)
                elif op == "tucker":
                    t = TuckerTensor.random(sh, R, seed=idx); e["res"] = il(t.rank)
                elif op == "mpo":
                    np.random.seed(idx); e["res"] = il(MPO.random(R, sh, tuple(e["osh"])).rank)
                else:
                    X = tensor(sh, e["kind"], idx)
                    if op == "stream":
                        y = stream_sketch(X, R, rankarg(e["right"]), seed=idx, left_drm_type=TYPES[e["t"]], right_drm_type=TYPES[e["t2"]])
                        e["left"], e["rightr"], e["res"] = il(y.left_rank), il(y.right_rank), il(y.to_tt().rank)
                    elif op == "hmt": e["res"] = il(hmt_sketch(X, R, seed=idx, drm_type=TYPES[e["t"]]).rank)
                    elif op == "osk": e["res"] = il(orthogonal_sketch(X, R, rankarg(e["right"]), seed=idx, left_drm_type=TYPES[e["t"]], right_drm_type=TYPES[e["t2"]]).rank)
                    elif op == "svd": e["res"] = il(tt_svd(X, R).rank)
                    elif op == "round": e["res"] = il(TensorTrain.random(sh, 6, seed=idx).round(max_rank=R).rank)
                    elif op in ("rsum", "rsumx"):
                        S = TensorSum([TensorTrain.random(sh, 3, seed=idx + i) for i in range(e["n"])]); np.random.seed(idx)
                        e["res"] = il(round_tt_sum(S, max_rank=R, method=e["how"], oversample_factor=e.get("of", 2)).rank)
        except Exception as x: e["exc"] = exc_name(x)
        ev.append(e)
    return dict(ev=ev)
if __name__ == "__main__": main(run_one)
