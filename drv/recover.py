"""Executes histories of recoveries (spec/Recover.tla)."""
from common import *
from stream import TYPES, f9v
from tt_sketch.sketch import stream_sketch, orthogonal_sketch, hmt_sketch

def reveal_int(drm, shape):
    sh = tuple(shape); d = len(sh); idx = np.indices(sh).reshape(d, -1)
    mats = list(drm.sketch_sparse(SparseTensor(sh, idx, np.ones(idx.shape[1])))); out = []
    for m in range(1, d):
        M = np.asarray(mats[m - 1]); nl, nr = int(np.prod(sh[:m])), int(np.prod(sh[m:]))
        A = M.reshape(M.shape[0], nl, nr)
        A = A[:, :, nr - 1] if not drm.transpose else A[:, nl - 1, :]
        out.append([ints(r) for r in A.T])
    return out
def arg(a): return {"int": lambda: int(a["r"][0]), "tuple": lambda: tuple(a["r"]), "list": lambda: list(a["r"])}[a["k"]]()

def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]
    slots = [build(t, (idx + i) % 5) for i, t in enumerate(g["tens"])]; ev = []
    for nc, e0 in enumerate(script["ev"]):
        e = dict(e0); e.update(exc="", L=[], R=[], sh=[], x=[])
        try:
            with limit(60):
                if e["op"] == "T": slots.append(slots[e["a"] - 1].T); ev.append(e); continue
                f = 10.0 ** e["sc"]
                def term(t):
                    c = t[1] * f; x = slots[t[0] - 1]
                    return x if c == 1 else x * c
                ts = [term(t) for t in e["terms"]]; sh = tuple(slots[e["terms"][0][0] - 1].shape)
                X = ts[0] if len(ts) == 1 else TensorSum(ts) if idx % 2 else sum(ts[1:], ts[0])
                lr, rr = arg(e["lr"]), arg(e["rr"]); np.random.seed(idx * 7 + nc)
                kw = {} if e["seed"] < 0 else dict(seed=e["seed"])
                def mk(side, rank, seed):
                    t = e["lt" if side == "l" else "rt"]; n = e["nl" if side == "l" else "nr"]
                    return TYPES[t](tuple(rank), sh, transpose=side == "r", seed=seed, **(dict(num_non_zero_per_row=tuple(n)) if n else {}))
                if e["given"]:
                    L0 = tuple(e["l0"]) or tuple(lr); R0 = tuple(e["r0"]) or tuple(rr)
                    kw = dict(left_drm=mk("l", L0, e["seed"]), right_drm=mk("r", R0, e["seed"] + 1))
                    if e["lt"] == "ss": e["L"] = reveal_int(mk("l", lr, e["seed"]), sh)
                    if e["rt"] == "ss": e["R"] = reveal_int(mk("r", rr, e["seed"] + 1), sh)
                else:
                    if e["lt"] != "default": kw["left_drm_type"] = TYPES[e["lt"]]
                    if e["rt"] != "default": kw["right_drm_type"] = TYPES[e["rt"]]
                if e["method"] == "hmt":
                    kw = {dict(right_drm="drm", right_drm_type="drm_type").get(k, k): v for k, v in kw.items() if not k.startswith("left")}
                    y = hmt_sketch(X, lr if isinstance(lr, int) else tuple(lr), **kw)
                elif e["method"] == "orth": y = orthogonal_sketch(X, lr if isinstance(lr, int) else tuple(lr), rr if isinstance(rr, int) else tuple(rr), **kw)
                else:
                    if e["given"]: lr, rr = L0, R0
                    S = stream_sketch(ts[0] if e["how"] == "upd" else X, lr if isinstance(lr, int) else tuple(lr), rr if isinstance(rr, int) else tuple(rr), **kw)
                    if e["how"] == "upd":
                        for t in ts[1:]: S = S + t
                    if e["how"] == "grow": S = S.increase_rank(X, tuple(arg(e["lr"])), tuple(arg(e["rr"])))
                    y = S.to_tt() if e["dir"] == "to_tt" else TensorTrain(S.C_cores(direction=e["dir"]))
                e["sh"] = il(y.shape); x = np.asarray(y.to_numpy(), float) / f; e["x"] = f9v(x)
                if f != 1: y = y * (1 / f)
                slots.append(y)
        except Exception as ex:
            e["exc"] = exc_name(ex); ev.append(e); break
        ev.append(e)
    return dict(g=script["g"], ev=ev)
if __name__ == "__main__": main(run_one)
