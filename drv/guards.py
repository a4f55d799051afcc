"""Executes requests, consistent or not (spec/Guards.tla)."""
from common import *
from stream import TYPES
from ranks import rankarg, tensor
from tt_sketch.drm_base import DRM
from tt_sketch.sketching_methods.abstract_methods import CansketchSparse
from tt_sketch.drm import TensorTrainDRM
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch, blocked_stream_sketch, SketchedTensorTrain
from tt_sketch.sketch_dispatch import general_sketch, SketchMethod
from tt_sketch.tt_svd import tt_svd
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, round_tt_sum, tt_sum_gmres
from tt_sketch.utils import process_tt_rank, trim_ranks

class Plain(CansketchSparse):
    """a random matrix that can neither be sliced nor extended"""
    def __init__(self, rank, shape, transpose, seed=None):
        DRM.__init__(self, rank, shape, transpose, seed=seed)
        self.inner = TensorTrainDRM(rank, shape, transpose=transpose, seed=seed)
    def sketch_sparse(self, tensor): return self.inner.sketch_sparse(tensor)
T = dict(TYPES, pl=Plain)

def arrays(x, depth=0):
    if isinstance(x, np.ndarray): yield x
    elif isinstance(x, (list, tuple)):
        for y in x: yield from arrays(y, depth)
    elif hasattr(x, "__dict__") and depth < 4:
        for y in x.__dict__.values(): yield from arrays(y, depth + 1)
def digest(x):
    return [(a.shape, a.tobytes()) for a in arrays(x)] + [len(x.tensors) if isinstance(x, TensorSum) else 0, str(getattr(x, "shape", "")), str(getattr(x, "rank", ""))]

class Desk:
    """the objects at hand; everything made is watched from then on"""
    def __init__(self): self.objs = {}
    def get(self, key, make):
        k = json.dumps(key)
        if k not in self.objs:
            x = make(); self.objs[k] = [x, digest(x)]
        return self.objs[k][0]
    def changed(self):
        out = []
        for k, v in self.objs.items():
            n = digest(v[0])
            if n != v[1]: out.append(k[:60]); v[1] = n
        return out

def run_one(job, script, idx):
    D, ev = Desk(), []
    X = lambda sh, kind: D.get(["x", sh, kind], lambda: tensor(tuple(sh), kind, 7))
    def drm(g, side):
        if g["t"] == "none": return None
        return D.get(["drm", g, side], lambda: T[g["t"]](tuple(g["rank"]), tuple(g["sh"]), transpose=side == "r", seed=3))
    mpo = lambda i, o: D.get(["mpo", i, o], lambda: MPO([np.random.RandomState(5).normal(size=(1, a, b, 1)) + (np.eye(a)[None, :, :, None] * 3 if a == b else 0) for a, b in zip(i, o)]))
    sk = lambda sh, l=None, r=None, t="tt", t2="tt", s=1: D.get(["sk", sh, l, r, t, t2, s], lambda: stream_sketch(
        X(sh, "sparse"), tuple(l or [2] * (len(sh) - 1)), tuple(r or [3] * (len(sh) - 1)), seed=s,
        left_drm=T[t](tuple(l or [2] * (len(sh) - 1)), tuple(sh), transpose=False, seed=s),
        right_drm=T[t2](tuple(r or [3] * (len(sh) - 1)), tuple(sh), transpose=True, seed=s + 1)))
    tts = lambda sh, n: [D.get(["tt", sh, i], lambda i=i: TensorTrain.random(tuple(sh), 2, seed=i + 1)) for i in range(n)]
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", changed=[], hang=False)
        op = e["op"]; sh = e["sh"]; ts = tuple(sh)
        # arguments are made outside of the judged call
        if op in ("stream", "osk", "hmt"):
            x = X(sh, "sparse"); l, r = drm(e.get("lg", dict(t="none")), "l"), drm(e["rg"], "r")
            f = {"stream": stream_sketch, "osk": orthogonal_sketch}.get(op)
            a = rankarg(e["rank"])
            call = (lambda: hmt_sketch(x, a, seed=1, drm=r)) if op == "hmt" else (lambda b=rankarg(e["right"]): f(x, a, b, seed=1, left_drm=l, right_drm=r))
        elif op == "upd":
            y = sk(sh); x = TensorSum([], shape=tuple(e["sh2"])) if e["empty"] else X(e["sh2"], ["sparse", "tt", "dense", "cp"][idx % 4])
            def call():
                z = y
                if e["how"] == "add": z + x
                elif e["how"] == "sub": z - x
                elif e["how"] == "iadd": z += x
                else: z -= x
        elif op == "grow":
            y = sk(sh, e["old"], e["oldr"], e["t"], e["t2"]); x = X(e["sh2"], "sparse"); a, b = rankarg(e["rank"]), rankarg(e["right"])
            call = lambda: y.increase_rank(x, a, b)
        elif op == "slice":
            d = drm(dict(t=e["t"], rank=e["rk"], sh=sh), e["side"])
            call = lambda: list(d.slice(tuple(e["lo"]), tuple(e["hi"])).sketch_sparse(X(sh, "sparse")))
        elif op == "block":
            n = len(sh) - 1
            l, r = drm(dict(t=e["t"], rank=[2] * n, sh=sh), "l"), drm(dict(t=e["t2"], rank=[3] * n, sh=sh), "r")
            x = X(e["sh2"], "sparse")
            call = lambda: blocked_stream_sketch(x, l, r, [(0,) * n, (1,) * n, (2,) * n], [(0,) * n, (3,) * n])
        elif op == "sign":
            a = rankarg(e["rank"])
            def call(): list(T["ss"](a, ts, transpose=e["side"] == "r", seed=2, num_non_zero_per_row=tuple(e["nnz"])).sketch_sparse(X(sh, "sparse")))
        elif op == "drm":
            a = rankarg(e["rank"])
            def call(): list(T[e["t"]](a, ts, transpose=e["side"] == "r", seed=2).sketch_sparse(X(sh, "sparse")))
        elif op == "use":
            kind = e["kind"] if e["t"] == "tt" else "sparse" if e["t"] != "dg" or e["kind"] in ("cp", "tucker") else e["kind"]
            d = drm(dict(t=e["t"], rank=[2] * (len(sh) - 1), sh=sh), e["side"]); x = X(e["sh2"], kind)
            call = lambda: list(getattr(d, "sketch_" + kind)(x))
        elif op == "cores":
            y = sk(sh); y = y.T if e["tr"] else y
            call = lambda: y.C_cores(e["dir"]) if e["dir"] != "auto" or idx % 2 else y.C_cores()
        elif op == "rsum":
            S = D.get(["sum", sh, e["n"]], lambda: TensorSum(tts(sh, e["n"]))); a = rankarg(e["rank"])
            call = lambda: round_tt_sum(S, a, method=None if e["method"] == "none" else e["method"], oversample_factor=e["of"] / 1000)
        elif op == "ttrand":
            kw = {k: e[k] == "yes" for k in ("orthog", "trim") if e[k] != "default"}; a = rankarg(e["rank"])
            call = lambda: TensorTrain.random(ts, a, seed=1, norm_goal=e["goal"], **kw)
        elif op == "wts":
            S = D.get(["wsum", sh, e["n"]], lambda: TensorSum(tts(sh, e["n"]), shape=ts))
            w = [float(i + 1) for i in range(e["m"])]
            w = dict(list=w, tuple=tuple(w), np=np.array(w), gen=(x for x in w), mul=w, rmul=w)[e["ty"]]
            call = lambda: w * S if e["ty"] == "rmul" else S * w
        elif op == "mapsum":
            # of a square map either an MPO or a mode preconditioner
            maps = [D.get(["pc", i], lambda i=i: TTPrecond(np.eye(i[0]) * 2, tuple(i), mode=0)) if e["pc"] and i == o else mpo(i, o) for i, o in e["maps"]]
            call = lambda: TTLinearMapSum(maps)
        elif op == "gmres":
            A = TTLinearMapSum([mpo(e["ish"], e["ash"])])
            b = tts(e["bsh"], 1)[0]; x0 = tts(e["xsh"], 1)[0] if e["xsh"] else None
            a = rankarg(e["rank"]); fr = None if e["final"]["k"] == "none" else rankarg(e["final"])
            call = lambda: tt_sum_gmres(A, b, max_rank=a, final_round_rank=fr, x0=x0, maxiter=2, rounding_method=e["method"],
                                        rounding_method_final=None if e["fmethod"] == "none" else e["fmethod"])
        elif op == "general":
            n = len(sh) - 1
            l, r = drm(dict(t="tt", rank=[1] * n, sh=sh), "l"), drm(dict(t="tt", rank=[1 if e["method"] == "hmt" else 2] * n, sh=sh), "r")
            x = X(sh, "sparse")
            call = lambda: general_sketch(x, l if e["left"] == "yes" else None, r, method=SketchMethod[e["method"]])
        elif op == "sprand": call = lambda: SparseTensor.random(ts, e["nnz"], seed=1 if e["seeded"] else None)
        else:
            a = None if e["rank"]["k"] == "none" else rankarg(e["rank"])
            call = {"zero": lambda: TensorTrain.zero(ts, a), "process": lambda: process_tt_rank(a, ts, trim=False),
                    "trim": lambda: process_tt_rank(a, ts, trim=True), "svd": lambda: tt_svd(X(sh, "dense"), a),
                    "ttround": lambda: tts(sh, 1)[0].round(max_rank=a), "mpo": lambda: MPO.random(a, ts, ts)}[op]
        D.changed()
        st = np.random.get_state()
        try:
            with limit(60): call()
        except Timeout as x: e["exc"] = "timeout"; e["hang"] = True
        except Exception as x: e["exc"] = exc_name(x)
        e["changed"] = D.changed()
        ev.append(e)
    return dict(ev=ev)
if __name__ == "__main__": main(run_one)
