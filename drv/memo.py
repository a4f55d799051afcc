"""Executes histories of random requests (spec/Memo.tla) in several processes with
different environments."""
import sys, os, json
HERE = os.path.realpath(__file__)
ENVS = [dict(PYTHONHASHSEED="0"), dict(PYTHONHASHSEED="1", OPENBLAS_NUM_THREADS="4", VF_CPUS="1"), dict(PYTHONHASHSEED="random", VF_CPUS="64", VF_SEED0="9"),
        dict(PYTHONHASHSEED="77", VF_AFFINITY="1", PYTHONOPTIMIZE="1", TZ="Asia/Tokyo", LC_ALL="C")]

def serve():
    import zlib, threading
    import numpy as np
    if os.environ.get("VF_CPUS"):
        n = int(os.environ["VF_CPUS"]); os.cpu_count = lambda: n
    if os.environ.get("VF_AFFINITY"):
        try: os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[0]})
        except OSError: pass
    if os.environ.get("VF_SEED0"): np.random.seed(int(os.environ["VF_SEED0"]))
    import common as C
    from stream import TYPES
    from tt_sketch.tensor import TensorTrain, CPTensor, TuckerTensor, SparseTensor
    from tt_sketch.utils import random_normal, power_decay_tensor
    from tt_sketch.sketch import stream_sketch, orthogonal_sketch, hmt_sketch
    np.seterr(all="ignore")
    import warnings; warnings.simplefilter("ignore")
    tens = [C.build(t, i % 5) for i, t in enumerate(json.loads(sys.stdin.readline()))]
    def row(a):
        a = np.asarray(a, float).reshape(-1)
        return [int(round(x * 1e6)) if np.isfinite(x) and abs(x) < 1900 else 2147000000 for x in a.tolist()]
    def state():
        s = np.random.get_state(); return [zlib.crc32(s[1].tobytes()) % 2**30, int(s[2]), int(s[3]), int(round(s[4] * 1e6))]
    def reveal(drm, shape):
        sh = tuple(shape); d = len(sh); ix = np.indices(sh).reshape(d, -1); out = []
        mats = list(drm.sketch_sparse(SparseTensor(sh, ix, np.ones(ix.shape[1]))))
        for m in range(1, d):
            M = np.asarray(mats[m - 1]); nl, nr = int(np.prod(sh[:m])), int(np.prod(sh[m:]))
            A = M.reshape(M.shape[0], nl, nr)
            A = A[:, :, nr - 1] if not drm.transpose else A[:, nl - 1, :]
            out.append(row(A.T))
        return out
    def seedof(s, form):
        if s == "none": return None
        s = int(s)
        return s if form == 0 else np.int64(s) if form == 1 else np.uint32(s) if form == 2 else int(s)
    def rk(r, form): return tuple(r) if form == 0 else list(r) if form == 1 else tuple(np.int64(x) for x in r) if form == 2 else np.array(r)
    def drm(kind, r, sh, opt, seed, r2):
        kw = dict(num_non_zero_per_row=tuple(r2)) if kind == "drm-ss" else {}
        return TYPES[kind[4:]](tuple(r), tuple(sh), transpose=opt == "r", seed=seed, **kw)
    def answer(k, form):
        sh = tuple(k["sh"]); kind = k["kind"]; seed = seedof(k["seed"], form); r = rk(k["r"], form); left = right = []
        if kind == "normal": v = [row(random_normal(sh, seed))]
        elif kind == "decay": v = [row(power_decay_tensor(sh, seed=seed))]
        elif kind == "tt":
            o = k["opt"]; kw = dict(orth=dict(orthog=True), trim=dict(trim=True), preserve=dict(norm_goal="norm-preserve")).get(o, {})
            v = [row(c) for c in TensorTrain.random(sh, r, seed=seed, **kw).cores]
        elif kind == "cp": v = [row(c) for c in CPTensor.random(sh, int(k["r"][0]), seed=seed).cores]
        elif kind == "tucker":
            t = TuckerTensor.random(sh, r, seed=seed); v = [row(t.core)] + [row(c) for c in t.factors]
        elif kind == "sparse":
            t = SparseTensor.random(sh, int(k["r"][0]), seed=seed); v = [row(np.asarray(i) / 1000) for i in t.indices] + [row(t.entries)]
        elif kind.startswith("drm"): v = reveal(drm(kind, k["r"], sh, k["opt"], seed, k["r2"]), sh)
        else:
            X = tens[k["ten"] - 1]; ty = TYPES[k["opt"]] if k["opt"] != "default" else None; kw = dict(seed=seed, return_drm=True)
            if kind == "hmt":
                y, R = hmt_sketch(X, rk(k["r"], form), drm_type=ty, **kw); v = reveal(R, sh) + [row(y.to_numpy())]
            else:
                giv = k["giv"]; typeof = "left_drm_type" if (giv[0] == "r" if giv else form % 2) else "right_drm_type"
                if ty is not None: kw[typeof] = ty
                if giv:
                    right_side = giv[0] == "r"
                    kw["right_drm" if right_side else "left_drm"] = (ty or TYPES["tt"])(tuple(k["r2" if right_side else "r"]), sh, transpose=right_side, seed=[123457, 2**31 + 12345][int(giv[1])])
                y, L, R = (stream_sketch if kind == "stream" else orthogonal_sketch)(X, rk(k["r"], form), rk(k["r2"], form), **kw)
                left, right = reveal(L, sh), reveal(R, sh); v = left + right
                v += [row(c) for c in y.Psi_cores] + [row(c) for c in y.Omega_mats] if kind == "stream" else [row(y.to_numpy())]
                if k["opt"] == "ss": left = right = []
        return dict(v=v, left=left, right=right)
    def guarded(f):
        try: return dict(f(), exc="")
        except Exception as e: return dict(v=[], left=[], right=[], exc=C.exc_name(e))
    objs = {}
    for line in sys.stdin:
        e = json.loads(line); op = e["op"]; g0 = state()
        if op == "call":
            res = [None] * len(e["ks"])
            if len(res) == 1: res[0] = guarded(lambda: answer(e["ks"][0], e["form"]))
            else:
                def work(i): res[i] = guarded(lambda: answer(e["ks"][i], e["form"]))
                ts = [threading.Thread(target=work, args=(i,)) for i in range(len(res))]
                for t in ts: t.start()
                for t in ts: t.join(100)
            out = dict(res=res)
        elif op == "perturb":
            w, x = e["what"], e["x"]
            if w == "seed": np.random.seed(x)
            elif w == "draw": np.random.normal(size=x + 1)
            elif w == "python":
                import random; random.seed(x)
            elif w == "threads":
                ts = [threading.Thread(target=random_normal, args=((50,), i)) for i in range(x)]
                for t in ts: t.start()
                for t in ts: t.join()
            out = {}
        elif op == "new":
            objs = objs if e["id"] else {}
            def mk():
                objs[e["id"]] = (drm(e["kind"], e["r"], e["sh"], e["opt"], None, e["r2"]), e); return dict(v=reveal(objs[e["id"]][0], e["sh"]))
            out = guarded(mk); g0 = state()
        elif op == "use":
            def use():
                D, o = objs[e["id"]]; h = e["how"]; sh = o["sh"]
                if h == "whole": return dict(v=reveal(D, sh))
                if h == "slice": return dict(v=reveal(D.slice(tuple(e["lo"]), tuple(e["hi"])), sh))
                if h == "grow": return dict(v=reveal(D.increase_rank(tuple(e["hi"])), sh))
                return dict(v=reveal(D.T.T, sh))
            out = guarded(use)
        else:
            a, b = (guarded(lambda: answer(e["k"], 0)) for _ in range(2)); out = dict(v=a["v"], v2=b["v"], exc=a["exc"] or b["exc"])
        out.update(g0=g0, g1=state())
        sys.stdout.write(json.dumps(out) + "\n"); sys.stdout.flush()

if len(sys.argv) > 1 and sys.argv[1] == "--serve": serve(); sys.exit(0)

from common import *
import subprocess
helpers = {}
def ask(job, env, req):
    if env not in helpers:
        h = helpers[env] = subprocess.Popen([sys.executable, HERE, "--serve"], env=dict(os.environ, **ENVS[env]), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        h.stdin.write(json.dumps(job["tens"]) + "\n")
    h = helpers[env]
    try:
        h.stdin.write(json.dumps(req) + "\n"); h.stdin.flush(); return json.loads(h.stdout.readline())
    except (OSError, ValueError):
        helpers.pop(env); h.kill()
        bad = dict(v=[], v2=[], left=[], right=[], exc="process died")
        return dict(bad, res=[bad] * len(req.get("ks", [])), g0=[], g1=[])
def run_one(job, script, idx):
    ev, where, n = [], [], 0
    for e0 in script["ev"]:
        e = dict(e0)
        if e["op"] == "new": where.append(e["w"]); n += 1; e["id"] = "%d.%d" % (idx, n)
        if e["op"] == "use": e["w"] = where[e["o"] - 1]; e["id"] = "%d.%d" % (idx, e["o"])
        with limit(200): e.update(ask(job, e["w"] - 1, e))
        ev.append(e)
    return dict(ev=ev)
if __name__ == "__main__": main(run_one)
