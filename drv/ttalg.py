"""Executes lives of tensor trains (spec/TTAlg.tla)."""
from common import *
from stream import TYPES, f9, f9v, reveal
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch
from tt_sketch.tt_svd import tt_svd
from tt_sketch.tt_gmres import round_tt_sum

def train(t, desc=1.0, at=-1):
    """record a train, its core number `at` divided by desc"""
    cs = [np.array(c, dtype=float) for c in t.cores]
    cs[at] = cs[at] / desc
    return dict(sh=il(t.shape), rk=il(t.rank), c=[f9v(c) for c in cs])
def rankarg(a):
    if a["k"] == "none": return None
    if a["k"] == "int": return a["r"][0]
    if a["k"] == "list": return list(a["r"])
    if a["k"] == "np": return np.array(a["r"])
    return tuple(a["r"])
def f9m(A): return [f9v(r) for r in A]
def eig(W):
    """certificate: eigen-decomposition of the Gram matrix on the shorter side"""
    W = np.asarray(W, dtype=float)
    G = W @ W.T if W.shape[0] <= W.shape[1] else W.T @ W
    if not np.all(np.isfinite(G)): return dict(u=[], lam=[])
    lam, u = np.linalg.eigh(G)
    return dict(u=f9m(u[:, ::-1]), lam=f9v(lam[::-1]))
def specs(X):
    sh = X.shape
    return [eig(X.reshape(int(np.prod(sh[:m])), -1)) for m in range(1, len(sh))]
def certs(X, cores):
    """spectra met by the left-to-right sweep of X along the cores"""
    W = np.asarray(X, dtype=float); out = []
    for c in cores[:-1]:
        Q = np.asarray(c).reshape(-1, c.shape[-1])
        W = W.reshape(Q.shape[0], -1) if W.size % Q.shape[0] == 0 else np.full((Q.shape[0], 1), np.nan)
        out.append(eig(W)); W = Q.T @ W
    return out
def rcerts(X, t): return certs(np.transpose(X), [np.transpose(c, (2, 1, 0)) for c in t.cores[::-1]])

def content(x):
    if isinstance(x, TensorTrain): return [np.array(c) for c in x.cores]
    return [np.array(x.to_numpy())]

def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]
    ev, cur, sc = [], None, 1.0
    made = {}
    def addend(p):                  # the same object whenever it is asked for again
        if (p, sc) not in made: made[(p, sc)] = build(g["adds"][p - 1], (idx + p) % 5) * sc
        return made[(p, sc)]
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", changed=False, res={}, cert=[], specs=[])
        op = e["op"]
        seed = (idx * 7 + len(ev)) % 1000 + 1
        try:
            with limit(60):
                before, old = (None, None) if cur is None else (content(cur), cur)
                X = None if cur is None or op not in ("svd", "round", "rsum", "svdvals") else np.array(cur.to_numpy(), dtype=float) / sc
                if op == "start":
                    cur = build(g["tens"][e["p"] - 1], idx % 5); sc = 10.0 ** e["sc"]
                    if sc != 1 or e["bal"]:
                        cs = [np.array(c, dtype=float) for c in cur.cores]; b = 10.0 ** e["bal"]
                        cs[0] = cs[0] * b; cs[-1] = cs[-1] / b
                        cs[len(cs) // 2] = cs[len(cs) // 2] * sc
                        cur = TensorTrain(cs)
                elif op == "T": cur = cur.T
                elif op == "scale": cur = cur * float(e["c"]) if idx % 2 else float(e["c"]) * cur
                elif op == "add": cur = cur.add(addend(e["p"]))
                elif op == "norm": e["val"] = f9(cur.norm() / sc)
                elif op == "svdvals":
                    e["vals"] = [f9v(np.asarray(x) / sc) for x in cur.svdvals()]; e["specs"] = specs(X)
                elif op == "orth":
                    cur = cur.orthogonalize(); e["res"] = train(cur, sc)
                elif op == "round":
                    e["zc"] = any(not np.any(c) for c in cur.cores)
                    kw = {}
                    if e["rank"]["k"] != "none" or idx % 2: kw["max_rank"] = rankarg(e["rank"])
                    if e["eps"]: kw["eps"] = e["eps"] / 1000
                    elif idx % 3 == 0: kw["eps"] = None
                    if e["oz"]: kw["orthogonalized"] = True
                    y = cur.round(**kw); e["res"] = train(y, sc, 0); e["cert"] = rcerts(X, y); cur = y
                elif op == "svd":
                    y = tt_svd(cur, rankarg(e["rank"])) if e["rank"]["k"] != "none" or idx % 2 else tt_svd(cur)
                    e["res"] = train(y, sc); e["cert"] = certs(X, y.cores); e["specs"] = specs(X); cur = y
                elif op in ("hmt", "osk"):
                    sh = tuple(cur.shape)
                    T, rank = TYPES[e["t"]], rankarg(e["rank"])
                    full = lambda r: tuple(r) if not isinstance(r, int) else (r,) * (len(sh) - 1)
                    if op == "hmt":
                        if e["given"]: R = T(full(rank), sh, transpose=True, seed=seed); y = hmt_sketch(cur, rank, drm=R)
                        else: y, R = hmt_sketch(cur, rank, seed=seed, drm_type=T, return_drm=True)
                    else:
                        T2, right = TYPES[e["t2"]], rankarg(e["right"])
                        if e["given"]:
                            L = T(full(rank), sh, transpose=False, seed=seed); R = T2(full(right), sh, transpose=True, seed=seed + 1)
                            y = orthogonal_sketch(cur, rank, right, left_drm=L, right_drm=R)
                        else: y, L, R = orthogonal_sketch(cur, rank, right, seed=seed, left_drm_type=T, right_drm_type=T2, return_drm=True)
                        e["L"] = reveal(L, sh)
                    e["R"] = reveal(R, sh); e["res"] = train(y, sc); cur = y
                elif op == "rsum":
                    parts = [cur] + [addend(p) if c == 1 else c * addend(p) for p, c in e["with"]]
                    S = TensorSum(list(parts)); np.random.seed(seed)
                    kw = dict(max_rank=rankarg(e["rank"]), method=None if e["method"] == "none" else e["method"])
                    if e["eps"]: kw["eps"] = e["eps"] / 1000
                    if e["method"] in ("sketch", "orth_sketch"): kw["oversample_factor"] = e["of"] / 1000
                    y = round_tt_sum(S, **kw)
                    if e["method"] == "none": e["obs"] = dict(cls=type(y).__name__, v=f9v(y.to_numpy() / sc))
                    else:
                        e["res"] = train(y, sc, 0 if e["method"] in ("exact", "pairwise") else -1)
                        if e["method"] == "exact": e["cert"] = [rcerts(S.to_numpy() / sc, y)]
                        if e["method"] == "pairwise":
                            e["cert"], e["pre"] = [rcerts(X, y) if len(parts) == 1 else []], [e["res"]]
                            prev = np.array(parts[0].to_numpy())
                            for i in range(2, len(parts) + 1):
                                z = round_tt_sum(TensorSum(parts[:i]), **kw)
                                e["pre"].append(train(z, sc, 0))
                                e["cert"].append(rcerts((prev + parts[i - 1].to_numpy()) / sc, z))
                                prev = np.array(z.to_numpy())
                        cur = y
                else: raise KeyError("driver: " + op)
                if old is not None:
                    now = content(old)
                    e["changed"] = len(now) != len(before) or not all(np.array_equal(a, b) for a, b in zip(before, now))
        except Exception as x:
            e["exc"] = exc_name(x); ev.append(e); break
        ev.append(e)
    return dict(g=script["g"], ev=ev)

if __name__ == "__main__": main(run_one)
