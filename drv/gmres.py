"""Executes runs of the TT-GMRES solver (spec/Gmres.tla)."""
from common import *
import logging
from guards import digest
from ttalg import f9, f9v
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, tt_sum_gmres

def f15(x):
    x = float(x)
    return big(round(x * 10**15)) if math.isfinite(x) and abs(x) < 1e12 else big(10**30)
def tolerance(t): return 10.0 ** -t if t else 0
def f9m(A): return [f9v(r) for r in A]
def dense_map(j, sh):
    """the matrix y = M x of a map, from its JSON description"""
    n = int(np.prod(sh)); d = len(sh)
    if j["k"] == "pc":
        M = np.eye(n).reshape(tuple(sh) + (n,)); M = np.moveaxis(np.tensordot(np.linalg.inv(np.array(j["A"], float)), M, (1, j["mode"] - 1)), 0, j["mode"] - 1)
        return M.reshape(n, n)
    a = np.ones((1, 1, 1))
    for c in j["cores"]:
        a = np.einsum("pqa,aijb->piqjb", a, np.array(c, float)); a = a.reshape(a.shape[0] * a.shape[1], a.shape[2] * a.shape[3], -1)
    return a[:, :, 0].T
def dense_tt(j):
    a = np.ones((1, 1))
    for c in j["cores"]: a = np.tensordot(a, np.array(c, float), (a.ndim - 1, 0))
    return a.reshape(-1)
def arnoldi(B, r0, K):
    n = len(r0); Q = np.zeros((n, K + 1)); H = np.zeros((K + 1, K)); Q[:, 0] = r0 / np.linalg.norm(r0)
    rng = np.random.RandomState(1)
    for j in range(K):
        w = B @ Q[:, j]
        for _ in range(3):
            h = Q[:, :j + 1].T @ w; w = w - Q[:, :j + 1] @ h; H[:j + 1, j] += h
        nw = np.linalg.norm(w)
        if nw > 1e-9 * np.linalg.norm(B): H[j + 1, j] = nw; Q[:, j + 1] = w / nw
        elif j + 1 < n:                       # the space is invariant: go on with anything orthogonal
            w = rng.normal(size=n)
            for _ in range(3): w = w - Q[:, :j + 1] @ (Q[:, :j + 1].T @ w)
            Q[:, j + 1] = w / np.linalg.norm(w)
    return Q, H
def rankarg(a):
    return {"int": lambda: int(a["r"][0]), "npint": lambda: np.int64(a["r"][0]), "list": lambda: list(a["r"]), "tuple": lambda: tuple(a["r"]), "none": lambda: None}[a["k"]]()

def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]; sh = tuple(g["sh"]); ev = []
    logging.disable(logging.CRITICAL)
    def mk(j, how): return TTPrecond(np.array(j["A"], float), sh, j["mode"] - 1) if j["k"] == "pc" else MPO([layout(np.array(c, float), how % 4) for c in j["cores"]])
    bs = [TensorTrain([layout(np.array(c, float), (idx + m) % 4) for m, c in enumerate(b["tt"]["cores"])]) for b in g["bs"]]
    def times(x, p): return x if p == 0 else TensorTrain([c * 2.0 ** p if m == idx % len(x.cores) else c for m, c in enumerate(x.cores)])
    scaled = {}
    def system(i, p):
        if (i, p) not in scaled:
            A, pc = systems[i]
            scaled[i, p] = (A, pc) if p == 0 else (TTLinearMapSum([MPO([c * 2.0 ** p if m == 0 else c for m, c in enumerate(o.cores)]) if isinstance(o, MPO) else o * 2.0 ** p for o in A.linear_maps]), pc)
        return scaled[i, p]
    def vector(i, p):
        if ("b", i, p) not in scaled: scaled["b", i, p] = times(bs[i], p)
        return scaled["b", i, p]
    systems = [(TTLinearMapSum([mk(j, idx) for j in s["maps"]]), mk(dict(s["pc"][0], k="pc"), 0) if s["pc"] else None) for s in g["systems"]]
    watch = lambda: [digest(x) for x in bs] + [digest(x) for s in systems for x in s if x is not None] + [digest(x) for v in scaled.values() for x in (v if isinstance(v, tuple) else (v,)) if x is not None]
    for nc, e0 in enumerate(script["ev"]):
        e = dict(e0); e.update(exc="", changed=[], tol15=f15(tolerance(e["t"])), K=0, Q=[], H=[], beta=[0], nc=[0])
        A, pc = system(e["sys"] - 1, e["pa"]); S = g["systems"][e["sys"] - 1]; px = e["pb"] - e["pa"]
        b, x0 = vector(e["b"] - 1, e["pb"]), None if e["x0"] == 0 else vector(e["x0"] - 1, px)
        kw = dict(max_rank=rankarg(e["rank"]), tolerance=tolerance(e["t"]), maxiter=e["maxiter"], rounding_method=e["method"])
        if pc is not None or idx % 2: kw["precond"] = pc
        if x0 is not None or idx % 3 == 0: kw["x0"] = x0
        if e["final"]["k"] != "none": kw["final_round_rank"] = rankarg(e["final"])
        if e["fmethod"] != "none": kw["rounding_method_final"] = e["fmethod"]
        if e["sym"]: kw["symmetric"] = True
        if e["save"]: kw["save_basis"] = True
        if e["verbose"]: kw["verbose"] = True
        before = watch(); np.random.seed(idx * 31 + nc)
        try:
            with limit(120): x, hist = tt_sum_gmres(A, b, **kw)
            xd = np.asarray(x.to_numpy(), float).reshape(-1) * 2.0 ** -px
        except Exception as ex:
            e["exc"] = exc_name(ex); ev.append(e); break
        e["changed"] = [i for i, (p, q) in enumerate(zip(before, watch())) if p != q]
        rep = [float(r) for r in hist["residual_norm"]]; K = len(rep) - 1
        # certificates, from the description of the problem
        M = sum(dense_map(j, sh) for j in S["maps"]); Pi = dense_map(dict(S["pc"][0], k="pc"), sh) if S["pc"] else np.eye(len(M))
        B, cv = Pi @ M, Pi @ dense_tt(g["bs"][e["b"] - 1]["tt"])
        r0 = cv - (B @ dense_tt(g["bs"][e["x0"] - 1]["tt"]) if e["x0"] else 0)
        beta = np.linalg.norm(r0); e.update(beta=f9(beta), nc=f9(np.linalg.norm(cv)))
        solved = beta < 1e-9
        K = min(K, len(B))
        if not solved and K > 0: Q, H = arnoldi(B, r0, K); e.update(K=K, Q=f9m(Q), H=f9m(H))
        ev.append(e)
        for k, r in enumerate(rep):
            i = dict(op="iter" if k else "rho0", rho=f9(r), rho15=f15(r), finite=math.isfinite(r), y=[], nr=f9(beta))
            if k and not solved:
                BQ = B @ Q[:, :min(k, K)]; y = np.linalg.lstsq(BQ, r0, rcond=None)[0]
                i.update(y=f9v(y), nr=f9(np.linalg.norm(r0 - BQ @ y)))
            ev.append(i)
        ok = bool(np.all(np.isfinite(xd)))
        ev.append(dict(op="end", cls=type(x).__name__, sh=il(x.shape), rk=il(x.rank), finite=ok, x=f9v(xd) if ok else [], nt=f9(np.linalg.norm(cv - B @ xd)) if ok else [0],
                       nnu=len(hist["nu_list"]) if "nu_list" in hist else -1, ny=len(hist["y"]) if "y" in hist else -1))
    return dict(g=script["g"], ev=ev)
if __name__ == "__main__": main(run_one)
