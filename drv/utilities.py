"""Executes matricizations, pseudo-inverses, projectors and model tensors (spec/Utils.tla)."""
from common import *
from stream import f9, f9v
from ttalg import eig
from tt_sketch import utils as U

def f9m(A): return [f9v(r) for r in np.asarray(A, dtype=float)]
def modearg(mode, form):
    m = [x - 1 for x in mode]
    if form == "int" and len(m) == 1: return m[0]
    if form == "list": return m
    if form == "np": return np.array(m, dtype=int)
    return tuple(m)
def had(n): return np.array([[(-1) ** bin(i & j).count("1") for j in range(n)] for i in range(n)])
def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]; cur = None; ev = []
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", changed=False, sh=e0.get("sh", []), v=[]); op = e["op"]
        args = []
        def arg(a, how):
            x = layout(np.array(a, dtype=float), how); args.append((x, x.copy())); return x
        def pmul(side, A, B, how, vec, **kw):          # A B^+, or the transposed of it from the other side
            A = np.array(A, dtype=float); B = np.array(B, dtype=float)
            if vec: A = A[0]
            if side == "r": X = U.right_mul_pinv(arg(A, how), arg(B, (how + 2) % 5), **kw)
            else: X = U.left_mul_pinv(arg(B.T, (how + 2) % 5), arg(A.T, how), **kw).T
            return np.atleast_2d(X)
        try:
            with limit(60):
                if op == "load":
                    a = g["arrs"][e["p"] - 1]; cur = layout(np.array(a["v"], dtype=float).reshape(a["sh"]), e["lay"])
                elif op == "mat":
                    args.append((cur, cur.copy()))
                    M = U.matricize(cur, modearg(e["mode"], e["form"]), mat_shape=e["flat"]) if e["flat"] or idx % 2 else U.matricize(cur, modearg(e["mode"], e["form"]))
                    e.update(sh=il(M.shape), v=ints(M))
                elif op == "mul":
                    m = e["m"] - 1; args.append((cur, cur.copy()))
                    M = np.array(e["B"], dtype=float) @ U.matricize(cur, m)
                    sh = list(cur.shape); sh[m] = len(e["B"])
                    R = U.dematricize(arg(M, e["lay"]), m, sh if e["list"] else tuple(sh))
                    e.update(sh=il(R.shape), v=ints(R))
                elif op == "pinv":
                    p = g["pairs"][e["p"] - 1]; X = pmul(e["side"], p["A"], p["B"], e["lay"], e["vec"])
                    B = np.array(p["B"], dtype=float)
                    e.update(X=f9m(X), W=f9m(X @ np.linalg.pinv(B.T, rcond=1e-10)))
                elif op == "had":
                    Un, Vm = had(e["n"]), had(e["m"]); B = sum(2 ** x * np.outer(Un[:, i], Vm[:, i]) for i, x in enumerate(e["e"]))
                    kw = {} if e["c"] < 0 else dict(cond=3.0 / 2 ** e["c"])
                    X = pmul(e["side"], e["A"], B, e["lay"], False, **kw) * (e["n"] * e["m"] * 2 ** max(e["e"]))
                    e.update(B=B.tolist(), X=[ints(r, 1e-7) for r in X])
                elif op == "diag":
                    n, m = e["n"], e["m"]; B = np.zeros((n, m)); cs = np.ones(n)
                    for r, c, x in zip(e["rw"], e["cl"], e["ex"]): B[r - 1, c - 1] = 10.0 ** (x + e["off"]); cs[r - 1] = 10.0 ** (x + e["off"])
                    kw = {} if e["c"] < 0 else dict(cond=3 * 10.0 ** -e["c"])
                    # the functions multiply by the pseudo-inverse of an n x m or m x n matrix
                    X = pmul(e["side"], e["A"], B, e["lay"] if e["lay"] != 2 else 0, False, **kw)      # not as integers
                    e.update(X=[ints(r, 0.02) for r in X * cs])      # ratios of 10^13: a few digits are left
                elif op == "proj":
                    p = g["projs"][e["p"] - 1]; X, Y = np.array(p["X"], dtype=float), np.array(p["Y"], dtype=float)
                    P = U.projector(arg(X, e["lay"]), arg(Y, (e["lay"] + 1) % 5)) if p["X"] != p["Y"] or idx % 2 else U.projector(arg(X, e["lay"]))
                    e.update(P=f9m(P), K=f9m(np.linalg.pinv(Y.T @ X, rcond=1e-10)))
                elif op == "hilbert":
                    R = U.hilbert_tensor(e["d"], e["n"]); e.update(sh=il(R.shape), v=f9v(R))
                elif op == "sqrt":
                    R = U.sqrt_tensor(tuple(e["sh"])) if e["dflt"] else U.sqrt_tensor(tuple(e["sh"]), a=e["a"] / 10, b=e["b"] / 10)
                    e.update(rsh=il(R.shape), v=f9v(R))
                elif op == "decay":
                    sh = tuple(e["sh"])
                    R = U.power_decay_tensor(sh, seed=e["seed"]) if e["p"] == 4 and idx % 2 else U.power_decay_tensor(sh, pow=e["p"] / 2, seed=e["seed"] if idx % 3 else None)
                    R = np.asarray(R); Rr = R.reshape(sh) if R.shape == sh else np.full(sh, np.nan)
                    e.update(rsh=il(R.shape), v=f9v(R), cert=[eig(np.moveaxis(Rr, m, 0).reshape(sh[m], -1)) for m in range(len(sh))])
                e["changed"] = any(not np.array_equal(a, b) for a, b in args)
                if op == "mul": cur = R
        except Exception as ex: e["exc"] = exc_name(ex)
        ev.append(e)
        if e["exc"]: break
    return dict(g=script["g"], ev=ev)
if __name__ == "__main__": main(run_one)
