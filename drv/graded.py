"""Executes truncations of graded tensors (spec/Graded.tla)."""
from common import *
from stream import f9v
from tt_sketch.sketch import hmt_sketch
from tt_sketch.tt_svd import tt_svd
from tt_sketch.tt_gmres import round_tt_sum

def rankarg(a): return None if a["k"] == "none" else a["r"][0] if a["k"] == "int" else list(a["r"]) if a["k"] == "list" else tuple(a["r"])
def thousandths(x):
    x = float(x) * 1000
    return BIG if not math.isfinite(x) or abs(x) > BIG else round(x)

class Case:
    def __init__(self, g):
        self.n, self.U = g["n"], [np.zeros((N, g["n"])) for N in g["sh"]]
        for A, u in zip(self.U, g["U"]): A[[r - 1 for r in u["rows"]]] = u["B"]
        self.s = np.array([c * 2.0 ** -e for c, e in zip(g["c"], g["e"])]); self.e, self.sh = g["e"], tuple(g["sh"])
    def factors(self, X, at, b):
        X = [i - 1 for i in X]; F = [u[:, X].copy() for u in self.U]
        F[at] = F[at] * (self.s[X] * 2.0 ** b); return F
    def train(self, X, at, b):
        F, d, n = self.factors(X, at, b), len(self.sh), len(X); cores = []
        for m, f in enumerate(F):
            c = np.zeros((1 if m == 0 else n, f.shape[0], 1 if m == d - 1 else n))
            for j in range(n): c[0 if m == 0 else j, :, 0 if m == d - 1 else j] += f[:, j]
            cores.append(c)
        return TensorTrain(cores)
    def make(self, how, X, at, b):
        F = self.factors(X, at, b)
        if how == "tt": return self.train(X, at, b)
        if how == "cp": return CPTensor(F)
        if how == "tucker":
            G = self.factors(X, at, 0); n, d = len(X), len(F)
            core = np.zeros((n,) * d); core[(np.arange(n),) * d] = self.s[[i - 1 for i in X]] * 2.0 ** b
            return TuckerTensor([u[:, [i - 1 for i in X]].copy().T for u in self.U], core)
        if how == "sum": return TensorSum([self.train([i], at, b) if i % 2 else CPTensor(self.factors([i], at, b)) for i in X])
        A = np.zeros(self.sh)
        for j in range(len(X)):
            t = np.array(F[0][:, j])
            for f in F[1:]: t = np.multiply.outer(t, f[:, j])
            A = A + t
        if how == "dense": return DenseTensor(A)
        ix = np.nonzero(A); return SparseTensor(self.sh, np.array(ix), A[ix])
    def obs(self, x, rev, b):
        o = dict(sh=il(x.shape), tt=isinstance(x, TensorTrain), rk=il(x.rank) if isinstance(x, TensorTrain) else [])
        A = np.asarray(x.to_numpy(), dtype=float) / 2.0 ** b
        if rev: A = A.transpose()
        if A.shape != self.sh: A = np.full(self.sh, np.nan)
        n, d = self.n, len(self.sh); C, L = A, 1.0
        for u in self.U:        # coefficients: contract the first mode, put the result last
            N = float(np.sum(u[:, 0] ** 2)); L *= N ** .5
            C = np.tensordot(C, u / N, axes=(0, 0))
        ind = (np.arange(n),) * d
        o["diag"] = [thousandths(C[(i,) * d] * 2.0 ** self.e[i]) for i in range(n)]
        O = C.copy(); O[ind] = 0
        o["off"] = thousandths(np.max(np.abs(O)) * 2.0 ** 33)
        R = C
        for u in self.U: R = np.tensordot(R, u, axes=(0, 1))
        o["out"] = thousandths(np.max(np.abs(A - R)) * 2.0 ** 33 / L)
        return o

def run_one(job, script, idx):
    g = Case(job["groups"][script["g"] - 1]); ev, cur, rev, b = [], None, False, 0
    back = lambda t: t.T if rev else t
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc=""); op = e["op"]; at = (idx + len(ev)) % len(g.sh)
        try:
            with limit(60):
                if op == "start": b = e["b"]; cur = g.make(e["how"], e["X"], e["at"] - 1, b)
                elif op == "T": cur, rev = cur.T, not rev
                elif op == "svd": cur = tt_svd(cur, rankarg(e["rank"]))
                elif op == "orth": cur = cur.orthogonalize()
                elif op == "hmt": cur = hmt_sketch(cur, rankarg(e["rank"]), seed=idx * 31 + len(ev) + 1)
                elif op == "add": cur = cur.add(back(g.train([e["i"]], at, b)))
                elif op == "round": cur = cur.round(max_rank=rankarg(e["rank"]), eps=2.0 ** -e["k"] if e["k"] else None)
                elif op == "rsum":
                    S = TensorSum([cur] + [back(g.train([i], at, b)) for i in e["is"]])
                    cur = round_tt_sum(S, max_rank=rankarg(e["rank"]), eps=2.0 ** -e["k"] if e["k"] else None, method=e["method"])
                if op == "svdvals": e["vals"] = [f9v(np.asarray(v) * 2.0 ** (33 - b)) for v in cur.svdvals()]
                else: e["obs"] = g.obs(cur, rev, b)
        except Exception as x:
            e["exc"] = exc_name(x); ev.append(e); break
        ev.append(e)
    return dict(g=script["g"], ev=ev)
if __name__ == "__main__": main(run_one)
