"""The solver: spec/Gmres.tla, GenGmres.tla, TraceGmres.tla."""
import json, random, sys
from . import pools
from .fam_lin import mpo, det_adj
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n" + CONSTS
SHAPES = [(2, 2), (2, 3), (3, 2), (2, 3, 2), (3, 2, 2), (2, 1, 3), (2, 2, 2), (1, 2, 3), (2, 2, 2, 2), (4, 3), (2, 1, 2, 2)]

def eye(sh, c):
    cores = [[[[[int(i == j)] for j in range(n)] for i in range(n)]] for n in sh]
    cores[0] = [[[[x * c for x in e] for e in r] for r in a] for a in cores[0]]
    return cores
def perm(rng, sh):
    out = []
    for n in sh:
        p = list(range(n)); rng.shuffle(p)
        if rng.random() < .6: p = p[1:] + p[:1] if p != sorted(p) else [(i + 1) % n for i in range(n)]
        out.append([[[[int(p[i] == j)] for j in range(n)] for i in range(n)]])
    return out
def clip(m): return [[[[[max(-1, min(1, x)) for x in e] for e in r] for r in a] for a in c] for c in m]
def mt(m): return [[[[a[i][j] for i in range(len(a))] for j in range(len(a[0]))] for a in c] for c in m]
def apply(m, t):
    """cores of the MPO m applied to the train t"""
    out = []
    for M, C in zip(m, t):
        out.append([[[sum(M[a][i][j][b] * C[p][i][q] for i in range(len(M[a]))) for b in range(len(M[0][0][0])) for q in range(len(C[0][0]))]
                     for j in range(len(M[0][0]))] for a in range(len(M)) for p in range(len(C))])
    return out
def add(s, t):
    d = len(s); out = []
    for m, (X, Y) in enumerate(zip(s, t)):
        rx, ry = len(X[0][0]), len(Y[0][0]); n = len(X[0])
        if m == 0 and d > 1: out.append([[X[0][i] + Y[0][i] for i in range(n)]])
        elif m == d - 1: out.append([X[a] for a in range(len(X))] + [Y[a] for a in range(len(Y))])
        else: out.append([[X[a][i] + [0] * ry for i in range(n)] for a in range(len(X))] + [[[0] * rx + Y[a][i] for i in range(n)] for a in range(len(Y))])
    return out
def dense(maps, sh):
    import numpy as np
    tot = 0
    for j in maps:
        a = np.ones((1, 1, 1))
        for c in j["cores"]:
            a = np.einsum("pqa,aijb->piqjb", a, np.array(c, float)); a = a.reshape(a.shape[0] * a.shape[1], a.shape[2] * a.shape[3], -1)
        tot = tot + a[:, :, 0].T
    return tot
def full_pc(p, sh):
    import numpy as np
    n = int(np.prod(sh)); M = np.eye(n).reshape(tuple(sh) + (n,))
    return np.moveaxis(np.tensordot(np.linalg.inv(np.array(p["A"], float)), M, (1, p["mode"] - 1)), 0, p["mode"] - 1).reshape(n, n)
def precond(rng, sh):
    import numpy as np
    m = rng.randrange(len(sh)); n = sh[m]
    while True:
        A = [[rng.randint(-1, 1) + (rng.choice([1, 2]) if i == j else 0) for j in range(n)] for i in range(n)]
        c, B = det_adj(A)
        if abs(c) in (1, 2, 4, 5, 8, 10) and np.linalg.cond(np.array(A, float)) < 6: return dict(sh=list(sh), mode=m + 1, A=A, B=B, c=c)
def system(rng, sh):
    import numpy as np
    d = len(sh)
    while True:
        kind = rng.choice(["general"] * 4 + ["sym"] * 2 + ["perm", "eye", "two", "many"])
        small = lambda: clip(mpo(rng, sh, sh, [rng.choice([1, 2]) for _ in range(d - 1)]))
        c = rng.choice([2, 3, 4, 6, -4])
        if kind == "general": maps = [small(), eye(sh, c)]
        elif kind == "two": maps = [small(), eye(sh, c), small()]
        elif kind == "many": maps = [clip(mpo(rng, sh, sh, [1] * (d - 1))) for _ in range(rng.choice([3, 4]))] + [eye(sh, rng.choice([4, 5, 6, -6]))]
        elif kind == "sym": m = clip(mpo(rng, sh, sh, [1] * (d - 1))); maps = [m, mt(m), eye(sh, c)]
        elif kind == "perm": maps = [perm(rng, sh)] + ([eye(sh, rng.choice([2, -2]))] if rng.random() < .5 else [])
        else: maps = [eye(sh, rng.choice([1, 2, -3]))]
        rng.shuffle(maps)
        maps = [dict(k="mpo", cores=m) for m in maps]
        pc = [precond(rng, sh)] if kind != "sym" and rng.random() < .45 else []
        B = dense(maps, sh)
        if pc: B = full_pc(pc[0], sh) @ B
        s = np.linalg.svd(B, compute_uv=False)
        if s[-1] > .3 and s[0] / s[-1] < 15 and s[0] < 60: return dict(maps=maps, pc=pc, sym=kind in ("sym", "eye") and not pc)
def groups(rng, n):
    out = []
    for sh in SHAPES:
        for _ in range(n):
            d = len(sh); systems = [system(rng, sh) for _ in range(4)]
            bs = [dict(tt=pools.tt(rng, sh), sys=0, exact=0) for _ in range(3)]
            u = pools.tt(rng, sh, [1] * (d - 1)); u["cores"] = [[[[int(i == 0)] for i in range(n)]] for n in sh]      # exhausts some Krylov spaces exactly
            bs.append(dict(tt=u, sys=0, exact=0))
            z = pools.tt(rng, sh, [1] * (d - 1)); m = rng.randrange(d); z["cores"][m] = [[[0 for _ in r] for r in a] for a in z["cores"][m]]
            bs.append(dict(tt=z, sys=0, exact=0))
            for s in (0, 1):          # right-hand sides whose solution is a known train
                x = pools.tt(rng, sh, [1] * (d - 1)); t = None
                for mp in systems[s]["maps"]:
                    y = apply(mp["cores"], x["cores"]); t = y if t is None else add(t, y)
                bs.append(dict(tt=x, sys=0, exact=0)); bs.append(dict(tt=dict(k="tt", sh=list(sh), cores=t), sys=s + 1, exact=len(bs)))
            out.append(dict(sh=list(sh), systems=systems, bs=bs))
    return out
def c17(ctx):
    from .core import sh, PY, VERIF, MachineryError          # numpy is there only for the code's own interpreter
    r = sh([PY, "-m", "vf.fam_gmres", str(ctx.subseed("solve")), str(ctx.n(3, 12))], cwd=VERIF, env=dict(PYTHONDONTWRITEBYTECODE="1"))
    if r.returncode: raise MachineryError("pool: " + r.stderr)
    gs = json.loads(r.stdout)
    scripts = ctx.generate("solve", "GenGmres", dict(groups=gs, conf=dict(depth=2)), GEN, ctx.n(700, 6000), 6)
    ctx.conform("solve", "gmres", "TraceGmres", scripts, job=dict(groups=gs), data=dict(groups=gs), consts=CONSTS)
if __name__ == "__main__": print(json.dumps(groups(random.Random(int(sys.argv[1])), int(sys.argv[2]))))
