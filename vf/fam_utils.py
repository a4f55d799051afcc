"""Matricization, pseudo-inverses, projectors, model tensors: spec/Utils.tla, GenUtils.tla, TraceUtils.tla."""
import json, random, subprocess, sys
from .core import PY, VERIF
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n" + CONSTS
SHAPES = [[5], [1], [3, 4], [1, 6], [2, 3, 4], [3, 1, 2], [2, 2, 2, 2], [4, 3, 2, 2], [2, 1, 3, 1, 2], [3, 3, 3], [2, 0, 3], [6, 5, 4]]
def lowrank(np, rs, m, n, r, a=2): return rs.randint(-a, a + 1, (m, r)) @ rs.randint(-a, a + 1, (r, n))
def cond(np, B):
    s = np.linalg.svd(B.astype(float), compute_uv=False); s = s[s > 1e-9 * max(1.0, s[0])] if s.size else s
    return 1.0 if not s.size else s[0] / s[-1]
def pair(np, rs, top, lim):
    while True:
        m, n, k = (int(x) for x in rs.randint(max(1, top // 2), top + 1, 3)); r = int(rs.randint(0, min(m, n) + 1))
        if rs.rand() < .25: r = min(m, n)
        B = lowrank(np, rs, m, n, r); A = rs.randint(-3, 4, (min(k, 5), n))
        if cond(np, B) < lim: return dict(A=A.tolist(), B=B.tolist())
def proj(np, rs):
    while True:
        n, k = (int(x) for x in rs.randint(1, 8, 2)); l = k if rs.rand() < .5 else int(rs.randint(1, 8)); r = min(n, k) if rs.rand() < .6 else int(rs.randint(0, min(n, k) + 1))
        X = lowrank(np, rs, n, k, r) if rs.rand() < .4 else rs.randint(-2, 3, (n, k))
        Y = X if rs.rand() < .3 else rs.randint(-2, 3, (n, l))
        if cond(np, Y.T @ X) < 1e3 and cond(np, X) < 1e3: return dict(X=X.tolist(), Y=Y.tolist())
def groups(seed, n):
    import numpy as np
    rs = np.random.RandomState(seed); out = []
    for i in range(n):
        arrs = [dict(sh=sh, v=rs.randint(-9, 10, int(np.prod(sh))).tolist()) for sh in SHAPES]
        pairs = [pair(np, rs, t, 1e3) for t in (1, 3, 3, 5, 5, 7, 7, 9)] + [pair(np, rs, t, 1e4) for t in (30, 70)]
        out.append(dict(arrs=arrs, pairs=pairs, projs=[proj(np, rs) for _ in range(8)]))
    return out
def c21(ctx):
    r = subprocess.run([PY, "-m", "vf.fam_utils", str(ctx.subseed("pool")), str(ctx.n(10, 60))], cwd=VERIF, capture_output=True, text=True, timeout=300)
    gs = json.loads(r.stdout)
    scripts = ctx.generate("utils", "GenUtils", dict(groups=gs, conf=dict(depth=12)), GEN, ctx.n(800, 8000), 16)
    ctx.conform("utils", "utilities", "TraceUtils", scripts, job=dict(groups=gs), data=dict(groups=gs), consts=CONSTS)
if __name__ == "__main__": print(json.dumps(groups(int(sys.argv[1]), int(sys.argv[2]))))
