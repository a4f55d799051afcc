"""Linear maps: spec/LinMaps.tla, GenLin.tla, TraceLin.tla."""
from . import pools
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n" + CONSTS
SHAPES = [(2, 3), (3, 2), (1, 4), (2, 3, 2), (3, 2, 2), (2, 1, 3), (2, 2, 2), (1, 3, 1), (2, 2, 2, 2), (2, 1, 2, 2), (4, 2)]
def mpo(rng, ins, outs, rank=None):
    d = len(ins); rank = rank or [rng.choice([1, 2, 2, 3]) for _ in range(d - 1)]; r = [1] + rank + [1]
    return [[[[[rng.randint(-2, 2) for _ in range(r[m + 1])] for _ in range(outs[m])] for _ in range(ins[m])] for _ in range(r[m])] for m in range(d)]
def det_adj(A):
    n = len(A)
    minor = lambda i, j: [[A[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
    def det(M):
        return 1 if not M else sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))
    return det(A), [[(-1) ** (i + j) * det(minor(j, i)) for j in range(n)] for i in range(n)]
def precond(rng, sh):
    m = rng.randrange(len(sh)); n = sh[m]
    while True:
        if rng.random() < .6:          # unimodular
            A = [[int(i == j) for j in range(n)] for i in range(n)]
            for _ in range(4):
                i, j = rng.randrange(n), rng.randrange(n)
                if i != j:
                    c = rng.choice([1, -1, 2]); A[i] = [x + c * y for x, y in zip(A[i], A[j])]
                elif rng.random() < .5: A[i] = [-x for x in A[i]]
            rng.shuffle(A)
        else: A = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
        c, B = det_adj(A)
        if c and abs(c) <= 12: return dict(sh=list(sh), mode=m + 1, A=A, B=B, c=c)
def groups(rng, n=2):
    out = []
    for sh in SHAPES:
        for _ in range(n):
            d = len(sh); other = tuple(rng.choice([1, 2, 3]) for _ in sh)
            tts = [pools.tt(rng, s) for s in (sh, sh, other)] + [pools.tt(rng, sh, [4] * (d - 1), a=1)]
            mpos = [mpo(rng, a, b) for a, b in ((sh, sh), (sh, sh), (sh, other), (other, sh), (sh, sh), (sh, other))]
            out.append(dict(tts=tts, mpos=mpos, pcs=[precond(rng, s) for s in (sh, sh, sh, other)]))
    return out
def c16(ctx, own=False, num=(700, 8000)):
    rng = ctx.rng("maps"); gs = groups(rng, ctx.n(2, 6))
    ops = dict(tt=1, mpo=1, pc=1, eye=1, T=2, scale=2, msum=2, tsum=2, app=7, fwd=2, bwd=3, add=1)
    conf = dict(first=["tt", "mpo", "pc", "tt", "mpo"], ops=[o for o in ops for _ in range(ops[o])], depth=18)
    scripts = ctx.generate("maps", "GenLin", dict(groups=gs, conf=conf), GEN, ctx.n(*num), 22)
    ctx.conform("maps", "lin", "TraceLin", scripts, job=dict(groups=gs), data=dict(groups=gs, own=own), consts=CONSTS)
def c03(ctx): c16(ctx, True, (250, 3000))
