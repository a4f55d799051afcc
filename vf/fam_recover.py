"""Recovery: spec/Recover.tla, GenRecover.tla, TraceRecover.tla."""
from . import pools
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n" + CONSTS
SHAPES = [(2, 3), (4, 5), (6, 3), (1, 4), (3, 4, 2), (4, 3, 4), (2, 1, 3), (1, 3, 2), (4, 2, 3), (3, 3, 3), (2, 2, 2, 2), (3, 2, 3, 2), (2, 4, 3, 2), (2, 1, 2, 3), (2, 2, 2, 2, 2), (2, 3, 1, 2, 2)]
def outer(rng, sh, r):
    """dense tensor of rank at most r"""
    v = [0] * pools.prod(sh)
    for _ in range(r):
        f = [[rng.randint(-2, 2) for _ in range(n)] for n in sh]
        for q in range(len(v)): v[q] += pools.prod([f[m][i] for m, i in enumerate(pools.unflat(sh, q))])
    return dict(k="dense", sh=list(sh), v=v)
def groups(rng, n):
    out = []
    for sh in SHAPES:
        for _ in range(n):
            r1 = lambda: [rng.choice([1, 1, 2]) for _ in range(len(sh) - 1)]
            tens = [pools.tt(rng, sh, r1()), pools.tt(rng, sh, r1()), pools.tt(rng, sh), pools.cp(rng, sh, 1), pools.cp(rng, sh, 2), pools.tucker(rng, sh, [1] * len(sh)),
                    pools.tucker(rng, sh), pools.tucker(rng, sh, [rng.choice([1, 2]) for _ in sh]), outer(rng, sh, 1), outer(rng, sh, 2), pools.dense(rng, sh), pools.sparse(rng, sh, 1), pools.sparse(rng, sh, 2), pools.sparse(rng, sh),
                    pools.sparse(rng, sh, 3), dict(k="sum", sh=list(sh), ts=[pools.tt(rng, sh, [1] * (len(sh) - 1)), pools.cp(rng, sh, 1)]),
                    dict(k="sum", sh=list(sh), ts=[pools.sparse(rng, sh, 1), pools.sparse(rng, sh, 1)])]
            out.append(dict(tens=tens))
    return out
def c07(ctx):
    gs = groups(ctx.rng("recover"), ctx.n(2, 6))
    scripts = ctx.generate("recover", "GenRecover", dict(groups=gs, conf=dict(depth=4)), GEN, ctx.n(1200, 9000), 7)
    ctx.conform("recover", "recover", "TraceRecover", scripts, job=dict(groups=gs), data=dict(groups=gs), consts=CONSTS)
