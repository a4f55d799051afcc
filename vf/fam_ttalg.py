"""Lives of tensor trains: spec/TTAlg.tla, Sweep.tla, GenTTAlg.tla, TraceTTAlg.tla."""
from . import pools
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n" + CONSTS
SHAPES = [(2, 3), (4, 3), (1, 4), (3, 1), (2, 3, 2), (3, 2, 4), (2, 1, 3), (1, 3, 2), (4, 2, 3), (2, 2, 2, 2), (2, 3, 2, 2), (2, 1, 2, 3), (1, 2, 1, 2), (2, 2, 2, 2, 2), (2, 2, 1, 3, 2)]

def rank_of(t, d):
    return [len(c[0][0]) for c in t["cores"][:-1]] if t["k"] == "tt" else []

def tt_cases(rng, sh):
    d = len(sh)
    z = lambda r: [0] * r
    yield pools.tt(rng, sh, [rng.choice([1, 2, 3]) for _ in range(d - 1)])
    yield pools.tt(rng, sh, [rng.choice([1, 2]) for _ in range(d - 1)])
    yield pools.tt(rng, sh, [rng.choice([4, 5, 6, 7]) for _ in range(d - 1)], a=1)          # ranks beyond what the modes admit
    t = pools.tt(rng, sh, [1] * (d - 1)); yield dup(t, rng.choice([2, 3]))                    # rank-deficient: repeated columns
    t = pools.tt(rng, sh, [rng.choice([1, 2, 3]) for _ in range(d - 1)])
    t["cores"][rng.randrange(d)] = [[[0 for _ in r] for r in a] for a in t["cores"][0]] if False else t["cores"][0]
    yield zero(pools.tt(rng, sh, [rng.choice([1, 2, 3]) for _ in range(d - 1)]), rng.randrange(d))
    yield star(rng, sh)

def zero(t, m):
    t["cores"][m] = [[[0] * len(r) for r in a] for a in t["cores"][m]]
    return t
def dup(t, k):
    """the same array times k^(d-1), every bond k-fold"""
    cs = t["cores"]; d = len(cs); out = []
    for m, c in enumerate(cs):
        r1 = 1 if m == 0 else k; r2 = 1 if m == d - 1 else k
        out.append([[row * r2 for row in a] for _ in range(r1) for a in c])
    t["cores"] = out
    return t
def star(rng, sh):
    """a train with known, well separated singular values: superdiagonal"""
    d = len(sh); k = min(sh)
    vals = sorted(rng.sample([1, 2, 3, 5, 8, 12, 20], k), reverse=True)
    perms = [rng.sample(range(n), k) for n in sh]
    cores = []
    for m, n in enumerate(sh):
        r1 = 1 if m == 0 else k; r2 = 1 if m == d - 1 else k
        c = [[[0] * r2 for _ in range(n)] for _ in range(r1)]
        for j in range(k):
            c[0 if m == 0 else j][perms[m][j]][0 if m == d - 1 else j] = vals[j] * rng.choice([1, -1]) if m == 0 else 1
        cores.append(c)
    return dict(k="tt", sh=list(sh), cores=cores)
def star_sparse(rng, sh):
    """sparse, no two entries share an index in any mode: singular values known"""
    k = min(sh); vals = rng.sample([1, 2, 3, 4, 6, 9, 13, 20], k)
    perms = [rng.sample(range(n), k) for n in sh]
    return dict(k="sparse", sh=list(sh), ix=[[p[j] for p in perms] for j in range(k)], e=[v * rng.choice([1, -1]) for v in vals])

def groups(rng, shapes, n_tt=1, others=True, tts=True):
    out = []
    for sh in shapes:
        for _ in range(n_tt):
            tens, adds = [], []
            if tts: tens += list(tt_cases(rng, sh))
            if others:
                F = [pools.dense, pools.sparse, pools.cp, pools.tucker]
                tens += [f(rng, sh) for f in F] + [pools.cp(rng, sh, 1), pools.dense(rng, sh, 0), star_sparse(rng, sh), pools.sparse(rng, sh, 0)]
                # low-rank tensors in other formats
                tens.append(dict(k="sum", sh=list(sh), ts=[rng.choice(F[:2] + [pools.cp, pools.tt])(rng, sh) for _ in range(rng.choice([1, 2, 3]))]))
                tens.append(dict(k="sum", sh=list(sh), ts=[]))
                tens.append(dict(k="sum", sh=list(sh), ts=[pools.tt(rng, sh, [1] * (len(sh) - 1)), pools.cp(rng, sh, 1)]))
            for s in {tuple(sh), tuple(sh)[::-1]}:
                adds += [pools.tt(rng, s, [rng.choice([1, 1, 2, 3]) for _ in range(len(s) - 1)], a=2) for _ in range(4)]
                adds.append(zero(pools.tt(rng, s, [1] * (len(s) - 1)), 0))
            for t in tens + adds: t["rk"] = rank_of(t, len(sh))
            out.append(dict(tens=tens, adds=adds))
    return out

def lives(ctx, stage, ops, ttops, num, depth, shapes=SHAPES, maxrank=5, **kw):
    rng = ctx.rng(stage)
    gs = groups(rng, shapes, **kw)
    rep = lambda o: [x for k in o for x in [k] * o[k]] if isinstance(o, dict) else o
    data = dict(groups=gs, conf=dict(ops=rep(ops), ttops=rep(ttops), depth=depth, maxrank=maxrank))
    scripts = ctx.generate(stage, "GenTTAlg", data, GEN, num, depth + 3)
    ctx.conform(stage, "ttalg", "TraceTTAlg", scripts, job=dict(groups=gs), data=dict(groups=gs), consts=CONSTS)

def c12(ctx):
    lives(ctx, "trains", ["svd"], dict(orth=2, round=6, T=2, scale=1, add=2, svdvals=2, norm=1), ctx.n(800, 6000), 7, others=False)
def c14(ctx):
    lives(ctx, "ttsvd", dict(svd=5, T=1, scale=1), dict(svd=5, T=1, scale=1, add=1), ctx.n(800, 6000), 4)
def c15(ctx):
    lives(ctx, "sketches", dict(hmt=4, osk=4, T=1), dict(hmt=4, osk=4, T=1, scale=1, add=1, round=1), ctx.n(1000, 6000), 4)
def c18(ctx):
    lives(ctx, "sums", dict(svd=1, hmt=1), dict(rsum=8, T=1, round=1, add=1, orth=1), ctx.n(800, 6000), 5)
