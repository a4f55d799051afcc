"""Graded tensors: spec/Graded.tla, GenGraded.tla, TraceGraded.tla."""
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n"
SHAPES = [(4, 5), (6, 4), (3, 3), (3, 4, 5), (4, 4, 4), (5, 3, 4), (2, 3, 2), (8, 5, 6), (4, 3, 4, 3), (3, 3, 3, 3)]
H2 = [[1, 1], [1, -1]]
H4 = [[a * c for a in r for c in t] for r in H2 for t in H2]
H8 = [[a * c for a in r for c in t] for r in H4 for t in H2]
BLOCKS = [[[1]], H2, [[3, 4], [-4, 3]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]], H4, H8]
def frame(rng, N, n):
    """N by n, integer columns orthogonal and of equal length: the rows that are not zero"""
    fits = [B for B in BLOCKS[1:] if len(B) <= N and len(B) >= n]
    B = rng.choice(fits) if fits and rng.random() < .7 else [[int(i == j) for j in range(n)] for i in range(n)]
    cols = rng.sample(range(len(B)), n); signs = [rng.choice([1, -1]) for _ in cols]
    return dict(rows=[r + 1 for r in rng.sample(range(N), len(B))], B=[[s * row[c] for s, c in zip(signs, cols)] for row in B])
def grades(rng, n):
    while True:
        e = sorted([0] + rng.sample(range(4, 34), n - 1) if rng.random() < .5 else [0] + rng.sample([8, 15, 22, 26, 29, 30, 33], n - 1))
        if all(b - a >= 4 for a, b in zip(e, e[1:])): return e
LARGE = [(5000, 6), (4, 1300, 5), (25, 30, 40), (9, 8, 7, 8, 9), (3, 7000), (60, 70)]
def groups(rng, k):
    out = []
    for sh in SHAPES + LARGE:
        for _ in range(k):
            n = rng.randint(2, min(min(sh), 5))
            out.append(dict(sh=list(sh), n=n, c=[rng.choice([1, 2, 3, -1, -2, -3]) for _ in range(n)], e=grades(rng, n), U=[frame(rng, N, n) for N in sh]))
    return out
def graded(ctx, stage, hows, ops, num, depth=6):
    gs = groups(ctx.rng(stage), ctx.n(4, 10))
    rep = [o for o in ops for _ in range(ops[o])]
    scripts = ctx.generate(stage, "GenGraded", dict(groups=gs, ops=rep, hows=hows, depth=depth), GEN, num, depth + 3)
    ctx.conform(stage, "graded", "TraceGraded", scripts, job=dict(groups=gs), data=dict(groups=gs))
def c12(ctx): graded(ctx, "graded", ["tt"], dict(round=6, svdvals=3, T=2, add=3, orth=1), ctx.n(500, 5000), 7)
def c14(ctx): graded(ctx, "graded", ["tt", "cp", "tucker", "dense", "sparse", "sum"], dict(svd=5, T=2, add=2), ctx.n(400, 4000), 5)
def c15(ctx): graded(ctx, "graded", ["tt", "cp", "tucker", "dense", "sparse", "sum"], dict(hmt=5, T=2, add=2), ctx.n(400, 4000), 5)
def c18(ctx): graded(ctx, "graded", ["tt"], dict(rsum=7, svd=1, round=1, T=1), ctx.n(400, 4000), 6)
