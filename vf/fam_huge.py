"""Arrays over huge index spaces: spec/Huge.tla, GenHuge.tla, TraceHuge.tla."""
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Frame\n" + CONSTS
# shapes; the last ones only for sparse tensors
SHAPES = [[2] * 66, [8] * 22, [3] * 45, [2] * 110, [4, 2, 5] * 11, [1, 2, 7, 3] * 14, [16] * 16, [2] * 40]
WIDE = [[10**6] * 5, [2**31 - 1, 3, 2**31 - 1, 5, 2**31 - 2], [65536] * 4, [20000] * 6]
MANY = [[40, 50, 60], [600, 7, 300]]                              # tensors of many entries and of high rank
LONG = [[70000, 3, 40000, 2], [2, 33000, 33000, 2, 5]]           # trains with long modes

def index(rng, sh): return [rng.randrange(n) for n in sh]
def near(rng, sh, base):
    """an index of the list, or one that differs from it in one or two modes"""
    x = list(rng.choice(base))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        m = rng.randrange(len(sh)); x[m] = rng.randrange(sh[m])
    return x
def sparse(rng, sh, base, n):
    ix = []
    for _ in range(4 * n):
        x = near(rng, sh, base)
        if x not in ix and len(ix) < n: ix.append(x)
    return dict(k="sparse", sh=sh, ix=ix, e=[rng.choice([-5, -3, -2, -1, 1, 2, 3, 4]) for _ in ix])
def terms(rng, sh, base, r):
    """r products of vectors; at two modes at most a vector has two non-zeros"""
    out = []
    for _ in range(r):
        x = near(rng, sh, base); f = []
        fat = rng.sample(range(len(sh)), rng.choice([0, 1, 2]))
        for m, n in enumerate(sh):
            v = [0] * n; v[x[m]] = rng.choice([1, 1, 1, 1, -1])
            if m in fat: v[rng.randrange(n)] = rng.choice([1, 2, -1, -2])
            f.append(v)
        out.append(f)
    return out
def cp(rng, sh, base, r):
    ts = terms(rng, sh, base, r)
    return dict(k="cp", sh=sh, fac=[[[ts[t][m][i] for t in range(r)] for i in range(n)] for m, n in enumerate(sh)])
def tt(rng, sh, base, r):
    ts = terms(rng, sh, base, r); d = len(sh); cores = []
    for m, n in enumerate(sh):
        a, b = (1 if m == 0 else r), (1 if m == d - 1 else r)
        C = [[[0] * b for _ in range(n)] for _ in range(a)]
        for t in range(r):
            for i in range(n): C[0 if m == 0 else t][i][0 if m == d - 1 else t] = ts[t][m][i]
        cores.append(C)
    for m in range(d - 1):                     # a change of basis in some bonds
        if r < 2 or rng.random() < .6: continue
        a, b = rng.sample(range(r), 2); c = rng.choice([1, -1, 2])
        for row in cores[m]:
            for v in row: v[b] += c * v[a]                     # times I + c E_ab
        for i in range(sh[m + 1]):
            for k in range(len(cores[m + 1][a][i])): cores[m + 1][a][i][k] -= c * cores[m + 1][b][i][k]
    return dict(k="tt", sh=sh, cores=cores)
def long_terms(rng, k, sh, base, r):
    out = []
    for _ in range(r):
        x = near(rng, sh, base); fat = rng.choice([None] + list(range(len(sh)))); f = []
        for m, n in enumerate(sh):
            v = {x[m]: rng.choice([1, 1, 1, -1])}
            if m == fat: v[rng.randrange(n)] = rng.choice([1, 2, -2])
            f.append([dict(i=i, v=c) for i, c in v.items()])
        out.append(f)
    return dict(k=k, sh=sh, terms=out)
def mpo(rng, sh, r):
    """one or two products of small matrices, most of them permutations"""
    d = len(sh); M = []
    for _ in range(r):
        fat = rng.sample(range(d), rng.choice([0, 1, 2])); f = []
        for m, n in enumerate(sh):
            p = list(range(n))
            if rng.random() < .3: rng.shuffle(p)
            A = [[1 if p[i] == j else 0 for j in range(n)] for i in range(n)]
            if m in fat: A[rng.randrange(n)][rng.randrange(n)] += rng.choice([1, -1, 2])
            f.append(A)
        M.append(f)
    cores = []
    for m, n in enumerate(sh):
        a, b = (1 if m == 0 else r), (1 if m == d - 1 else r)
        C = [[[[0] * b for _ in range(n)] for _ in range(n)] for _ in range(a)]
        for t in range(r):
            for i in range(n):
                for j in range(n): C[0 if m == 0 else t][i][j][0 if m == d - 1 else t] = M[t][m][i][j]
        cores.append(C)
    return cores
def drm(rng, side, sh, rank):
    """slices are signed partial permutations, in a few modes sums of two"""
    d = len(sh); modes = list(sh)[::-1] if side == "r" else list(sh)
    rk = [1] + (list(rank)[::-1] if side == "r" else list(rank)); cores = []
    def sl(a, b):
        S = [[0] * b for _ in range(a)]
        for i, j in zip(rng.sample(range(a), min(a, b)), rng.sample(range(b), min(a, b))): S[i][j] = rng.choice([1, -1])
        return S
    fat = rng.sample(range(d - 1), min(3, d - 1))
    for m in range(d - 1):
        C = [[[0] * rk[m + 1] for _ in range(modes[m])] for _ in range(rk[m])]
        for i in range(modes[m]):
            for _ in range(2 if m in fat else 1):
                S = sl(rk[m], rk[m + 1])
                for a in range(rk[m]):
                    for b in range(rk[m + 1]): C[a][i][b] += S[a][b]
        cores.append(C)
    return dict(rank=list(rank), cores=cores)
def groups(rng):
    out = []
    for wide, sh in [(False, s) for s in SHAPES] + [(True, s) for s in WIDE + LONG + MANY]:
        d = len(sh); base = [index(rng, sh) for _ in range(3)]
        b = base[0]
        base += [b[:m] + [(b[m] + s) % sh[m]] + b[m + 1:] for m in (0, d - 1, rng.randrange(d)) for s in (1, 2**32 % sh[m] or 1)]
        tens = [sparse(rng, sh, base, n) for n in (1, 4, 9, 7)] + [sparse(rng, sh, base, 0)]
        if not wide: tens += [tt(rng, sh, base, r) for r in (1, 2, 3, 3)] + [cp(rng, sh, base, r) for r in (1, 2, 3)]
        if sh in LONG: tens += [long_terms(rng, k, sh, base, r) for r in (1, 2, 3) for k in ("tt", "tt", "cp")]
        if sh in MANY:
            tens = tens[1:3] + [dict(k="sparse", sh=sh, ix=[list(t) for t in ix], e=[rng.choice([-2, -1, 1, 2, 3]) for _ in ix])
                    for n in (1500, 1100) for ix in [{tuple(near(rng, sh, base) if rng.random() < .1 else index(rng, sh)) for _ in range(n)}]]
            tens += [long_terms(rng, k, sh, base, r) for r, k in ((2, "tt"), (40, "tt"), (25, "cp"), (70, "tt"))]
        if sh != sh[::-1]: tens += [sparse(rng, sh[::-1], [x[::-1] for x in base], n) for n in (3, 6)]
        drms = []
        if not wide or sh in MANY:
            for _ in range(2):
                small = [rng.choice([1, 2, 2]) for _ in range(d - 1)]; big = [x + rng.choice([1, 2]) for x in small]
                l, r = (small, big) if rng.random() < .5 else (big, small)
                drms.append(dict(l=drm(rng, "l", sh, l), r=drm(rng, "r", sh, r)))
        out.append(dict(sh=sh, wide=wide, cap=4000 if sh in MANY else 80, rec=not wide and max(sh) <= 16 and (d <= 50), tens=tens, base=base, drms=drms, mpos=[] if wide else [mpo(rng, sh, r) for r in (1, 2)]))
    return out
def huge(ctx, stage, num, depth=12, **weights):
    gs = groups(ctx.rng(stage))
    ops = [o for o in ["make", "mul", "div", "neg", "T", "add", "sub", "msum", "ttplus", "ttadd", "split", "orth", "round", "rsum", "mpo", "rec", "dot", "norm", "error", "gather", "sketch"] for _ in range(weights.get(o, 1))]
    scripts = ctx.generate(stage, "GenHuge", dict(groups=gs, conf=dict(depth=depth, ops=ops)), GEN, num, depth + 3)
    ctx.conform(stage, "huge", "TraceHuge", scripts, job=dict(groups=gs), data=dict(groups=gs), consts=CONSTS)
