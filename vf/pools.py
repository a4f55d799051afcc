"""Random pools of small-integer tensors and TT random matrices (as JSON)."""
import random
from functools import reduce
from operator import mul

def prod(x): return reduce(mul, x, 1)

def rint(rng, lo, hi): return rng.randint(lo, hi)

def dense(rng, sh, a=4):
    return dict(k="dense", sh=list(sh), v=[rint(rng, -a, a) for _ in range(prod(sh))])

def unflat(sh, q):
    out = []
    for n in reversed(sh):
        out.append(q % n); q //= n
    return out[::-1]

def sparse(rng, sh, nnz=None, a=5):
    N = prod(sh)
    if nnz is None: nnz = rng.choice([0, 1, max(1, N // 4), max(1, N // 3), N])
    nnz = min(nnz, N)
    pos = rng.sample(range(N), nnz)
    return dict(k="sparse", sh=list(sh), ix=[unflat(sh, q) for q in pos],
                e=[rng.choice([x for x in range(-a, a + 1) if x or rng.random() < .1]) for _ in pos])

def mat(rng, r, c, a=2): return [[rint(rng, -a, a) for _ in range(c)] for _ in range(r)]

def core(rng, r1, n, r2, a=2): return [mat(rng, n, r2, a) for _ in range(r1)]

def tt(rng, sh, rank=None, a=2):
    d = len(sh)
    if rank is None: rank = [rng.choice([1, 2, 2, 3]) for _ in range(d - 1)]
    r = [1] + list(rank) + [1]
    return dict(k="tt", sh=list(sh), cores=[core(rng, r[m], sh[m], r[m + 1], a) for m in range(d)])

def cp(rng, sh, rank=None, a=2):
    if rank is None: rank = rng.choice([1, 2, 3])
    return dict(k="cp", sh=list(sh), fac=[mat(rng, n, rank, a) for n in sh])

def tucker(rng, sh, rank=None, a=2):
    if rank is None: rank = [rng.choice([1, 2, n, n + 1]) for n in sh]
    return dict(k="tucker", sh=list(sh), core=dense(rng, rank, a), fac=[mat(rng, s, n, a) for s, n in zip(rank, sh)])

def tsum(rng, sh, n=None, depth=1):
    if n is None: n = rng.choice([0, 1, 2, 3])
    ts = []
    for _ in range(n):
        if depth > 0 and rng.random() < .3: ts.append(tsum(rng, sh, depth=depth - 1))
        else: ts.append(any_tensor(rng, sh, sums=False))
    if ts and rng.random() < .4: ts.insert(rng.randrange(len(ts) + 1), rng.choice(ts))    # one object, twice
    return dict(k="sum", sh=list(sh), ts=ts)

KINDS = [dense, sparse, tt, cp, tucker]
def any_tensor(rng, sh, sums=True):
    return rng.choice(KINDS + ([tsum] if sums else []))(rng, sh)

def drm(rng, side, sh, rank, a=2):
    """cores in contraction order; rank in mode order"""
    d = len(sh)
    modes = list(sh)[::-1] if side == "r" else list(sh)
    rk = list(rank)[::-1] if side == "r" else list(rank)
    r = [1] + rk
    return dict(side=side, sh=list(sh), rank=list(rank),
                cores=[core(rng, r[m], modes[m], r[m + 1], a) for m in range(d - 1)])

SHAPES = [(2, 3), (3, 2), (1, 4), (2, 2), (2, 3, 2), (3, 2, 4), (2, 1, 3), (1, 2, 3), (3, 2, 1), (4, 2, 2), (2, 3, 3),
          (2, 2, 2, 2), (2, 3, 1, 2), (2, 2, 3, 2), (1, 2, 2, 3), (2, 1, 2, 2, 2), (2, 2, 2, 1, 3), (5, 3), (1, 1, 2)]

def session_pool(rng, sh, per_kind=2, ndrm=2):
    pool, drms = [], []
    for s in {tuple(sh), tuple(sh)[::-1]}:
        for f in KINDS:
            for _ in range(per_kind): pool.append(f(rng, s))
        pool.append(sparse(rng, s, nnz=1 if prod(s) > 1 else 0))
        pool.append(tsum(rng, s)); pool.append(tsum(rng, s, n=2))
        d = len(s)
        for _ in range(ndrm):
            small = [rng.choice([1, 1, 2]) for _ in range(d - 1)]
            big = [x + rng.choice([1, 2]) for x in small]
            a, b = (small, big) if rng.random() < .5 else (big, small)
            drms.append(drm(rng, "l", s, a)); drms.append(drm(rng, "r", s, b))
    rng.shuffle(pool)
    return pool, drms

def session_file(seed, shapes, conf, per_kind=2):
    rng = random.Random(seed)
    pools, p0, d0 = [], 0, 0
    for sh in shapes:
        pool, drms = session_pool(rng, sh, per_kind)
        pools.append(dict(pool0=p0, drm0=d0, pool=pool, drms=drms))
        p0 += len(pool); d0 += len(drms)
    return dict(pools=pools, conf=conf)

def small_session_file(seed, conf, sh=(2, 3), kinds=None):
    """a few tensors of one shape for exhaustive exploration"""
    rng = random.Random(seed)
    pool = [f(rng, sh) for f in (kinds or [dense, sparse, tt])]
    d = len(sh)
    drms = [drm(rng, "l", sh, [1] * (d - 1)), drm(rng, "r", sh, [2] * (d - 1))]
    return dict(pools=[dict(pool0=0, drm0=0, pool=pool, drms=drms)], conf=conf)
