"""Lazily evaluated random matrices: spec/Hashed.tla, GenHashed.tla, TraceHashed.tla."""
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n" + CONSTS
SHAPES = [[3, 4, 5], [7, 9], [2, 2, 2, 2, 2], [1, 6, 1, 5], [300, 400, 500], [2**16, 2**16, 2**16], [2**31, 2**31], [2**20, 3, 2**20, 2**20], [10**6, 10**6, 10**6],
          [2**22, 2**21, 2**20], [16] * 20, [1000] * 9, [2**40, 2**40], [2**62, 5, 7], [2**33, 2**33, 2**33], [5000, 4]]
M = 2**64
def unshift(y, s):
    x = y
    for _ in range(64 // s + 1): x = y ^ (x >> s)
    return x
def unhash(h):
    """an argument for which the mixing function of the code gives h; for another function
    the number is as good as any other"""
    x = unshift(h, 31); x = x * pow(0x94D049BB133111EB, -1, M) % M
    x = unshift(x, 27); x = x * pow(0xBF58476D1CE4E5B9, -1, M) % M
    return (unshift(x, 30) - 0x4BE98134A5976FD3) % M
def hash64(r):
    r = (r + 0x4BE98134A5976FD3) % M; r ^= r >> 30; r = r * 0xBF58476D1CE4E5B9 % M; r ^= r >> 27; r = r * 0x94D049BB133111EB % M
    return r ^ (r >> 31)
def rows(rng, sh, seed, r):
    """indices that tell apart what truncation, overflow or a bad flattening would mix up"""
    out = {tuple(0 for _ in sh), tuple(n - 1 for n in sh)}
    base = [tuple(rng.randrange(n) for n in sh) for _ in range(3)] + [tuple(rng.randrange(min(n, 3)) for n in sh)]
    for b in base:
        out.add(b)
        for m, n in enumerate(sh):
            for s in {1, 2, 2**8, 2**16, 2**31, 2**32, 2**33, 2**53, n // 2, n - 1}:
                if 0 < s < n: out.add(b[:m] + ((b[m] + s) % n,) + b[m + 1:])
            for k in range(m): out.add(b[:k] + (b[m] % sh[k],) + b[k + 1:m] + (b[k] % n,) + b[m + 1:])
        # the same distance in flat order
        for s in (1, 2**32, 2**63, 2**64):
            f, p = s, []
            for n, i in zip(sh, b): f += i; p.append(f % n); f //= n
            out.add(tuple(p))
    special, done = [], set()       # one row for each extreme mantissa (all such rows have the same number)
    for mant in (0, 2**52 - 1):
        for top in range(6):
            h = (top << 52) | mant
            for col in range(min(min(r), 8)):
                f = (unhash(h) - hash64(col) - seed) % M; p = []
                for n in sh: p.append(f % n); f //= n
                if f == 0 and mant not in done: special.append(tuple(p)); done.add(mant)
    out = sorted(out); rng.shuffle(out)
    return [[str(i) for i in x] for x in special[:30] + out[:60]]
def patterns(rng, sh):
    out = [dict(how="random", x=rng.randrange(10**6), n=3000, base=[0], mode=0, step=0)] if max(sh) > 100 else []
    for m, n in enumerate(sh):
        for step in (1, 2, 2**16, 2**32):
            if n // step >= 3000: out.append(dict(how="line", mode=m, step=step, n=3000, base=[rng.randrange(k) for k in sh], x=0))
    rng.shuffle(out); out = out[:4]
    for m, n in enumerate(sh):
        if n >= 2**19: out.append(dict(how="line", mode=m, step=rng.choice([1, 1, 1, 2]), n=2**18, base=[rng.randrange(k) for k in sh], x=0)); break
    return out
def groups(rng, n):
    out = []
    for sh in SHAPES:
        for cls in ["sg", "sg", "ss", "fn-normal", "fn-sign"]:
            for _ in range(n):
                k = 1 if cls.startswith("fn") else len(sh) - 1
                r = [rng.choice([1, 2, 3, 5, 6]) for _ in range(k)]
                if cls in ("ss", "fn-sign"): r = [rng.choice([2, 3, 5, 8]) for _ in range(k)]
                if rng.random() < .2: r[rng.randrange(k)] = rng.choice([33, 65, 70, 130, 257])     # many columns
                nnz = [rng.randint(1, x) for x in r] if cls in ("ss", "fn-sign") else []
                seed = rng.choice([0, 1, 5, 2**31, 2**32 - 2, rng.randrange(2**32 - 1)])
                if cls.startswith("fn"): seed = rng.choice([0, 7, rng.randrange(2**32), 2**62 + 12345])
                out.append(dict(cls=cls, sh=sh, side=rng.choice("lr") if k > 1 or not cls.startswith("fn") else "l", seed=seed, r=r, nnz=nnz, rows=rows(rng, sh, seed, r), pats=patterns(rng, sh)))
    return out
def c11(ctx):
    gs = groups(ctx.rng("hashed"), ctx.n(2, 6))
    scripts = ctx.generate("hashed", "GenHashed", dict(groups=gs, conf=dict(depth=7)), GEN, ctx.n(900, 8000), 9)
    ctx.conform("hashed", "hashed", "TraceHashed", scripts, job=dict(groups=gs), data=dict(groups=gs), consts=CONSTS)
