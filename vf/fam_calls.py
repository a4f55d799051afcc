"""Calls: spec/Ranks.tla, MCRanks.tla, GenRanks.tla, Calls.tla, TraceRanks.tla."""
from .ctx import parse_scripts
from .core import tlc, check_ok, stats
MC = "SPECIFICATION Spec\nCONSTANTS MaxD=%d\nMaxN=%d\nMaxR=%d\nINVARIANTS Bounds Final Fixpoint Stuck Greatest Monotone Symmetric\nPROPERTY Ends\n"

def arg(rng, vals, kinds=("int", "npint", "list", "tuple", "np", "nptuple")):
    k = rng.choice(kinds)
    return dict(k=k, r=[vals[0]] if k in ("int", "npint") else list(vals))
def trim_events(rng, sh, r):
    uni = len(set(r)) == 1
    kinds = ("list", "tuple", "np", "nptuple") + (("int", "npint") if uni else ())
    ev = [dict(op="trim", sh=sh, rank=arg(rng, r, kinds), trim=True, how="process")]
    ev.append(dict(op="trim", sh=sh, rank=arg(rng, r, kinds), trim=False, how="process"))
    ev.append(dict(op="trim", sh=sh, rank=arg(rng, r, ("list", "tuple", "nptuple")), trim=True, how="trim_ranks"))
    return ev
def bigger(rng, sh, a):
    d = len(sh) - 1
    v = a["r"] * d if a["k"] in ("int", "npint") else a["r"]
    inc = rng.choice([1, 1, 2, 4])
    if a["k"] in ("int", "npint") and rng.random() < .6: return dict(k="int", r=[v[0] + inc])
    return arg(rng, [x + rng.choice([1, inc]) for x in v], ("list", "tuple", "nptuple"))
SH = [(2, 3), (5, 2), (1, 4), (3, 1), (2, 3, 2), (4, 3, 2), (2, 1, 3), (1, 3, 1), (3, 5, 2), (2, 2, 2, 2), (2, 3, 1, 4), (5, 1, 1, 2), (2, 2, 2, 2, 2), (3, 2, 4, 2, 3)]

def rank_calls(rng, n):
    out = []
    F = dict(dense=["tt", "dg"], sparse=["tt", "dg", "sg", "ss"], tt=["tt", "dg"], cp=["tt"], tucker=["tt"])
    for _ in range(n):
        ev = []
        for _ in range(8):
            sh = list(rng.choice(SH)); d = len(sh)
            rk = arg(rng, [rng.choice([1, 2, 3, 4, 5, 7, 9]) for _ in range(d - 1)])
            op = rng.choice(["train", "train", "drm", "stream", "stream", "hmt", "osk", "svd", "round", "rsum", "rsumx", "mpo", "tucker"])
            e = dict(op=op, sh=sh, rank=rk)
            kind = rng.choice(list(F)); e["kind"] = kind
            e["t"], e["t2"] = rng.choice(F[kind]), rng.choice(F[kind])
            if op == "train":
                e["how"] = rng.choice(["zero", "default", "orthog", "orthog-trim", "trim", "notrim"]); e["trim"] = e["how"] in ("orthog", "orthog-trim", "trim")
            elif op == "drm": e["t"] = rng.choice(["tt", "dg", "sg", "ss"]); e["side"] = rng.choice("lr")
            elif op == "stream":
                b = bigger(rng, sh, rk)
                e["right"] = b
                if rng.random() < .5: e["rank"], e["right"] = b, rk
            elif op == "osk": e["right"] = bigger(rng, sh, rk)
            elif op == "rsum": e["how"] = rng.choice(["sketch", "orth_sketch"]); e["n"] = rng.choice([1, 2, 3]); e["of"] = rng.choice([1.1, 1.5, 2, 3])
            elif op == "rsumx": e["how"] = rng.choice(["exact", "pairwise"]); e["n"] = rng.choice([1, 2, 3])
            elif op == "mpo":
                e["osh"] = list(rng.choice([s for s in SH if len(s) == d]))
            elif op == "tucker": e["rank"] = arg(rng, [rng.choice([1, 2, 3, 6]) for _ in range(d)])
            ev.append(e)
        out.append(dict(ev=ev))
    return out

def c13(ctx):
    ctx.model("process", "MCRanks", MC % (ctx.n((3, 3, 5), (4, 3, 4))))
    # every small case, enumerated by TLC
    rc, out = tlc(ctx.work, "GenRanks", "SPECIFICATION Spec\nCONSTANTS MaxD=4\nMaxN=%d\nMaxR=%d\n" % ctx.n((3, 4), (4, 5)), workers=1)
    check_ok(rc, out, "GenRanks")
    cases = parse_scripts(out)
    rng = ctx.rng("trim")
    # and longer ones, in which changes have to travel far
    for _ in range(ctx.n(150, 1500)):
        d = rng.randint(5, 16); sh = [rng.choice([1, 1, 2, 3, 10, 1000]) for _ in range(d)]
        cases.append(dict(sh=sh, r=[rng.choice([1, 2, 5, 50, 1000, 10**6]) for _ in range(d - 1)]))
    for d, n, r0 in [(60, 1, 9), (130, 1, 7)]:
        for rev in (False, True):
            r = [r0 + i % 3 for i in range(d - 1)]
            cases.append(dict(sh=[n] * d, r=r)); cases.append(dict(sh=([2] + [1] * (d - 2) + [3])[::-1 if rev else 1], r=r))
    # products of dimensions beyond 2^64
    for _ in range(ctx.n(60, 400)):
        d = rng.choice([22, 34, 66, 100]); sh = [rng.choice([2, 4, 8, 2, 16] if rng.random() < .9 else [3, 1, 6]) for _ in range(d)]
        cases.append(dict(sh=sh, r=[rng.choice([1, 2, 5, 7, 50, 1000]) for _ in range(d - 1)]))
    ev = [e for c in cases for e in trim_events(rng, list(c["sh"]), list(c["r"]))]
    ctx.conform("trim", "ranks", "TraceRanks", [dict(ev=ev[i:i + 30]) for i in range(0, len(ev), 30)])
    ctx.conform("entry", "ranks", "TraceRanks", rank_calls(ctx.rng("entry"), ctx.n(300, 4000)))
