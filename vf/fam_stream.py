"""Streams: spec/Stream.tla, GenStream.tla, TraceStream.tla."""
from . import pools, fam_session
CONSTS = "CONSTANT GroupsIn <- MCGroups\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Immutable\n" + CONSTS
KINDS = dict(tt={"dense", "sparse", "tt", "cp", "tucker"}, sg={"sparse"}, ss={"sparse"}, dg={"dense", "sparse", "tt"})
GROW = {"sg", "dg"}
SHAPES = [(2, 3), (4, 2), (2, 3, 2), (3, 2, 4), (2, 1, 3), (1, 3, 2), (3, 2, 2), (2, 2, 3, 2), (2, 1, 2, 3), (3, 4, 2), (2, 2, 2, 2, 2), (1, 2, 3)]

LARGE = [(5, 6, 5), (9, 10), (4, 12, 3)]      # with ranks that give components of a hundred and more numbers
def groups(rng, pairs, shapes, per=4, loose=0, skew=False):
    """loose: share of the groups whose left and right ranks are not ordered (bare components only)"""
    out = []
    for i, (lt, rt) in enumerate(pairs):
        for sh in shapes:
            d = len(sh)
            kinds = KINDS[lt] & KINDS[rt]
            grow = lt in GROW and rt in GROW
            tens = []
            for s in ([sh] if tuple(sh) == tuple(sh)[::-1] else [sh, tuple(sh)[::-1]]):
                F = dict(dense=pools.dense, sparse=pools.sparse, tt=pools.tt, cp=pools.cp, tucker=pools.tucker)
                for k in sorted(kinds):
                    for _ in range(per if len(kinds) == 1 else 2): tens.append(F[k](rng, s))
                if skew:           # entries of very different size
                    t = pools.sparse(rng, s, rng.choice([2, 3, pools.prod(s) // 2])); t["e"] = [rng.choice([1, -1, 2, 4000]) for _ in t["e"]]; tens.append(t)
                    if "tt" in kinds:
                        t = pools.tt(rng, s, [2] * (d - 1)); t["cores"][0] = [[[1500 * r[0]] + r[1:] for r in a] for a in t["cores"][0]]; tens.append(t)
                        tens.append(dict(k="sum", sh=list(s), ts=[t, F[rng.choice(sorted(kinds))](rng, s)]))
                ts = [F[rng.choice(sorted(kinds))](rng, s) for _ in range(rng.choice([1, 2, 3]))]
                if rng.random() < .4: ts.append(rng.choice(ts))
                if rng.random() < .5: ts = [dict(k="sum", sh=list(s), ts=ts), F[rng.choice(sorted(kinds))](rng, s)]
                tens.append(dict(k="sum", sh=list(s), ts=ts))
                tens.append(dict(k="sum", sh=list(s), ts=[]))
            small = [rng.choice([4, 5] if sh in LARGE else [1, 2, 2, 3]) for _ in range(d - 1)]
            big = [x + rng.choice([1, 1, 2, 3]) for x in small]
            if rng.random() < loose:
                big = [max(1, x + rng.choice([0, 0, 0, 1, -1])) for x in small]
                if rng.random() < .5: big = list(small)
            if grow: small = [x + 1 for x in small]; big = [x + 1 for x in big]
            fl, fr = (small, big) if rng.random() < .5 else (big, small)
            def drm(t, full):
                j = dict(t=t)
                if t == "ss" and rng.random() < .7: j["nnz"] = [rng.randint(1, r) for r in full]
                return j
            out.append(dict(sh=list(sh), l=drm(lt, fl), r=drm(rt, fr), fl=fl, fr=fr, grow=grow, tens=tens, seed=0 if rng.random() < .25 else rng.randrange(1, 2**31), kinds=sorted(kinds)))
    return out

ALLPAIRS = [("tt", "tt"), ("dg", "dg"), ("sg", "sg"), ("ss", "ss"), ("tt", "dg"), ("dg", "tt"), ("sg", "dg"), ("dg", "sg"), ("ss", "sg"), ("tt", "sg"), ("dg", "ss"), ("ss", "tt")]
def streams(ctx, stage, pairs, first, ops, num, depth, weights=None, shapes=SHAPES, loose=0, large=(), skew=False):
    rng = ctx.rng(stage)
    gs = groups(rng, pairs, shapes, loose=loose, skew=skew) + groups(rng, pairs[::max(1, len(pairs) // 4)], large, per=2)
    ops = [o for o in ops for _ in range((weights or {}).get(o, 1))]
    data = dict(groups=gs, conf=dict(first=first, ops=ops, depth=depth))
    scripts = ctx.generate(stage, "GenStream", data, GEN, num, depth + 4)
    ctx.conform(stage, "stream", "TraceStream", scripts, job=dict(groups=gs), data=dict(groups=gs), consts=CONSTS)

SKETCH = ["make", "sketch", "add", "nest", "iadd", "wsum", "split", "T", "empty", "mul", "dense", "sparse"]
def c05(ctx):
    fam_session.sessions(ctx, "any-tensor", SKETCH, ctx.n(500, 5000), depth=12, weights=dict(sketch=5, nest=2))
    streams(ctx, "definition", ALLPAIRS, ["new"], ["new", "poke"], ctx.n(500, 5000), 5, weights=dict(new=2))
def c06(ctx):
    streams(ctx, "hashed-updates", ALLPAIRS, ["new"], ["upd", "scale", "div", "T", "new", "poke"], ctx.n(300, 3000), 8, weights=dict(upd=5, T=2), large=LARGE)
def c09(ctx):
    g2 = [("dg", "dg"), ("sg", "sg"), ("sg", "dg"), ("dg", "sg")]
    streams(ctx, "growth", g2, ["new"], ["grow", "upd", "T", "scale", "new", "poke"], ctx.n(300, 3000), 8, weights=dict(grow=5, upd=2), large=LARGE)
    streams(ctx, "blocks", ALLPAIRS, ["block"], ["block", "slice", "new", "reblock", "poke"], ctx.n(400, 4000), 5, weights=dict(slice=3, block=2), loose=.3, large=LARGE)
def c08(ctx):
    streams(ctx, "containers", ALLPAIRS, ["block"], ["block", "cadd", "scale", "div", "T", "new", "poke", "asm"], ctx.n(200, 2000), 9, weights=dict(cadd=4, T=2, asm=2), loose=.5, large=LARGE)
    streams(ctx, "assembly", ALLPAIRS, ["new"], ["upd", "scale", "div", "T", "new", "asm"], ctx.n(800, 8000), 7, weights=dict(asm=6), skew=True)
