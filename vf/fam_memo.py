"""Seeds: spec/Memo.tla, GenMemo.tla, TraceMemo.tla."""
from . import pools
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n"
SHAPES = [[4], [6], [2, 3], [3, 4], [2, 3, 2], [3, 3, 3], [2, 2, 2, 2], [5, 2], [1, 4, 2], [3, 1, 2], [4, 4], [2, 3, 3, 2], [12], [6, 7], [5, 4, 4]]
def c10(ctx):
    r = ctx.rng("memo")
    tens, meta = [], []
    for sh in [(3, 4), (2, 3, 2), (3, 3, 3), (2, 2, 3, 2), (4, 4), (2, 1, 3)]:
        for t, drms in [(pools.tt(r, sh), ["default", "tt", "dg"]), (pools.dense(r, sh), ["default", "tt", "dg"]), (pools.sparse(r, sh), ["default", "tt", "dg", "sg", "ss"]), (pools.cp(r, sh, 2), ["default", "tt"])]:
            tens.append(t); meta.append(dict(sh=list(sh), drms=drms))
    conf = dict(shapes=SHAPES, seeds=[str(x) for x in [0, 1, 2, 3, 1, 2**31 + 1, 2**32 - 2, 2**32 - 4, 7, 7 + 2**16, 2**31, 0] + [x ^ b for x in [r.randrange(2**32 - 8)] for b in (0, 1)] + [r.randrange(2**32 - 1) for _ in range(2)]], tens=meta, workers=4, depth=14)
    scripts = ctx.generate("memo", "GenMemo", dict(conf=conf), GEN, ctx.n(400, 4000), 16)
    ctx.conform("memo", "memo", "TraceMemo", scripts, job=dict(tens=tens))
