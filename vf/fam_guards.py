"""Requests: spec/Guards.tla, GenGuards.tla, TraceGuards.tla."""
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n"
SHAPES = [[2, 3], [4, 2], [1, 3], [2, 3, 2], [3, 2, 4], [2, 1, 3], [2, 4, 3], [1, 2, 2], [2, 2, 2], [3, 2, 3], [2, 3, 2, 2], [2, 1, 2, 3]]
OPS = dict(stream=5, osk=4, hmt=3, upd=4, grow=5, slice=4, block=3, sign=3, drm=2, use=3, cores=2, rsum=3, ttrand=3, wts=3, mapsum=3, gmres=3, zero=1, process=1,
           trim=1, svd=1, ttround=1, mpo=1, sprand=2, general=1)
def guards(ctx, stage, num, depth=10, ops=OPS, shapes=SHAPES):
    data = dict(conf=dict(shapes=shapes, ops=[o for o in ops for _ in range(ops[o])], depth=depth))
    scripts = ctx.generate(stage, "GenGuards", data, GEN, num, depth + 3)
    ctx.conform(stage, "guards", "TraceGuards", scripts)
def c19(ctx):
    guards(ctx, "requests", ctx.n(1200, 12000), 12)
