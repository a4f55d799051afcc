"""The parallel generator: spec/Fill.tla, MCFill.tla, GenFill.tla, TraceFill.tla."""
GEN = "SPECIFICATION Spec\nINVARIANT Inv\n"
SHAPES = [[], [0], [1], [2], [5], [7], [8], [9], [15], [16], [17], [3, 0, 2], [2, 3], [4, 4, 4], [63], [64], [65], [2, 2, 2, 2], [5, 7], [100], [33, 3], [1, 1], [400], [7, 11, 13]]
def c20(ctx):
    ctx.model("design", "MCFill", "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Returns\nCONSTANTS MaxN = %d MaxW = %d\n" % ((6, 3) if not ctx.thorough else (8, 4)))
    r = ctx.rng("fill")
    conf = dict(shapes=SHAPES, seeds=["none"] + [str(x) for x in [0, 1, 2, 8, 12345, 2**31 - 1, 2**32 - 1, 2**32, 2**32 + 1, 2**64 + 1] + [r.randrange(2**32) for _ in range(4)]], envs=4, rounds=4, w=8)
    scripts = ctx.generate("fill", "GenFill", dict(conf=conf), GEN, ctx.n(400, 4000), 400)
    ctx.conform("fill", "fill", "TraceFill", scripts)
