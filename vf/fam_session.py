"""Sessions: spec/Session.tla, GenSession.tla, TraceSession.tla, MCSession.tla."""
from . import pools
CONSTS = "CONSTANTS Pool <- MCPool\nDrms <- MCDrms\n"
GEN = "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY FrameProp\n" + CONSTS

def sessions(ctx, stage, ops, num, depth=14, maxslots=8, shapes=None, per_kind=2, weights=None):
    ops = [o for o in ops for _ in range((weights or {}).get(o, 1))]
    data = pools.session_file(ctx.subseed(stage), shapes or pools.SHAPES, dict(ops=ops, depth=depth, maxslots=maxslots), per_kind)
    scripts = ctx.generate(stage, "GenSession", data, GEN, num, depth + 3)
    ctx.conform(stage, "session", "TraceSession", scripts, job=dict(pools=data["pools"]), data=dict(pools=data["pools"]), consts=CONSTS)

MC = "SPECIFICATION Spec\nINVARIANT Inv Laws\nPROPERTY FrameProp\nVIEW View\n" + CONSTS
def model(ctx, stage, ops, depth, sh=(2, 2), kinds=None):
    import json
    f = ctx.work.fresh(stage + "-mc.json")
    json.dump(pools.small_session_file(ctx.subseed(stage), dict(ops=ops, depth=depth), sh, kinds), open(f, "w"))
    ctx.model(stage, "MCSession", MC, env=dict(POOL_FILE=f))

FORMAT = ["make", "T", "dense", "sparse", "split", "gather", "zero", "partial", "nest", "empty", "wsum", "alias", "ttadd"]
ARITH = ["make", "mul", "rmul", "imul", "div", "neg", "add", "sub", "iadd", "isub", "nest", "empty", "wsum", "wsumbad", "T", "ttadd", "split", "dense", "sparse"]
FRAME = ["make", "alias", "mul", "imul", "neg", "div", "add", "sub", "iadd", "isub", "wsum", "T", "ttadd", "split", "dense", "sparse", "orth", "round",
         "sketch", "poke", "gather", "dot", "norm", "error", "call", "dcall", "again", "touch", "ttwsum", "rsum"]
INPLACE = ["make", "alias", "mul", "neg", "div", "add", "sub", "iadd", "isub", "nest", "wsum", "empty", "split", "T", "zero", "norm", "dot", "dense", "again", "touch"]
INNER = ["make", "dot", "norm", "error", "mul", "add", "sub", "T", "nest", "empty", "dense", "sparse", "ttadd", "orth"]
UPDATE = ["make", "sketch", "add", "sub", "iadd", "isub", "mul", "rmul", "imul", "neg", "div", "T", "alias", "nest", "split"]


def c01(ctx):
    model(ctx, "design", ["make", "T", "dense", "sparse", "split", "nest", "empty", "wsum", "ttadd"], ctx.n(3, 4), kinds=[pools.dense, pools.tt])
    sessions(ctx, "formats", FORMAT, ctx.n(1200, 8000), depth=12, weights=dict(gather=3, T=2, partial=2))
def c02(ctx):
    model(ctx, "design", ["make", "mul", "neg", "add", "sub", "iadd", "nest", "wsum", "T"], ctx.n(3, 4), kinds=[pools.dense, pools.tsum])
    sessions(ctx, "arithmetic", ARITH, ctx.n(1200, 8000), depth=14)
def c03(ctx):
    model(ctx, "design", ["make", "alias", "imul", "add", "iadd", "nest", "poke"], ctx.n(4, 5), kinds=[pools.dense, pools.tsum])
    sessions(ctx, "frame", FRAME, ctx.n(700, 6000), depth=18, weights=dict(call=5, dcall=3, poke=2, sketch=2, norm=3, again=5, touch=4, ttwsum=3, rsum=3))
    from . import fam_stream
    fam_stream.streams(ctx, "random-matrices", fam_stream.ALLPAIRS, ["new"], ["new", "poke", "upd", "T"], ctx.n(200, 2000), 6, weights=dict(poke=2, new=2))
    sessions(ctx, "inplace", INPLACE, ctx.n(400, 4000), depth=16, weights=dict(again=3, touch=5, add=2, nest=2, empty=2))
def c04(ctx):
    model(ctx, "design", ["make", "dot", "add", "T", "nest"], ctx.n(4, 5), kinds=[pools.dense, pools.cp])
    sessions(ctx, "inner", INNER, ctx.n(1200, 8000), depth=14, weights=dict(dot=5, norm=3, error=6))
def c06(ctx):
    model(ctx, "design", ["make", "sketch", "add", "sub", "mul", "neg", "T"], ctx.n(4, 5), sh=(2, 1, 2), kinds=[pools.dense, pools.tt])
    model(ctx, "design2", ["make", "sketch", "add", "iadd", "imul", "T"], 4, sh=(3, 2), kinds=[pools.tt, pools.sparse])
    sessions(ctx, "updates", UPDATE, ctx.n(800, 8000), depth=16, weights=dict(sketch=3, add=4, iadd=2, sub=2, T=2))
