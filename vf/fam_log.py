"""Experiment logs: spec/Log.tla, MCLog.tla, GenLog.tla, TraceLog.tla."""
MC = "SPECIFICATION Spec\nINVARIANT Once Kept\nPROPERTY Grows\n"
GEN = "SPECIFICATION Spec\nINVARIANT Once\n"
def num(x): return "n:%r" % float(x)
def txt(x): return "s:" + x
KEYS = dict(rank=[num(1), num(2), num(10), num(64), num(100)], run=[num(i) for i in range(4)], eps=[num(x) for x in (0.1, 0.1 + 0.2, 1e-9, 1 / 3, 2.5e17, -0.7)],
            drm=[txt(x) for x in ("TensorTrainDRM", "SparseGaussianDRM", "DenseGaussianDRM", "None", "auto")],
            recompression_rank=[txt("None"), num(5), num(12), num(0)], max_rank=[txt("None"), txt("(5, 8, 5)"), txt("(5, 8)"), num(8), txt("auto")],
            flag=[txt("True"), txt("False")], shape=[txt("(2, 3)"), txt("(2, 3, 4)"), txt("(20, 30)")], label=[txt(x) for x in ("NA", "a,b", 'say "x"', "null", "two\nlines", "x ", "ä")],
            error_func=[txt("error_func"), txt("None")])
RES = dict(error=None, time_taken=None, residual=None, note=[txt("ok"), txt("NA"), txt("n/a"), txt("a;b")])
def groups(rng):
    out = []
    for _ in range(24):
        keys = rng.sample(sorted(KEYS), rng.choice([1, 2, 3, 4]))
        res = ["error"] + rng.sample(["time_taken", "residual", "note"], rng.choice([0, 1, 2]))
        pick = lambda v, n: rng.sample(v, min(len(v), n))
        fl = lambda: [num(x) for x in (0, rng.random(), rng.random() * 1e-12, float("inf"), rng.randrange(100))]
        out.append(dict(files=rng.choice([1, 1, 2]), names=[txt(x) for x in rng.sample(["OTTS", "STTA", "HMT", "TT-SVD", "None", "tt sum"], rng.choice([1, 2]))],
                        keys=[dict(k=k, vals=pick(KEYS[k], rng.choice([2, 3, 4]))) for k in keys], res=[dict(k=k, vals=RES[k] or fl()) for k in res]))
    return out
def c23(ctx):
    ctx.model("design", "MCLog", MC)
    gs = groups(ctx.rng("log"))
    scripts = ctx.generate("log", "GenLog", dict(groups=gs, depth=14), GEN, ctx.n(700, 7000), 20)
    ctx.conform("log", "log", "TraceLog", scripts, job=dict(groups=gs))
