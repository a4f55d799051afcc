"""Executes histories of experiment logs (spec/Log.tla) in a scratch directory."""
from common import *
import csv, resource, shutil, tempfile
import pandas as pd
from scripts.experiment_base import Experiment
from tt_sketch.drm import TensorTrainDRM, SparseGaussianDRM, DenseGaussianDRM
assert os.path.realpath(sys.modules["scripts.experiment_base"].__file__).startswith(os.path.realpath(os.environ["VF_CODE"]))
def error_func(a, b): return 0
OBJ = dict(TensorTrainDRM=TensorTrainDRM, SparseGaussianDRM=SparseGaussianDRM, DenseGaussianDRM=DenseGaussianDRM, error_func=error_func)

def canon(x):
    """numbers by value, everything else by its text"""
    if isinstance(x, (bool, np.bool_)): return "s:" + str(bool(x))
    try: return "n:%r" % float(x)
    except (ValueError, TypeError): return "s:" + str(x)
def value(c, form):
    """a Python value with the canonical text c"""
    if c.startswith("n:"):
        x = float(c[2:])
        return [lambda: int(x) if x == int(x) else x, lambda: x, lambda: np.float64(x), lambda: np.int64(x) if x == int(x) else x][form]() if math.isfinite(x) else x
    s = c[2:]
    if s in ("True", "False"): return [s == "True", np.bool_(s == "True")][form % 2]
    if s == "None": return [None, "None"][form == 3]
    if s in OBJ: return OBJ[s]
    if s.startswith("(") and form != 3: return tuple(json.loads("[" + s[1:-1].rstrip(",") + "]"))
    return s
def mem_rows(log):
    out = []
    cols = list(log.data.columns)
    for _, r in log.data.head(20).iterrows():
        out.append(sorted([str(k), canon(r.iloc[i])] for i, k in enumerate(cols) if not (isinstance(r.iloc[i], float) and math.isnan(r.iloc[i]))))
    return dict(none=False, rows=out[:20])     # no log of ours gets as long
def file_rows(fn):
    if not os.path.exists(fn): return dict(none=True, rows=[])
    with open(fn, newline="") as f: rows = list(csv.reader(f))
    if not rows: return dict(none=False, rows=[[["?", "empty file"]]])
    # columns with row numbers have no name of their own
    keep = [i for i, k in enumerate(rows[0]) if k and not k.startswith("Unnamed")]
    return dict(none=False, rows=[sorted([rows[0][i], canon(r[i])] for i in keep if i < len(r) and r[i] != "") for r in rows[1:21]])

def run_one(job, script, idx):
    d = tempfile.mkdtemp(prefix="log-", dir=os.environ["VF_WORK"]); ev = []
    n = job["groups"][script["g"] - 1]["files"]
    fns = [os.path.join(d, "log%d.csv" % i) for i in range(n)]; logs = [None] * n
    try:
        for e0 in script["ev"]:
            e = dict(e0); e.update(exc="", calls=0, given=True, others=[]); f = e["f"] - 1; op = e["op"]
            before = [mem_rows(x) if x is not None and i != f else None for i, x in enumerate(logs)]
            try:
                with limit(60):
                    if op == "open":
                        logs[f] = Experiment.load(fns[f]) if e["how"] == "load" else Experiment(fns[f], force_overwrite=True) if e["how"] == "overwrite" else Experiment(fns[f])
                    elif op == "save": logs[f].save()
                    else:
                        kw = {k: value(c, e["form"]) for k, c in e["conds"]}
                        token = object()
                        def func(x, **k):
                            e["calls"] += 1
                            e["given"] = e["given"] and x is token and list(k) == list(kw) and all(k[q] is kw[q] for q in kw)
                            if e["out"] == "raise": raise ArithmeticError("the experiment failed")
                            return {k: value(c, e["form"]) for k, c in e["res"]}
                        size = os.path.getsize(fns[f]) if os.path.exists(fns[f]) else 10
                        old = resource.getrlimit(resource.RLIMIT_FSIZE)
                        if e["out"] == "full": resource.setrlimit(resource.RLIMIT_FSIZE, (size * e["cut"] // 100, old[1]))
                        try: logs[f].do_experiment(token, e["name"][2:], func, **kw)
                        finally: resource.setrlimit(resource.RLIMIT_FSIZE, old)
            except Exception as x: e["exc"] = exc_name(x)
            e["mem"] = dict(none=True, rows=[]) if logs[f] is None else mem_rows(logs[f])
            e["disk"] = [file_rows(x) for x in fns]
            e["others"] = [i + 1 for i, x in enumerate(logs) if before[i] is not None and mem_rows(x) != before[i]]
            ev.append(e)
            if max(len(x["rows"]) for x in [e["mem"]] + e["disk"]) >= 20: break        # rows of other histories: seen enough
    finally: shutil.rmtree(d, ignore_errors=True)
    return dict(g=script["g"], files=n, ev=ev)
if __name__ == "__main__": main(run_one)
