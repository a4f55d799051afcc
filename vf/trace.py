"""Trace validation: recorded traces in, rejections out."""
import json, re
from .core import *

REJ = re.compile(r'<<"REJECT", (\d+), (\d+), "([^"]*)">>')

def validate(work, module, data, env=None, timeout=800, consts=""):
    """data: {"traces": [...], ...}; every trace needs "ev".  Traces of scripts
    during which the implementation died are rejected outright.
    Returns (rejections, states, transitions)."""
    traces = data["traces"]
    rejections, keep, idx = [], [], []
    for i, t in enumerate(traces):
        if t is None: raise MachineryError("script %d was not executed" % i)
        if "died" in t: rejections.append((i, 0, "died: " + t["died"]))
        else: keep.append(t); idx.append(i)
    if not keep: return rejections, 0, 0
    f = work.fresh(module + "-traces.json")
    json.dump(dict(data, traces=keep), open(f, "w"))
    rc, out = tlc(work, module, "SPECIFICATION Spec\nINVARIANT Inv\n" + consts, env=dict(env or {}, TRACE_FILE=f), timeout=timeout)
    check_ok(rc, out, module)
    gen, distinct = stats(out)
    rej = {}
    for a, b, c in REJ.findall(out): rej[int(a)] = (int(b), c)
    # every trace must have been walked to its end or to its rejection
    want = 0
    for k, t in enumerate(keep):
        want += 1 + (rej[k + 1][0] if k + 1 in rej else len(t["ev"]))
    if distinct != want:
        raise MachineryError("%s: %d states instead of %d: traces not fully checked\n%s" % (module, distinct, want, out[-3000:]))
    for k, (l, c) in rej.items(): rejections.append((idx[k - 1], l, c))
    return sorted(rejections), distinct, gen
