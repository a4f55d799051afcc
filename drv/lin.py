"""Executes uses of linear maps (spec/LinMaps.tla)."""
from common import *
from guards import digest
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond

def obs(x):
    if isinstance(x, Tensor) and not isinstance(x, MPO):
        return dict(cls=type(x).__name__, sh=il(x.shape), v=ints(x.to_numpy()), n=x.num_summands if isinstance(x, TensorSum) else 1)
    o = dict(cls=type(x).__name__, ins=il(x.in_shape), outs=il(x.out_shape))
    if isinstance(x, MPO):
        a = x.to_numpy(); t = x.to_tt()
        o.update(ash=il(a.shape), v=ints(a), ttcls=type(t).__name__, ttsh=il(t.shape), ttv=ints(t.to_numpy()), size=int(x.size),
                 stored=int(sum(np.asarray(c).size for c in x.cores)))
    return o

def shared(x, objs, dig):
    """numbers of the objects that change when a core of x is replaced (and put back)"""
    cs = getattr(x, "cores", None); out = set()
    if not isinstance(cs, list): return []
    for m, c in enumerate(list(cs)):
        cs[m] = np.asarray(c) * 3 + 1
        out |= {k + 1 for k, o in enumerate(objs) if digest(o) != dig[k]}
        cs[m] = c
    return sorted(out)

def run_one(job, script, idx):
    g = job["groups"][script["g"] - 1]
    objs, dig, ev = [], [], []
    for e0 in script["ev"]:
        e = dict(e0); e.update(exc="", changed=[], shares=[], obs={}); op = e["op"]; how = (idx + len(ev)) % 5
        at = lambda k: objs[e[k] - 1]
        try:
            with limit(60):
                if op == "tt": x = build(g["tts"][e["p"] - 1], how)
                elif op == "mpo": x = MPO([layout(np.array(c, dtype=float), how) for c in g["mpos"][e["p"] - 1]])
                elif op == "pc":
                    p = g["pcs"][e["p"] - 1]
                    x = TTPrecond(layout(np.array(p["A"], dtype=float), how), tuple(p["sh"]), p["mode"] - 1) if p["mode"] > 1 or idx % 2 else TTPrecond(layout(np.array(p["A"], dtype=float), how), tuple(p["sh"]))
                elif op == "eye": x = MPO.eye(tuple(e["sh"]) if idx % 2 else list(e["sh"]))
                elif op == "T": x = at("i").T
                elif op == "scale":
                    o, c = at("i"), e["c"] if idx % 2 else float(e["c"])
                    x = {"mul": lambda: o * c, "rmul": lambda: c * o, "neg": lambda: -o, "div": lambda: o / c}[e["how"]]()
                elif op == "msum": x = TTLinearMapSum([objs[i - 1] for i in e["is"]])
                elif op == "tsum": x = TensorSum([objs[i - 1] for i in e["is"]])
                elif op == "app": x = at("i")(at("j"))
                elif op == "fwd": x = at("i").forward_call(at("j"))
                elif op == "bwd": x = at("i").backward_call(at("j"))
                elif op == "add": x = at("i").add(at("j"))
                e["obs"] = obs(x)
                for k, o in enumerate(objs):
                    n = digest(o)
                    if n != dig[k]: e["changed"].append(k + 1)
                e["shares"] = shared(x, objs, dig)
                objs.append(x); dig.append(digest(x))
        except Exception as x:
            e["exc"] = exc_name(x); ev.append(e); break
        ev.append(e)
    return dict(g=script["g"], ev=ev)
if __name__ == "__main__": main(run_one)
