"""Development aid: distribution of the fields of the generated scripts.  hist.py ID [tier]"""
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vf import ctx as C, registry
c = C.Ctx(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick", 1)
def conform(stage, driver, module, scripts, **k):
    h = collections.defaultdict(collections.Counter)
    for s in scripts:
        for e in (s["ev"] if isinstance(s, dict) else s):
            h[""][e.get("op")] += 1
            for f, v in e.items(): h[(e.get("op"), f)][json.dumps(v)[:40]] += 1
    print("==", stage, len(scripts))
    for k2, v in sorted(h.items(), key=str): print("  ", k2, dict(v.most_common(8)), len(v))
    return [], []
c.conform = conform; c.model = lambda *a, **k: ""
registry.CHECKS[sys.argv[1]](c); c.work.close()
