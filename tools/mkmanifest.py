"""writes MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), ".."))
from vf import registry
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = ("TLC explores the specification of this property exhaustively within small constants and generates or checks the "
        "behaviours that are executed with / recorded from the code built from /repo's working tree; every recorded event is decided by "
        "the specification (%s). Holds for what was explored: sampled behaviours and inputs, bounded sizes. Trusts TLC, the recorder (drv/) "
        "and, for non-integer data, the stated fixed-point tolerances.")
checks = []
for p in props:
    if p["id"] in registry.CHECKS:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                           technique="TLA+ specification (%s): TLC model checking, model-generated behaviours replayed into the code, trace validation" % registry.MODULES[p["id"]],
                           level="model_checking", level_note=NOTE % registry.MODULES[p["id"]]))
na = [dict(property=p["id"], reason=registry.NOT_YET.get(p["id"], "check not built yet")) for p in props if p["id"] not in registry.CHECKS]
json.dump(dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na,
               notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo."), open("/verif/MANIFEST.json", "w"), indent=1)
