"""setup: toolchain present, specifications parse, native operators agree with their definitions"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), ".."))
from vf.core import *
w = Work()
try:
    outs = []
    for native in (True, False):
        rc, out = tlc(w, "SelfTest", "SPECIFICATION Spec\n", workers=1, native=native)
        check_ok(rc, out, "SelfTest")
        keep, on = [], False
        for l in out.splitlines():
            if l.startswith("Computing initial"): on = True
            elif l.startswith("Model checking completed"): on = False
            elif on and not l.startswith(("Finished", "Progress")): keep.append(l)
        outs.append("\n".join(keep))
    assert len(outs[0]) > 100000, len(outs[0])
    if outs[0] != outs[1]:
        for a, b in zip(outs[0].splitlines(), outs[1].splitlines()):
            if a != b: print("native:", a); print("pure:  ", b); break
        sys.exit("native operators differ from their definitions")
    build_code(w)
    print("selftest ok: %d characters of results agree; extension builds" % len(outs[0]))
finally: w.close()
