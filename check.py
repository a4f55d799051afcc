#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from vf.ctx import Ctx, MachineryError
from vf import registry

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        registry.CHECKS[pid](ctx)
        return ctx.finish()
    except MachineryError as e:
        print("ERROR %s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        ctx.work.close()
sys.exit(main())
