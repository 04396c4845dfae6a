#!/usr/bin/env python3
"""python3 check.py --property P01 --tier quick|thorough  (seed: VERIF_SEED)"""
import sys, os, argparse, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, props
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--property", required=True); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args(); c = core.Ctx(a.property, a.tier, a.seed)
    try: props.CHECKS[a.property](c); rc = c.finish(extra=None)
    except Exception as e:
        traceback.print_exc(limit=-3) if not isinstance(e, core.BuildError) else None; print("check %s could not be completed: %s" % (a.property, str(e)[-1500:])); rc = 2
    sys.stdout.flush(); sys.exit(rc)
main()
