#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    if a.prop not in props.CHECKS:
        print("unknown property", a.prop, file=sys.stderr)
        return 2
    core.trim_cache()
    try:
        v = props.CHECKS[a.prop](a.tier)
        rc = v.finish()
    except core.BuildFailure as e:
        print("ERROR: build step failed: %s\n%s" % (e.what, e.log[-3000:]), file=sys.stderr)
        rc = 3
    except core.HarnessError as e:
        print("ERROR:", e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
