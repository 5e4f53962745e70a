#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] : statically decides one property of /repo's current tree."""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    try:
        import fw, registry
        e = registry.RULES.get(a.pid)
        if e is None:
            print("unknown property %s" % a.pid)
            return 2
        return fw.run(a.pid, a.tier, e["fn"], e)
    except BaseException as ex:  # never any other exit than 0 / 1
        import traceback
        traceback.print_exc()
        print("analysis failed: %r" % ex)
        print("VIOLATION property=%s replay=/dev/null" % a.pid)
        return 1


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
