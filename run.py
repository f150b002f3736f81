#!/usr/bin/env python3
"""run.py <PROPERTY> | run.py --all | run.py --replay FILE"""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        print(json.dumps(d, indent=1))
        from mc import env
        env.setup()
        mod = importlib.import_module("mc.checks." + d["property"].lower())
        if hasattr(mod, "replay"):
            return mod.replay(d["case"])
        print("(re-run: VERIF_TIER=quick python3 run.py %s)" % d["property"])
        return 0
    if sys.argv[1] == "--selftest":       # setup_cmd: the framework and the code under test import
        from mc import env, iso, assets, dash, model, core
        env.setup()
        import dashlivesim
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        print("ok", dashlivesim.__file__)
        return 0
    ids = sys.argv[1:]
    if ids == ["--all"]:
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc", "checks")
        ids = sorted(f[:-3].upper() for f in os.listdir(here) if f.startswith("c") and f.endswith(".py"))
    rc = 0
    for pid in ids:
        mod = importlib.import_module("mc.checks." + pid.lower())
        rc = max(rc, mod.main())
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
