"""Entry point: python -m mc.check C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys
import traceback


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--profile", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from . import env

    import numpy  # noqa: F401  (tool chain must be there; a failure here is an error of the check)
    import sklearn  # noqa: F401
    from . import core

    try:
        env.import_ondil()
        mod = importlib.import_module(f"mc.{a.prop.lower()}")
    except Exception:
        msg = traceback.format_exc()
        print(msg)
        in_repo = env.SRC in msg
        if in_repo:  # the package under test cannot even be imported
            path = core.write_replay(a.prop, tier, -1, "import", [{"sig": "import", "msg": msg}])
            print(f"VIOLATION property={a.prop} replay={path}")
            return 1
        return 3
    return core.main(mod, a.prop, tier, a.replay, a.profile)


if __name__ == "__main__":
    rc = run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
