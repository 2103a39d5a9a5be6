#!/usr/bin/env python3
"""check.py PROPERTY --tier quick|thorough : decide one property on /repo's current source."""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from checklib import Ctx
    import registry
    mod, fn = registry.CHECKS[a.pid]
    ctx = Ctx(a.pid, a.tier)
    try:
        getattr(importlib.import_module(mod), fn)(ctx)
    except Exception as e:
        if os.environ.get("VP_DEBUG"):
            raise
        ctx.undecided("analysis", "stopped by an internal error: %r" % (e,))
    r = ctx.finish()
    if a.v:
        for u in ctx.und:
            print("undecided:", u[0], "--", u[1][:300])
    return r


if __name__ == "__main__":
    out = [2]

    def go():
        out[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0])
