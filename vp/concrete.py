"""Replays solver models on the unmodified code: JSON lines on stdin/stdout."""
import importlib
import json
import os
import sys


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # code under test may print
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vp import engine, env

    env.load(symbolic=False)
    mods = {}
    for line in sys.stdin:
        q = json.loads(line)
        if q["prop"] not in mods:
            mods[q["prop"]] = {u.name: u for u in importlib.import_module("props." + q["prop"].lower()).UNITS}
        u = mods[q["prop"]][q["unit"]]
        r = engine.run_concrete(u.fn, q["asg"], q["strict"])
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
