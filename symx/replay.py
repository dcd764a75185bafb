"""Replay a recorded counterexample on the real code (no solver, no proxies)."""

import json
import os
import sys

from symx import core, env, run


def main():
    d = json.load(open(sys.argv[1]))
    m = run.load(d["property"])
    env.modules()
    h = [x for x in m.HARNESSES if x.name == d["harness"]][0]
    vio, c = core.run_concrete(run.bind(h, d["params"]), d["values"])
    for v in vio:
        print("reproduced: %s  %s" % (v.label, v.detail))
    for n, v in c.obs:
        print("observed %s = %s" % (n, v))
    if not vio:
        print("not reproduced: the property holds on these values")
    return 1 if vio else 0


if __name__ == "__main__":
    rc = main()
    env.remove_base()
    os._exit(rc)
