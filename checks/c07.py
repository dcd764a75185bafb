"""C07: the threshold search."""

import os

from symx import core, env
from symx.run import harness
from checks import pipeline, search

ASSUMPTIONS = pipeline.ASSUMPTIONS + [
    "weights are zero or in the stated range within [2e-5, 0.045] (so that the search is a bounded number of steps), and "
    "not within 1e-9 of a threshold the search visits",
]

COVERS = ["all removable removed", "limit exceeded", "no viable model", "first threshold too high",
          "nothing removed", "several steps"]


def params(ms, names=("mech.yaml",), extra=()):
    out = []
    for m in ms:
        for nm in names:
            for e in extra:
                out.append(dict({"m": m, "user_file": nm}, **e))
    return out


STAR3 = {"n": 3, "edges": ("01 02",), "targets": (0,), "path": ""}
SHORT3 = dict(STAR3, lo=5e-3, hi=0.025)
CHAIN = {"n": 4, "edges": ("01 12 03",), "targets": (0,), "path": "out"}
TWO = {"n": 4, "edges": ("01", "32"), "targets": (0, 3), "path": ""}
STAR4 = {"n": 4, "edges": ("01 02 03",), "targets": (0,), "path": ""}
OUT3 = dict(SHORT3, path="out")
ALL = ("drg", "pfa", "drgep")


@harness(
    quick=params(ALL, extra=[STAR3])
    + params(ALL, extra=[dict(TWO, lo=5e-3, hi=0.025)])
    + params(ALL, ("reduced_2.yaml", "reduced_3.yaml"), [SHORT3])
    + params(("drg", "pfa"), extra=[dict(CHAIN, lo=8e-3, hi=0.025)])
    + params(ALL, ("out/reduced_2.yaml",), [OUT3]),
    thorough=params(ALL, extra=[STAR3, TWO, STAR4])
    + params(ALL, ("reduced_2.yaml", "reduced_3.yaml"), [STAR3])
    + params(("drg", "pfa"), extra=[CHAIN])
    + params(ALL, ("out/reduced_2.yaml",), [dict(STAR3, path="out")]),
    covers=COVERS, path_seconds=40,
    bounds="3-4 species, 1-2 targets, every subset of always-retained species, 1-2 sampled states "
           "with the listed non-zero weights, arbitrary metric of every candidate model, arbitrary "
           "error limit in (0, 300]; user file names that collide with generated ones")
def run_search(c, m, n, edges, targets, path, user_file, lo=2e-5, hi=0.045):
    names = pipeline.NAMES[:n]
    w = search.scenario(c, names, user_file, path)
    mats = [search.pattern(c, n, e, hi, "_%d" % k, lo) for k, e in enumerate(edges)]
    w.install_matrices(mats)
    before = open(user_file).read()
    limit = c.real("limit", 0.0, 300.0, lo_open=True)
    safe = [names[i] for i in range(n) if i not in targets and c.flag("safe_" + names[i])]
    s = search.Search(c, m, w, mats, targets, safe)
    want = s.final(limit)
    safe_arg = list(safe)
    red = search.run(c, m, user_file, w, limit, targets, safe_arg, path=path)
    c.check(os.path.isfile(user_file) and open(user_file).read() == before,
            "the starting model file is untouched", "user file")
    c.check(safe_arg == safe, "the caller's list is not modified", "mutated")
    judge(c, s, w, red, want, limit, path)


def judge(c, s, w, red, want, limit, path):
    c.check((red is None) == (want is None),
            "SystemExit exactly if no permitted threshold gives an acceptable model", "exit",
            "result %r, expected %r" % (red, want))
    if red is None or want is None:
        c.observe("exit", red is None)
        c.cover("no viable model")
        return
    got = red.model.species_names
    c.observe("species", got)
    c.observe("error", red.error)
    c.check(set(s.always) <= set(got), "targets and retained species are never removed", "protected")
    c.check(red.error <= limit, "the returned error does not exceed the limit", "limit")
    c.check(c.eq(red.error, w.error(got)), "the error is that of the returned model", "error")
    c.check(got == [x for x in w.names if x in want],
            "the last model within the error limit is returned", "species",
            "got %s want %s" % (got, sorted(want)))
    pipeline.check_model_file(c, red.filename, red.model)
    if frozenset(got) == w.full:
        c.cover("nothing removed")
    else:
        c.check(os.path.dirname(red.filename) == path, "written to the requested directory", "path")
    if s.exceeded:
        c.cover("limit exceeded")
    elif len(got) == len(s.always):
        c.cover("all removable removed")
    if s.threshold < 0.009:
        c.cover("first threshold too high")
    if s.steps > 2:
        c.cover("several steps")


@harness(
    quick=[{"m": m, "low": low, "lo": lo, "hi": hi} for m in ALL
           for low, lo, hi in ((0.025, 0.9, 0.99), (0.0025, 0.09, 0.1))],
    thorough=[{"m": m, "low": low, "lo": lo, "hi": hi} for m in ALL
              for low, lo, hi in ((0.025, 0.03, 0.99), (0.0025, 0.02, 0.2), (2.5e-4, 0.008, 0.012))],
    covers=["limit exceeded", "all removable removed", "first threshold too high", "several steps"],
    path_seconds=60,
    bounds="4 species, one target; one weight fixed at a low value, two arbitrary weights far above "
           "the first threshold (one in [lo, hi], the other 0.01 above it or equal), so that the "
           "search takes up to a hundred (quick) or three hundred (thorough) steps; arbitrary "
           "metrics and error limit")
def far_search(c, m, low, lo, hi):
    names = pipeline.NAMES[:4]
    w = search.scenario(c, names, "mech.yaml", "")
    x = c.real("w", lo, hi)
    y = x + 0.01 if c.flag("apart") else x
    mats = [[[0.0, low, x, y]] + [[0.0] * 4 for _ in range(3)]]
    w.install_matrices(mats)
    limit = c.real("limit", 0.0, 300.0, lo_open=True)
    s = search.Search(c, m, w, mats, [0], [])
    want = s.final(limit)
    red = search.run(c, m, "mech.yaml", w, limit, [0], [])
    judge(c, s, w, red, want, limit, "")
