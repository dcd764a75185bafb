"""C18: sensitivity analysis."""

import os

from symx import core, env
from symx.run import harness
from checks import pipeline, search

ASSUMPTIONS = pipeline.ASSUMPTIONS + [
    "which of two equally close candidates is removed first is left open: the order oracle is "
    "applied where the distances differ, everything else also where they tie",
]

COVERS = ["removed something", "removed nothing", "stopped at the limit", "all candidates removed",
          "protected species offered as limbo"]


def oracle(c, w, names, cands, limit, start_error, algorithm):
    """Species of the final model and whether the limit stopped the run."""
    cur, err = frozenset(names), start_error
    cands = list(cands)
    errs = {s: w.error(cur - {s}) for s in cands}
    while cands:
        best = None
        for s in cands:
            d = abs(errs[s] - err)
            if best is None:
                best = (s, d)
            else:
                c.assume(core.Or(d < best[1] - 1e-6, d > best[1] + 1e-6))
                if d < best[1]:
                    best = (s, d)
        s = best[0]
        e = w.error(cur - {s})
        if e > limit:
            return cur, err, True
        cur, err = cur - {s}, e
        cands.remove(s)
        if algorithm == "greedy":
            errs = {x: w.error(cur - {x}) for x in cands}
            if cands and all(bool(x > limit) for x in errs.values()):
                return cur, err, True
    return cur, err, False


@harness(
    quick=[{"alg": a, "n": 3, "saved": sv, "user_file": "mech.yaml", "path": p}
           for a in ("initial", "greedy") for sv, p in ((False, ""), (True, "out"))]
    + [{"alg": a, "n": 3, "saved": False, "user_file": "reduced_2.yaml", "path": ""}
       for a in ("initial", "greedy")]
    + [{"alg": a, "n": 4, "saved": False, "user_file": "mech.yaml", "path": "", "limbo_all": True}
       for a in ("initial", "greedy")],
    thorough=[{"alg": a, "n": n, "saved": sv, "user_file": u, "path": p}
              for a in ("initial", "greedy") for n in (3, 4)
              for sv, u, p in ((False, "mech.yaml", ""), (True, "mech.yaml", "out"),
                               (True, "reduced_2.yaml", ""), (False, "out/reduced_3.yaml", "out"))],
    covers=COVERS, path_seconds=40,
    bounds="3-4 species, every subset of protected and of limbo species, arbitrary metrics of every "
           "candidate subset, arbitrary starting error and error limit, both algorithms, with and "
           "without saved original metrics")
def sensitivity(c, alg, n, saved, user_file, path, limbo_all=False):
    names = pipeline.NAMES[:n]
    w = search.scenario(c, names, user_file, path)
    if saved:
        with open(env.mod("sampling").data_files["output_ignition"], "w") as f:
            f.write("100.0\n")
        w.start_metric = c.real("m_start", 0.0, 400.0)
    start_error = w.error(names)
    limit = c.real("limit", 0.0, 300.0)
    safe = [names[0]] + [s for s in names[1:] if c.flag("safe_" + s)]
    limbo = [] if limbo_all else [s for s in names if c.flag("limbo_" + s)]
    cands = [s for s in (limbo or names) if s not in safe]
    before = open(user_file).read()
    safe_arg, limbo_arg = list(safe), list(limbo)
    red = env.mod("sensitivity_analysis").run_sa(
        user_file, start_error, [w.condition()], [], [], limit, safe_arg, algorithm_type=alg,
        species_limbo=limbo_arg, path=path)
    c.check(safe_arg == safe and limbo_arg == limbo, "the caller's lists are not modified", "mutated")
    c.check(os.path.isfile(user_file) and open(user_file).read() == before,
            "the given model file is untouched", "user file")
    got = frozenset(red.model.species_names)
    c.check(red.model.species_names == [s for s in names if s in got], "species order", "order")
    c.check(set(names) - got <= set(cands), "only candidate species are removed", "protected",
            "removed %s, candidates %s" % (sorted(set(names) - got), cands))
    if got == frozenset(names):
        c.check(c.eq(red.error, start_error), "error of the unchanged model", "error start")
        c.cover("removed nothing")
    else:
        c.check(c.eq(red.error, w.error(got)), "the error is that of the returned model", "error")
        c.check(red.error <= limit, "the error does not exceed the limit", "limit")
        c.check(os.path.dirname(red.filename) == path, "written to the requested directory", "path")
        c.cover("removed something")
    pipeline.check_model_file(c, red.filename, red.model)
    if set(limbo) & set(safe):
        c.cover("protected species offered as limbo")
    c.observe("species", sorted(got))
    c.observe("error", red.error)
    want, err, stopped = oracle(c, w, names, cands, limit, start_error, alg)
    c.check(got == want, "removal order and stopping rule", "order",
            "got %s want %s" % (sorted(got), sorted(want)))
    if stopped:
        c.cover("stopped at the limit")
    elif cands:
        c.cover("all candidates removed")


class Additive(pipeline.World):
    """The deviations of the removed species add up, except for one pair."""

    def metric(self, species):
        s = frozenset(species)
        if s not in self.metrics:
            gone = [x for x in self.names if x not in s]
            m = 100.0
            for x in gone:
                m = m + self.deviation[x]
            if self.pair <= set(gone):
                m = m - 2.5
            self.metrics[s] = m
        return self.metrics[s]


@harness(
    quick=[{"alg": a, "n": 7} for a in ("initial", "greedy")],
    thorough=[{"alg": a, "n": 10} for a in ("initial", "greedy")],
    covers=["removed something", "stopped at the limit", "all candidates removed"], path_seconds=120,
    bounds="7 species (10 in the thorough tier) of which all but one may go, with fixed deviations of "
           "the metric but for one arbitrary one; arbitrary error limit; both algorithms")
def long_run(c, alg, n):
    env.install(c)
    env.scratch(c)
    names = ["H2"] + ["X%d" % i for i in range(1, n)]
    w = Additive(c, names)
    w.deviation = {x: ((5 * i) % n + 0.5 + i / 64.0) / 2.0 for i, x in enumerate(names)}
    w.deviation[names[3]] = c.real("deviation", -20.0, 40.0)
    w.pair = {names[1], names[n - 1]}
    w.install()
    pipeline.write_model("mech.yaml", names)
    limit = c.real("limit", 0.0, 60.0)
    red = env.mod("sensitivity_analysis").run_sa(
        "mech.yaml", 0.0, [w.condition()], [], [], limit, [names[0]], algorithm_type=alg)
    got = frozenset(red.model.species_names)
    if got != frozenset(names):
        c.check(c.eq(red.error, w.error(got)), "the error is that of the returned model", "error")
        c.check(red.error <= limit, "the error does not exceed the limit", "limit")
        c.cover("removed something")
    pipeline.check_model_file(c, red.filename, red.model)
    c.observe("species", sorted(got))
    c.observe("error", red.error)
    want, err, stopped = oracle(c, w, names, names[1:], limit, 0.0, alg)
    c.check(got == want, "removal order and stopping rule", "order",
            "got %s want %s" % (sorted(got), sorted(want)))
    c.cover("stopped at the limit" if stopped else "all candidates removed")
