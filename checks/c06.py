"""C06: one reduction step."""

import os

from symx import core, env
from symx.run import harness
from checks import pipeline
from checks.pipeline import World, reach

ASSUMPTIONS = pipeline.ASSUMPTIONS

COVERS = ["nothing removed", "something removed", "safe species kept", "metric zero"]


def setup(c, n, sub):
    env.install(c)
    env.scratch(c)
    names = pipeline.NAMES[:n]
    w = World(c, names)
    w.install()
    pipeline.write_model("mech.yaml", names)
    if sub:
        os.mkdir(sub)
    return names, w


def judge(c, w, names, want, red, base, before, sub):
    got = red.model.species_names
    c.check(got == [s for s in names if s in want], "exactly the required species are kept",
            "species", "got %s, want %s" % (got, sorted(want)))
    if frozenset(got) != w.full:
        err = w.error(got, base)
        c.check(c.eq(red.error, err), "error is that of the simulated reduced model", "error")
        pipeline.check_model_file(c, red.filename, red.model)
        c.check(os.path.dirname(red.filename) == sub, "written to the requested directory", "path")
        c.cover("something removed")
    else:
        c.check(c.eq(red.error, abs(base - 100.0) / base * 100),
                "error of the unreduced model", "error full")
        c.cover("nothing removed")
    c.check(open("mech.yaml").read() == before, "starting model file untouched", "start file")
    c.observe("species", got)
    c.observe("error", red.error)
    if not c.concrete and frozenset(got) != w.full and c.feasible(w.metric(got) == 0):
        c.cover("metric zero")


def weights(c, n, edges, k, hi):
    return [[0.0 if "%d%d" % (i, j) not in edges.split() or i == j
             else c.real("w%d_%d%d" % (k, i, j), 0.0, hi) for j in range(n)] for i in range(n)]


@harness(
    quick=[{"m": m, "n": 4, "edges": ("01 02 13", "03"), "targets": (0,), "sub": ""}
           for m in ("drg", "pfa")]
    + [{"m": m, "n": 4, "edges": ("01 32", "21"), "targets": (3, 0), "sub": "out"}
       for m in ("drg", "pfa")],
    thorough=[{"m": m, "n": 4, "edges": e, "targets": t, "sub": s}
              for m in ("drg", "pfa")
              for e, t, s in ((("01 02 13", "03 12"), (0,), ""), (("01 32", "21 20"), (3, 0), "out"),
                              (("01 12 23", "01", "03"), (0,), "out"))],
    covers=COVERS,
    bounds="4 species, 1-2 targets, 2-3 sampled states with the listed non-zero weights (arbitrary "
           "values in [0, 2]), arbitrary threshold, every subset of always-retained species")
def drg_step(c, m, n, edges, targets, sub):
    names, w = setup(c, n, sub)
    before = open("mech.yaml").read()
    mats = [weights(c, n, e, k, 2.0) for k, e in enumerate(edges)]
    th = c.real("threshold", 0.0, 2.0, lo_open=True)
    base = c.real("baseline", 0.0, 400.0, lo_open=True)
    tn = [names[i] for i in targets]
    safe = [s for s in names if s not in tn and c.flag("safe_" + s)]
    want = set(safe)
    for mat in mats:
        want |= {names[i] for i in reach(mat, n, targets, th)}
    safe_arg = list(safe)
    red = getattr(env.mod(m), "reduce_" + m)(
        "mech.yaml", list(tn), safe_arg, th, [env.arr(c, x) for x in mats], [w.condition()],
        env.arr(c, [base]), path=sub)
    c.check(safe_arg == safe, "the caller's list is not modified", "mutated")
    judge(c, w, names, want, red, base, before, sub)
    if safe:
        c.cover("safe species kept")


@harness(
    quick=[{"n": 4, "sub": ""}, {"n": 3, "sub": "out"}],
    thorough=[{"n": 4, "sub": ""}, {"n": 5, "sub": "out"}],
    covers=COVERS,
    bounds="3-4 species (5 thorough), arbitrary importance values in [0, 1] and threshold, every "
           "subset of always-retained species")
def drgep_step(c, n, sub):
    names, w = setup(c, n, sub)
    before = open("mech.yaml").read()
    th = c.real("threshold", 0.0, 1.0, lo_open=True)
    base = c.real("baseline", 0.0, 400.0, lo_open=True)
    imp = {s: c.real("imp_" + s, 0.0, 1.0) for s in names}
    imp[names[0]] = 1.0  # the target
    safe = [s for s in names[1:] if c.flag("safe_" + s)]
    want = {s for s in names if s in safe or imp[s] >= th}
    safe_arg = list(safe)
    red = env.mod("drgep").reduce_drgep("mech.yaml", safe_arg, th, dict(imp), [w.condition()],
                                        env.arr(c, [base]), path=sub)
    c.check(safe_arg == safe, "the caller's list is not modified", "mutated")
    judge(c, w, names, want, red, base, before, sub)
    if safe:
        c.cover("safe species kept")


@harness(
    quick=[{"m": m} for m in ("drg", "pfa", "drgep")],
    covers=["previous model reused", "smaller model"],
    bounds="3 species, two successive arbitrary thresholds, the first step's model passed as the "
           "previous model of the second")
def two_steps(c, m):
    n = 4
    names, w = setup(c, n, "")
    before = open("mech.yaml").read()
    lo = c.real("lo", 0.0, 1.0, lo_open=True)
    hi = c.real("hi", 0.0, 1.0, lo_open=True)
    c.assume(lo < hi)
    base = 100.0
    wt = [c.real("w_%d" % i, 0.0, 1.0) for i in range(n - 1)]
    safe = [s for s in names[1:] if c.flag("safe_" + s)]
    mod = env.mod(m)
    imp = dict(zip(names, [1.0] + wt))
    mat = [[0.0] + wt] + [[0.0] * n] * (n - 1)
    want = {s for s in names if s in safe or imp[s] >= hi}

    def step(th, prev):
        if m == "drgep":
            return mod.reduce_drgep("mech.yaml", safe + [names[0]], th, dict(imp), [w.condition()],
                                    env.arr(c, [base]), previous_model=prev)
        return getattr(mod, "reduce_" + m)(
            "mech.yaml", [names[0]], list(safe), th, [env.arr(c, mat)], [w.condition()],
            env.arr(c, [base]), previous_model=prev)

    import cantera as ct

    start = env.mod("reduce_model").ReducedModel(model=ct.Solution("mech.yaml"),
                                                 filename="mech.yaml", error=0.0)
    first = step(lo, start)
    red = step(hi, first)
    judge(c, w, names, want, red, base, before, "")
    c.cover("previous model reused" if red is first else "smaller model")


@harness(
    quick=[{"m": m, "states": 60} for m in ("drg", "pfa")],
    thorough=[{"m": m, "states": 400} for m in ("drg", "pfa")],
    covers=["nothing removed", "something removed"], path_seconds=120,
    bounds="60 (400) sampled states of 4 species, one of which (first, last or between) has "
           "arbitrary weights and another one keeps one species; arbitrary threshold")
def many_states(c, m, states):
    names, w = setup(c, 4, "")
    before = open("mech.yaml").read()
    k = c.choice("state", [0, 1, states // 3, states - 2, states - 1])
    mats = [[[0.0] * 4 for _ in range(4)] for _ in range(states)]
    mats[k] = weights(c, 4, "01 12", k, 2.0)
    mats[(k + states // 2) % states][0][3] = 0.5
    th = c.real("threshold", 0.0, 2.0, lo_open=True)
    base = c.real("baseline", 0.0, 400.0, lo_open=True)
    want = set()
    for mat in (mats[k], mats[(k + states // 2) % states]):
        want |= {names[i] for i in reach(mat, 4, (0,), th)}
    red = getattr(env.mod(m), "reduce_" + m)(
        "mech.yaml", [names[0]], [], th, [env.arr(c, x) for x in mats], [w.condition()],
        env.arr(c, [base]))
    judge(c, w, names, want, red, base, before, "")
