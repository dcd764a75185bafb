"""C10: independence of process count and completion order."""

import numpy as np

from symx import core, env
from symx.run import harness
from checks import casework
from checks.casework import KINDS, Cases, PoolWorld, SPECIES

ASSUMPTIONS = casework.ASSUMPTIONS + [
    "worker pools (multiprocessing.Pool and concurrent.futures executors) are replaced by stand-ins "
    "that run jobs on copies of their arguments in an arbitrary order and return or deliver results "
    "as those APIs promise (map, imap, starmap: input order; imap_unordered, as_completed, "
    "callbacks: completion order); pickling and operating-system scheduling are outside the claim",
]


@harness(
    quick=[{"counts": {k: 3}, "what": wh, "threads": (1, 2, 0), "cores": (1, 4)}
           for k in KINDS for wh in ("sample", "evaluate")]
    + [{"counts": {"ignition": 2, "psr": 2, "flame": 2}, "what": wh, "threads": (3, 0),
        "cores": (2, 4)} for wh in ("sample", "evaluate")]
    + [{"counts": {"ignition": 2, "flame": 1}, "what": wh, "threads": (1, 5, 0), "cores": (3,)}
       for wh in ("sample", "evaluate")]
    + [{"counts": {k: 12}, "what": wh, "threads": (1, 2), "cores": (4,)}
       for k in KINDS for wh in ("sample", "evaluate")]
    + [{"counts": {"flame": 103}, "what": "sample", "threads": (2,), "cores": (4,)}],
    thorough=[{"counts": {k: 4}, "what": wh, "threads": (1, 2, 4, 8, 0), "cores": (1, 2, 4, 8)}
              for k in KINDS for wh in ("sample", "evaluate")]
    + [{"counts": {"ignition": 3, "psr": 2, "flame": 3}, "what": wh, "threads": (1, 3, 0),
        "cores": (1, 2, 4)} for wh in ("sample", "evaluate")],
    covers=["serial", "parallel", "all cores but one", "reordered"],
    bounds="up to 3 cases per phenomenon (4 thorough), and 12 or 103 cases of one; process counts 0-8, 1-8 cores, every "
           "completion order of up to 3 jobs (4 representative ones beyond), arbitrary metrics")
def processes(c, counts, what, threads, cores):
    env.install(c)
    env.scratch(c)
    casework.write_model("mech.yaml")
    n = c.choice("num_threads", threads)
    k = c.choice("cores", cores)
    w = Cases(c, counts)
    seen = {}

    def touch(kind, i, sim):
        # autoignition cases in flight at the same time share one folder, so their
        # identifiers (which name their intermediate files) have to differ
        other = seen.setdefault((kind, sim.idx), i)
        c.check(kind != "ignition" or other == i or not p.created,
                "cases running at the same time have different identifiers", "idx")

    w.install(touch)
    p = PoolWorld(c, k)
    p.install()
    orders = []
    inner = p.order

    def order(m):
        o = inner(m)
        orders.append(o)
        return o

    p.order = order
    phase = "small" if counts.get("psr") == 2 else ""
    s = env.mod("sampling")
    args = ("mech.yaml", w.conds["ignition"], w.conds["psr"], w.conds["flame"])
    if what == "sample":
        metrics, data = s.sample(*args, phase_name=phase, num_threads=n)
    else:
        metrics = s.sample_metrics(*args, phase_name=phase, num_threads=n)
    w.check_equal(metrics, [x for q in KINDS for x in w.all_metrics(q, phase)],
                  "metrics are in case order whatever the processes do", "metrics")
    if what == "sample":
        w.check_equal(data, [r for q in KINDS for r in w.all_rows(q, phase)],
                      "sampled data are in case order whatever the processes do", "data")
        c.check(np.shape(data)[1] == 2 + SPECIES[phase], "data columns", "columns")
    c.check(all(m == "mech.yaml" and ph == phase for _, _, m, ph in w.ran),
            "the given model and phase are simulated", "model")
    want = n if n else max(k - 1, 1)
    c.check(all(q <= want for q in p.created), "no more than the requested processes are used",
            "process count", "%s instead of %s" % (p.created, want))
    if want > 1 and sum(counts.values()) > 1:
        c.cover("parallel" if p.created else "serial")
    else:
        c.cover("serial")
    if n == 0:
        c.cover("all cores but one")
    if any(o != tuple(range(len(o))) for o in orders):
        c.cover("reordered")
    c.observe("metrics", list(metrics))


@harness(
    quick=[{"kind": k} for k in KINDS],
    covers=["equivalence ratio", "mole", "mass"],
    bounds="one case of every phenomenon with arbitrary temperature, pressure and equivalence ratio "
           "or reactants by mole or mass, any of three models and phases; autoignition at constant "
           "volume and pressure; arbitrary flame width")
def conditions(c, kind):
    """The reactor, flame or continuation starts from the case's own conditions."""
    from checks import reactors

    env.install(c)
    env.scratch(c)
    made_gas = []

    def gas(model, phase):
        g = reactors.Gas(c, 2, (model, phase))
        made_gas.append(g)
        return g

    s, simm = env.mod("sampling"), env.mod("simulation")
    t = c.real("temperature", 250.0, 3000.0)
    p = c.real("pressure", 0.0, 1e4, lo_open=True)
    mix = c.choice("mixture", ["equivalence ratio", "mole", "mass"])
    kw = {"composition_type": "mass" if mix == "mass" else "mole"}
    if mix == "equivalence ratio":
        kw.update(equivalence_ratio=c.real("phi", 0.0, 50.0, lo_open=True), fuel={"S0": 1.0},
                  oxidizer={"S1": 2.0})
        want = ("phi", kw["equivalence_ratio"], {"S0": 1.0}, {"S1": 2.0}, "mole")
    else:
        kw["reactants"] = {"S0": 0.25, "S1": 0.75}
        want = (mix, {"S0": 0.25, "S1": 0.75})
    model = c.choice("model", ["a.yaml", "b.yaml"])
    phase = c.choice("phase", ["", "gas"])
    seen = []
    width = None
    reacs = reactors.install(c, gas, lambda g: reactors.Trajectory(c, 1, states=False))
    if kind == "ignition":
        vol = c.choice("reactor", ["constant volume", "constant pressure"])
        cond = s.InputIgnition(vol, t, p, **kw)
        sim = simm.IgnitionSimulation(0, cond, model, phase_name=phase)
        sim.setup_case()
        c.check(len(reacs) >= 1 and reacs[-1].kind == vol, "the requested kind of reactor", "kind")
        seen = [reacs[-1].initial] if reacs else []
    elif kind == "flame":
        width = c.real("width", 0.0, 10.0, lo_open=True)
        fw = reactors.FlameWorld(c, 2)
        fw.install()
        cond = s.InputLaminarFlame(t, p, width=width, **kw)
        sim = simm.FlameSimulation(0, cond, model, phase_name=phase)
        sim.setup_case()
        seen = [fw.made[-1].initial] if fw.made else []
        c.check(bool(fw.made) and fw.made[-1].width is not None
                and c.eq(fw.made[-1].width, width), "the requested flame domain width", "width")
    else:
        def trace(g, *a, **k):
            seen.append((g.T, g.P, g.comp))
            g.TPY = 2000.0, 1.0, {"S0": 1.0}  # used as scratch
            raise RuntimeError("no curve")

        env.patch_everywhere(c, env.mod("psr_solver").trace_extinction_curve, trace)
        cond = s.InputPSR(t, p, **kw)
        sim = simm.PSRSimulation(0, cond, model, phase_name=phase)
        sim.setup_case()
        sim.calculate()
        sim.calculate()  # a second evaluation starts from the inlet state again
    c.check(all(g.source == (model, phase) for g in made_gas), "the given model and phase", "source")
    if not seen:
        c.fail("the case is set up", "setup")
    for st in seen:
        c.check(c.eq(st[0], t), "initial temperature", "temperature", str(st))
        c.check(c.eq(st[1], p * 101325.0), "initial pressure", "pressure", str(st))
        comp = tuple(st[2] or ())
        c.check(len(comp) == len(want) and comp[0] == want[0]
                and core.And(*[a == b if isinstance(b, (dict, str)) else c.eq(a, b)
                               for a, b in zip(comp[1:], want[1:])]),
                "initial mixture", "mixture", "%s, want %s" % (comp, want))
        c.observe("state", [st[0], st[1]])
    c.cover(mix)
