"""C12: minimum flame speed and contained failures."""

import numpy as np

from symx import core, env
from symx.run import harness
from checks import reactors
from checks.reactors import FlameWorld, Gas

ASSUMPTIONS = ["cantera.FreeFlame is replaced by a stand-in with one arbitrary solution (velocity, "
               "temperature, mass fractions per grid point, pressure) that exists only after solve(), "
               "or a CanteraError from solve(); its velocity at the first grid point is the flame "
               "speed, as Cantera documents"] + reactors.ASSUMPTIONS[:1]


def prepare(c, points):
    env.install(c)
    env.scratch(c)
    fails = c.flag("solver_fails")
    speed = c.real("speed", -5.0, 100.0)
    w = FlameWorld(c, points, fails=fails, speed=speed)
    w.install()
    reactors.install(c, lambda m, p: Gas(c))
    kind = c.choice("floor", ["default", "zero", "given", "integer zero"])
    floor = {"default": None, "zero": 0.0, "integer zero": 0}.get(kind, 1)
    if kind == "given":
        floor = c.real("min_flame_speed", 0.0, 2.0)
    active = 0.05 if kind == "default" else floor
    cond = env.mod("sampling").InputLaminarFlame(300.0, 1.0, reactants={"S0": 1.0})
    return w, fails, speed, floor, active, cond


def check_rows(c, w, data):
    for row in data:
        c.check(core.Or(core.And(*[c.eq(x, 0.0) for x in row]),
                        *[core.And(c.eq(row[0], w.T[i]), c.eq(row[1], w.P),
                                   *[c.eq(a, b) for a, b in zip(row[2:], w.Y[i])])
                          for i in range(len(w.T))]),
                "sampled rows are states of the solved flame", "rows", str(row))


COVERS = ["flame", "no flame", "solver failure", "floor zero"]


@harness(quick=[{"points": 2}], thorough=[{"points": 5}], covers=COVERS,
         bounds="arbitrary flame speed in [-5, 100] m/s, default, zero or arbitrary minimum speed, "
                "solver success or failure, flame profiles of 2 points (5 thorough)")
def baseline(c, points):
    w, fails, speed, floor, active, cond = prepare(c, points)
    sim = env.mod("simulation").FlameSimulation(0, cond, "mech.yaml", min_flame_speed=floor)
    c.check(c.eq(env.mod("simulation").FlameSimulation(1, cond, "mech.yaml").min_flame_speed, 0.05),
            "one case's minimum does not affect another", "leak")
    sim.setup_case()
    how = c.choice("how", ["run_case", "skip_data", "process_results"])
    try:
        if how == "run_case":
            got = sim.run_case()
        elif how == "skip_data":
            got = sim.process_results(skip_data=True)
        else:
            got, data = sim.process_results()
    except RuntimeError:
        c.check(core.Or(fails, speed <= active), "a flame above the minimum is accepted", "raised")
        c.cover("solver failure" if fails else "no flame")
        return
    c.check(not fails, "a solver failure of the baseline raises RuntimeError", "failure")
    if fails:
        return
    c.check(speed > active, "no flame raises RuntimeError", "accepted",
            "%s <= %s" % (speed, active))
    c.check(c.eq(got, speed), "the flame speed is returned unchanged", "speed", str(got))
    c.observe("speed", got)
    if how == "process_results":
        check_rows(c, w, data)
    c.cover("flame")
    if not core.is_sym(active) and active == 0:
        c.cover("floor zero")


@harness(quick=[{}], covers=COVERS,
         bounds="as for the baseline")
def candidate(c):
    w, fails, speed, floor, active, cond = prepare(c, 2)
    sim = env.mod("simulation").FlameSimulation(0, cond, "mech.yaml", min_flame_speed=floor)
    sim.setup_case()
    got = sim.calculate()
    want = 0.0 if fails else core.Ite(speed <= active, 0.0, speed)
    c.check(c.eq(got, want), "a candidate's speed is returned unchanged above the minimum, else 0",
            "speed", "%s for %s, minimum %s" % (got, speed, active))
    c.observe("speed", got)
    if fails:
        c.cover("solver failure")
    elif c.concrete or c.feasible(got == 0):
        c.cover("no flame")
    if not fails and (c.concrete or c.feasible(got > 0)):
        c.cover("flame")
        if not core.is_sym(active) and active == 0:
            c.cover("floor zero")


@harness(quick=[{}], covers=COVERS,
         bounds="the same, reached through sampling and metric evaluation of one flame case")
def through_sampling(c):
    w, fails, speed, floor, active, cond = prepare(c, 2)
    s = env.mod("sampling")
    how = c.choice("how", ["sample", "evaluate"])
    kw = {} if floor is None and c.flag("omitted") else {"min_flame_speed": floor}
    if how == "evaluate":
        got = s.sample_metrics("mech.yaml", [], [], [cond], **kw)
        want = 0.0 if fails else core.Ite(speed <= active, 0.0, speed)
        c.check(np.shape(got) == (1,) and c.eq(got[0], want),
                "a candidate's speed is returned unchanged above the minimum, else 0", "speed",
                "%s for %s, minimum %s" % (got, speed, active))
        return
    try:
        got, data = s.sample("mech.yaml", [], [], [cond], **kw)
    except RuntimeError:
        c.check(core.Or(fails, speed <= active), "a flame above the minimum is accepted", "raised")
        c.cover("solver failure" if fails else "no flame")
        return
    c.check(not fails, "a solver failure of the baseline raises RuntimeError", "failure")
    if fails:
        return
    c.check(speed > active, "no flame raises RuntimeError", "accepted")
    c.check(c.eq(got[0], speed), "the flame speed is returned unchanged", "speed", str(got))
    check_rows(c, w, data[:3])
    c.cover("flame")
    if not core.is_sym(active) and active == 0:
        c.cover("floor zero")
