"""C11: ignition delay and the saved profile."""

import os

import numpy as np

from symx import core, env
from symx.run import harness
from checks import reactors
from checks.reactors import Gas, Net, Trajectory

ASSUMPTIONS = reactors.ASSUMPTIONS + [
    "h5py is modelled as an exact in-memory store; the concrete re-runs use real HDF5 files",
    "steady state means Cantera's advance_to_steady_state criterion (feature-scaled residual below "
    "10 rtol), the one the code documents",
]


def simulation(c, cond, h5=None, idx=0, path=""):
    return env.mod("simulation").IgnitionSimulation(idx, cond, "mech.yaml", path=path)


def condition(t0, kind, end=0.0, steps=10000):
    return env.mod("sampling").InputIgnition(kind, t0, 1.0, end_time=end, max_steps=steps,
                                             reactants={"S0": 1.0})


def first_ignition(tr, n):
    """First step (forking) at or above T0 + 400, 0 if none up to step n."""
    for k in range(1, n + 1):
        if tr.T[k] >= tr.T[0] + 400.0:
            return k
    return 0


def check_profile(c, h5, sim, tr, n):
    """The saved file holds steps 0..n."""
    if not os.path.isfile(sim.save_file):
        c.fail("the profile is saved", "profile", str(sim.save_file))
        return
    ds = reactors.datasets(c, h5, sim.save_file)
    for what, want in (("times", tr.t), ("temperatures", tr.T), ("pressures", tr.P),
                       ("mass fractions", tr.Y)):
        want = np.array(want[:n + 1], dtype=object)
        good = [c.eq(d, want) for d in ds if np.shape(d) == np.shape(want)]
        c.check(core.Or(*good) if good else False,
                "the saved profile has the initial state and every step in order", "profile " + what,
                "%s: %s" % (what, [np.shape(d) for d in ds]))


def common(c, n, kind, mode, fail, n_vars, end_max=10.0):
    env.install(c)
    env.scratch(c)
    t0 = c.real("T_init", 300.0, 3000.0)
    tr = Trajectory(c, n, t0=t0, n_vars=n_vars, fail=fail, states=mode == "steady")
    h5 = reactors.H5(c)
    if not c.concrete:
        h5.install()
    reactors.install(c, lambda m, p: Gas(c), lambda gas: tr)
    if mode == "end":
        end = c.real("end_time", 0.0, end_max, lo_open=True)
        c.assume(tr.t[n] >= end)
        cond = condition(t0, kind, end=end, steps=c.choice("max_steps", [1, 10000]))
    else:
        end = None
        cond = condition(t0, kind, steps=n)
    return tr, h5, cond, end


def steps_taken(tr, n, end):
    """Number of steps a complete baseline run takes, and whether it completes."""
    for k in range(1, n + 1):
        if end is not None:
            if tr.t[k] >= end:
                return k, True
        else:
            if tr.steady(k, Net.rtol, Net.atol):
                return k, True
    return n, False


Q = [{"n": 3, "kind": "constant volume", "mode": "end", "fail": True, "n_vars": 1},
     {"n": 2, "kind": "constant pressure", "mode": "end", "fail": True, "n_vars": 1},
     {"n": 3, "kind": "constant volume", "mode": "steady", "fail": True, "n_vars": 1},
     {"n": 1, "kind": "constant pressure", "mode": "steady", "fail": False, "n_vars": 1},
     {"n": 2, "kind": "constant pressure", "mode": "steady", "fail": False, "n_vars": 4}]
T = [{"n": 5, "kind": "constant volume", "mode": "end", "fail": True, "n_vars": 1},
     {"n": 4, "kind": "constant pressure", "mode": "steady", "fail": True, "n_vars": 1},
     {"n": 5, "kind": "constant volume", "mode": "steady", "fail": False, "n_vars": 1},
     {"n": 3, "kind": "constant pressure", "mode": "steady", "fail": True, "n_vars": 4}]
BOUNDS = ("trajectories of up to 3 steps (5 thorough) with arbitrary temperatures, step sizes, "
          "pressures, mass fractions and 1 or 4 solver state variables, integrator failure at any step, "
          "end-time and steady-state modes, arbitrary initial temperature and end time")


@harness(quick=Q, thorough=T, bounds=BOUNDS,
         covers=["ignites", "no ignition", "integrator failure", "steps used up",
                 "ignites in the first step", "ignites in the last step"])
def baseline(c, n, kind, mode, fail, n_vars):
    tr, h5, cond, end = common(c, n, kind, mode, fail, n_vars)
    sim = simulation(c, cond)
    sim.setup_case()
    taken, complete = steps_taken(tr, n, end)
    broken = bool(tr.fail) and tr.fail <= taken
    k = first_ignition(tr, taken)
    try:
        delay = sim.run_case()
    except RuntimeError:
        c.check(broken or not complete or not k, "an igniting baseline run succeeds", "raised")
        c.cover("integrator failure" if broken else "steps used up" if not complete
                else "no ignition")
        return
    c.check(not broken, "an integrator failure of the baseline raises RuntimeError", "failure")
    c.check(broken or complete, "a baseline run that uses up its steps raises RuntimeError", "steps")
    c.check(broken or not complete or k, "a baseline without ignition raises RuntimeError", "none")
    if broken or not complete or not k:
        return
    c.check(c.eq(delay, tr.t[k]), "the delay is the time of the first step 400 K above the start",
            "delay", "%s, want %s" % (delay, tr.t[k]))
    check_profile(c, h5, sim, tr, taken)
    c.observe("delay", delay)
    again = sim.process_results(skip_data=True)
    c.check(c.eq(again, tr.t[k]), "the delay recomputed from the saved profile agrees",
            "recomputed", "%s, want %s" % (again, tr.t[k]))
    got = sim.process_results()
    c.check(len(got) == 2 and c.eq(got[0], tr.t[k]), "sampling reports the same delay", "sampled")
    c.cover("ignites")
    if k == 1:
        c.cover("ignites in the first step")
    if k == taken:
        c.cover("ignites in the last step")


@harness(quick=Q, thorough=T, bounds=BOUNDS,
         covers=["ignites", "no ignition", "integrator failure", "ignites in the last step"])
def candidate(c, n, kind, mode, fail, n_vars):
    tr, h5, cond, end = common(c, n, kind, mode, fail, n_vars)
    sim = simulation(c, cond)
    sim.setup_case()
    limit = n
    if end is not None:
        limit = steps_taken(tr, n, end)[0]
    k = first_ignition(tr, limit)
    broken = bool(tr.fail) and tr.fail <= (k or limit)
    try:
        delay = sim.calculate()
    except Exception as ex:
        c.fail("evaluating a candidate never raises", "raised", repr(ex))
        return
    if broken or not k:
        c.check(c.eq(delay, 0.0), "no ignition or an integrator failure gives a delay of zero",
                "zero", str(delay))
        c.cover("integrator failure" if broken else "no ignition")
    else:
        c.check(c.eq(delay, tr.t[k]),
                "the delay is the time of the first step 400 K above the start", "delay",
                "%s, want %s" % (delay, tr.t[k]))
        c.cover("ignites")
        if k == limit:
            c.cover("ignites in the last step")
    c.observe("delay", delay)


@harness(quick=[dict(q, fail=True) for q in Q[:3]], thorough=[dict(q) for q in T], bounds=BOUNDS,
         covers=["ignites"])
def stop_at_ignition(c, n, kind, mode, fail, n_vars):
    """Stopping at ignition reports the same delay as the full run would."""
    tr, h5, cond, end = common(c, n, kind, mode, fail, n_vars)
    sim = simulation(c, cond)
    sim.setup_case()
    taken, complete = steps_taken(tr, n, end)
    k = first_ignition(tr, taken)
    broken = bool(tr.fail) and tr.fail <= (k or taken)
    try:
        delay = sim.run_case(stop_at_ignition=True)
    except RuntimeError:
        c.check(broken or not k, "an igniting run succeeds", "raised")
        return
    c.check(not broken and k and c.eq(delay, tr.t[k]),
            "the delay is the time of the first step 400 K above the start", "delay",
            "%s" % (delay,))
    c.cover("ignites")


@harness(
    quick=[{"n": 3}], thorough=[{"n": 6}], covers=["ignites", "no ignition"],
    bounds="saved profiles of up to 3 steps after the initial state (6 thorough), arbitrary values, "
           "two cases saved in one folder")
def saved_profile(c, n):
    """Processing saved profiles: each case reads its own file."""
    env.install(c)
    env.scratch(c)
    h5 = reactors.H5(c)
    if not c.concrete:
        h5.install()
    os.mkdir("out")
    t0 = c.real("T_init", 300.0, 3000.0)
    tr = Trajectory(c, n, t0=t0, states=False)
    other = c.real("T_other", 300.0, 3000.0)
    cur = {}
    reactors.install(c, lambda m, p: Gas(c), lambda gas: cur["tr"])
    sims = []
    fast = Trajectory.__new__(Trajectory)
    fast.__dict__.update(tr.__dict__)
    fast.t = [0.0] + [100.0 + k for k in range(n)]
    fast.T = [other] + [other + 500.0] * n
    for idx, t in ((0, tr), (1, fast)):
        cur["tr"] = t
        # reach the last step: an end time no step before it attains
        sim = simulation(c, condition(t.T[0], "constant volume", end=(t.t[n - 1] + t.t[n]) / 2),
                         idx=idx, path="out")
        sim.setup_case()
        try:
            sim.run_case()
            ok = True
        except RuntimeError:
            ok = False
        sims.append((sim, t, ok))
    for sim, t, ok in sims:
        if not ok:
            c.cover("no ignition")
            continue
        k = first_ignition(t, n)
        d = sim.process_results(skip_data=True)
        c.check(c.eq(d, t.t[k] if k else 0.0), "each case's delay comes from its own profile",
                "own profile", str(d))
        c.cover("ignites")
        c.observe("delay", d)


class Long(Trajectory):
    """A slow case: thousands of uneventful steps, then an arbitrary one."""

    def __init__(self, c, n, at, t0):
        self.c = c
        self.n = n
        self.n_vars = 1
        self.fail = 0
        self.doubles = False
        self.T = [t0] * at + [c.real("T_event", 300.0, 6000.0)] + [t0] * (n - at)
        dt = c.real("dt_event", 0.0, 10.0, lo_open=True)
        self.t = [0.25 * k for k in range(at)]
        self.t += [self.t[-1] + dt + 0.25 * k for k in range(n - at + 1)]
        self.P = [101325.0] * (n + 1)
        self.Y = [[0.5, 0.25]] * (n + 1)
        # the solver state keeps moving until shortly before the last step
        self.s = [[float(k % 2)] for k in range(n - 1)] + [[1.0], [1.0]]


LONG = [{"at": a, "steps": s, "n": 12000, "mode": m}
        for a, s, m in ((11000, 12000, "steady"), (11000, 20000, "steady"),
                        (9990, None, "steady"), (11000, 10000, "end"), (11000, 50, "end"))]


@harness(
    quick=LONG, covers=["ignites", "no ignition"], validate=40,
    thorough=LONG + [{"at": 30000, "steps": 40000, "n": 31000, "mode": "steady"},
                     {"at": 30000, "steps": 1, "n": 31000, "mode": "end"}],
    bounds="runs of 12,000 steps (31,000 thorough), one of which, after 9,990 to 11,000 steps, has "
           "an arbitrary temperature and length; permitted steps below and above that, default 10,000")
def long_run(c, at, steps, n, mode):
    """The number of permitted steps is the case's own (and none with an end time)."""
    env.install(c)
    env.scratch(c)
    t0 = 1000.0
    tr = Long(c, n, at, t0)
    h5 = reactors.H5(c)
    if not c.concrete:
        h5.install()
    reactors.install(c, lambda m, p: Gas(c), lambda gas: tr)
    cond = condition(t0, "constant volume", end=0.0 if mode == "steady" else 0.245 * n,
                     steps=10000 if steps is None else steps)
    sim = simulation(c, cond)
    sim.setup_case()
    hot = bool(tr.T[at] >= t0 + 400.0)
    short = mode == "steady" and steps is None  # uses up its steps before it is steady
    if mode == "end":
        c.assume(tr.t[n] >= 0.245 * n)
        c.assume(tr.t[at] < 0.245 * n)
    if c.flag("candidate"):
        try:
            got = sim.calculate()
        except Exception as ex:
            c.fail("evaluating a candidate never raises", "raised", repr(ex))
            return
        c.check(c.eq(got, tr.t[at] if hot else 0.0),
                "the delay is the time of the first step 400 K above the start", "long delay",
                "%s, want %s" % (got, tr.t[at] if hot else 0.0))
    else:
        try:
            got = sim.run_case()
        except RuntimeError:
            c.check(short or not hot, "an igniting baseline run succeeds", "long raised")
            c.cover("no ignition")
            return
        c.check(not short, "a baseline run that uses up its steps raises RuntimeError", "long steps")
        c.check(hot, "a baseline without ignition raises RuntimeError", "long none")
        if short or not hot:
            return
        c.check(c.eq(got, tr.t[at]), "the delay is the time of the first step 400 K above the start",
                "long delay", str(got))
        again = sim.process_results(skip_data=True)
        c.check(c.eq(again, tr.t[at]), "the delay recomputed from the saved profile agrees",
                "long recomputed", str(again))
    c.cover("ignites" if hot else "no ignition")
