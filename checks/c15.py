"""C15: sampling of temperature profiles."""

from fractions import Fraction

import numpy as np

from symx import core, env
from symx.run import harness
from checks import reactors
from checks.reactors import FlameWorld, Gas, Trajectory

ASSUMPTIONS = reactors.ASSUMPTIONS + [
    "cantera.FreeFlame is replaced by a stand-in with one arbitrary solution; h5py is modelled as "
    "an exact in-memory store (real HDF5 in the concrete re-runs)",
    "temperatures are reals no nearer than 1e-6 K to a sampled fraction of the rise, except in "
    "'rounding', which uses IEEE doubles; the total rise is positive",
]


def expected(c, temps, count):
    """Index of the profile point for each fraction, None if there is none (forks)."""
    first, last = temps[0], temps[-1]
    rise = last - first
    out, used = [], set()
    for k in range(1, count + 1):
        thr = first + float(Fraction(k, count)) * rise
        hit = None
        for i, t in enumerate(temps):
            if i in used:
                continue
            if i == len(temps) - 1:
                reached = True if k == count else bool(t >= thr)
            else:
                c.assume(core.Or(t > thr + 1e-6, t < thr - 1e-6))
                reached = bool(t >= thr)
            if reached:
                hit = i
                break
        if hit is not None:
            used.add(hit)
        out.append(hit)
    return out


def check_samples(c, data, temps, pressures, fractions, count):
    ns = len(fractions[0])
    want = expected(c, temps, count)
    c.check(np.shape(data) == (count, 2 + ns), "one row per fraction", "shape",
            str(np.shape(data)))
    if np.shape(data) != (count, 2 + ns):
        return
    for k, i in enumerate(want):
        if i is None:
            c.cover("fraction not reached")
            continue
        row = [temps[i], pressures[i]] + list(fractions[i])
        c.check(core.And(*[c.eq(a, b) for a, b in zip(data[k], row)]),
                "each row is the first unused point that reaches its fraction", "row",
                "row %d: %s, want point %d" % (k, data[k], i))
        c.observe("row%d" % k, [data[k][0], data[k][2]])
    if None not in want:
        c.cover("all rows filled")
    if any(b is not None and a is not None and b < a for a, b in zip(want, want[1:])):
        c.cover("earlier point for a higher fraction")


def set_count(c, kind, count):
    """The simulation class with another number of fractions, and that number."""
    sim = env.mod("simulation")
    if hasattr(sim.BaseSimulation, "num_sample_points"):
        env.setattr_for(c, sim.BaseSimulation, "num_sample_points", count)
    else:
        count = 20
    return getattr(sim, kind), count


@harness(
    quick=[{"points": 5, "count": 2, "free": 5}, {"points": 5, "count": 4, "free": 5},
           {"points": 4, "count": 5, "free": 4}, {"points": 3, "count": 20, "free": 3},
           {"points": 24, "count": 20, "free": 2}, {"points": 45, "count": 20, "free": 1},
           {"points": 300, "count": 20, "free": 1}],
    thorough=[{"points": 7, "count": 4, "free": 7}, {"points": 8, "count": 3, "free": 8},
              {"points": 6, "count": 5, "free": 6}, {"points": 26, "count": 20, "free": 4},
              {"points": 5, "count": 20, "free": 5}],
    covers=["all rows filled", "fraction not reached"], path_seconds=60,
    bounds="flame profiles of up to 5 arbitrary points (8 thorough), rising or not, with 2-5 "
           "fractions, and of up to 300 points with the real 20 fractions of which a few are "
           "arbitrary; arbitrary pressure and mass fractions")
def flame(c, points, count, free):
    env.install(c)
    env.scratch(c)
    w = FlameWorld(c, points, speed=1.0, monotone=False)
    # points that are not arbitrary rise steadily
    for i in range(points):
        if points > 20 and not (points // 2 <= i < points // 2 + free):
            w.T[i] = 300.0 + 40.0 * i * min(1.0, 45.0 / points) + (3.0 if i % 2 else 0.0)
        if points > 20:
            w.v[i] = 1.0
            w.Y[i] = [0.5 + i / 1024.0, 0.5 - i / 1024.0]
    c.assume(w.T[-1] - w.T[0] >= 1.0)
    w.install()
    reactors.install(c, lambda m, p: Gas(c))
    cls, count = set_count(c, "FlameSimulation", count)
    cond = env.mod("sampling").InputLaminarFlame(300.0, 1.0, reactants={"S0": 1.0})
    sim = cls(0, cond, "mech.yaml")
    sim.setup_case()
    speed, data = sim.process_results()
    check_samples(c, data, w.T, [w.P] * points, w.Y, count)


@harness(
    quick=[{"steps": 3, "count": 2}, {"steps": 3, "count": 4}, {"steps": 2, "count": 20}],
    thorough=[{"steps": 5, "count": 4}, {"steps": 5, "count": 3}, {"steps": 4, "count": 20}],
    covers=["all rows filled", "fraction not reached"], path_seconds=60,
    bounds="autoignition profiles of up to 3 steps (5 thorough) with arbitrary temperatures, "
           "pressures and mass fractions, 2, 4 and 20 fractions")
def ignition(c, steps, count):
    env.install(c)
    env.scratch(c)
    t0 = c.real("T_init", 300.0, 3000.0)
    tr = Trajectory(c, steps, t0=t0, states=False)
    tr.t = [float(k) for k in range(steps + 1)]
    c.assume(core.Or(*[t >= t0 + 401.0 for t in tr.T[1:]]))
    c.assume(tr.T[-1] - t0 >= 1.0)
    h5 = reactors.H5(c)
    if not c.concrete:
        h5.install()
    reactors.install(c, lambda m, p: Gas(c), lambda gas: tr)
    cls, count = set_count(c, "IgnitionSimulation", count)
    cond = env.mod("sampling").InputIgnition("constant volume", t0, 1.0, end_time=float(steps),
                                             reactants={"S0": 1.0})
    sim = cls(0, cond, "mech.yaml")
    sim.setup_case()
    sim.run_case()
    delay, data = sim.process_results()
    check_samples(c, data, tr.T, tr.P, tr.Y, count)


@harness(
    quick=[{"count": 2}],
    covers=["final point"], path_seconds=200, timeout_ms=100000,
    bounds="two fractions; arbitrary IEEE doubles as initial (200-400 K) and final (2500-2550 K) "
           "temperature, with every rounding of the sampling arithmetic")
def rounding(c, count):
    """The final temperature counts as the full rise, whatever the rounding."""
    env.install(c)
    env.scratch(c)
    w = FlameWorld(c, count + 1, speed=1.0, monotone=False)
    first = c.double("first", 200.0, 400.0)
    last = c.double("last", 2500.0, 2550.0)
    w.v = [1.0] * (count + 1)
    w.Y = [[0.5 + i / 256.0, 0.5 - i / 256.0] for i in range(count + 1)]
    w.P = 101325.0
    w.T = [first] + [2490.0 + i / 1024.0 for i in range(count - 1)] + [last]
    w.install()
    reactors.install(c, lambda m, p: Gas(c))
    cls, count = set_count(c, "FlameSimulation", count)
    cond = env.mod("sampling").InputLaminarFlame(300.0, 1.0, reactants={"S0": 1.0})
    sim = cls(0, cond, "mech.yaml")
    sim.setup_case()
    _, data = sim.process_results()
    c.check(np.shape(data) == (count, 4), "one row per fraction", "shape", str(np.shape(data)))
    if np.shape(data) == (count, 4):
        c.check(data[count - 1][0] == last, "the final temperature reaches the full rise", "final",
                "row %s of the profile from %s to %s" % (
                    list(data[count - 1][1:]), first if c.concrete else "?",
                    last if c.concrete else "?"))
        c.check(data[count - 1][1] == 101325.0, "the final row is complete", "final row")
        for k in range(count - 1):
            c.check(data[k][1] != 0.0, "no row is unset", "unset", "row %d" % k)
    c.cover("final point")
