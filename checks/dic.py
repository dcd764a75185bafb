"""Shared driver for the direct-interaction-coefficient checks (C01-C03)."""

import math

from symx import core, env
from checks import fakes


def mechanism(c, ns, nr, free):
    """A fixed sparse mechanism: catalysts, repeated species, one inert species; `free` arbitrary
    net rates, the others fixed."""
    react = [[0.0] * nr for _ in range(ns)]
    prod = [[0.0] * nr for _ in range(ns)]
    used = ns - 1
    for j in range(nr):
        for m, (side, step) in enumerate(((react, 1), (react, 3), (prod, 2), (prod, 5))):
            i = (j * (2 + m) + step * (1 + j // used)) % used
            side[i][j] += (1.0, 0.5, 2.0)[(j + m) % 3] if m % 2 else 1.0
        if j % 4 == 3:  # a catalyst
            i = (j + 2) % used
            react[i][j] += 1.0
            prod[i][j] += 1.0
    net = []
    for j in range(nr):
        if j % (nr // free) == 0 and j // (nr // free) < free:
            net.append(c.real("q_%d" % j))
            c.assume(net[-1] != 0)
        else:
            net.append((1 + j % 5) / 4.0 * (-1.0) ** (j // 2))
    return react, prod, net, [1.0 + j for j in range(nr)]


def run(c, module, func, ns, nr, values=None, free=None):
    env.install(c)
    env.scratch(c)
    react, prod, net, stale = mechanism(c, ns, nr, free) if free else fakes.kinetics(c, ns, nr, values)
    sol = fakes.KineticsFake(c, react, prod, net, stale)
    T = c.real("T", 200.0, 5000.0)
    P = c.real("P", 1.0, 1e9)
    Y = [c.real("Y_%d" % i, 0.0, 1.0) for i in range(ns)]
    f = getattr(env.mod(module), func)
    out = f((T, P, env.arr(c, Y)), sol)
    c.check(out.shape == (ns, ns), "matrix is n_species x n_species", "shape")
    c.check(sol.state_set(), "state is set on the solution", "state")
    c.check(core.And(c.eq(sol.T, T), c.eq(sol.P, P), c.eq(env.arr(c, list(sol.Y)), env.arr(c, Y))),
            "rates are evaluated at the given T, P, Y", "state")
    for i in range(ns):
        for j in range(ns):
            finite(c, out[i, j])
    c.observe("matrix", out)
    return sol, net, react, prod, out


def finite(c, x):
    if not core.is_sym(x):
        c.check(math.isfinite(float(x)), "entry is finite", "finite")


def cover(c, den, net):
    if c.concrete:
        return
    if c.feasible(den != 0):
        c.cover("nonzero")
    if c.feasible(core.And(den == 0, *[q != 0 for q in net])):
        c.cover("zero denominator")
    if c.feasible(core.And(*[q == 0 for q in net])):
        c.cover("all rates zero")


def quot(c, num, den):
    if c.concrete:
        return num / den if den != 0 else 0.0
    if not core.is_sym(den):
        return num / den if den != 0 else 0.0
    if not core.is_sym(num) and num == 0:
        return 0.0
    return core.Ite(den != 0, num / den, 0.0)


def equal(c, x, want, a, b, exact=True):
    """Fixed rates are combined in floating point before the solver sees them."""
    ok = c.eq(x, want) if exact else abs(x - want) <= 1e-9
    c.check(ok, "weight equals its definition", "definition", "weight S%d->S%d" % (a, b))


def compare(c, x, num, den, a, b, exact=True, top=1):
    equal(c, x, quot(c, num, den), a, b, exact)
    slack = 0.0 if exact else 1e-9
    c.check(core.And(c.le(0.0, x), c.le(x, top + slack)), "weight lies in [0, %d]" % top, "range")
