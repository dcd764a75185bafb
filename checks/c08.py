"""C08: the error of a candidate model."""

from symx import core, env
from symx.nparr import e_max
from symx.run import harness

ASSUMPTIONS = ["original metrics are positive (the baseline runs raise otherwise, C11-C13); "
               "candidate metrics are arbitrary reals"]


@harness(
    quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4, 6)],
    covers=["some metric zero", "no metric zero", "candidate larger", "candidate smaller"],
    bounds="1-3 metrics (up to 6 in the thorough tier), arbitrary real values")
def error(c, n):
    env.install(c)
    env.scratch(c)
    o = [c.real("orig_%d" % i, 0.0, None, lo_open=True) for i in range(n)]
    t = [c.real("test_%d" % i) for i in range(n)]
    ao, at = env.arr(c, o), env.arr(c, t)
    e = env.mod("sampling").calculate_error(ao, at)
    zero = core.Or(*[x == 0 for x in t])
    want = None
    for a, b in zip(o, t):
        d = 100 * (abs(a - b) / a)
        want = d if want is None else e_max(want, d)
    c.check(core.Implies(zero, c.eq(e, 100.0)), "error is exactly 100 if a metric is zero", "zero")
    c.check(core.Or(zero, c.eq(e, want)), "error is the largest relative deviation", "max")
    for a, b, x, y in zip(o, t, ao, at):
        c.check(core.And(c.eq(x, a), c.eq(y, b)), "inputs are not modified", "mutated")
    c.observe("error", e)
    if not c.concrete:
        if c.feasible(zero):
            c.cover("some metric zero")
        else:
            c.cover("no metric zero")
        if c.feasible(t[0] > o[0]):
            c.cover("candidate larger")
        if c.feasible(core.And(t[0] < o[0], t[0] > 0)):
            c.cover("candidate smaller")


@harness(
    quick=[{"n": 75}], thorough=[{"n": 75}, {"n": 250}],
    covers=["some metric zero", "no metric zero"], path_seconds=60,
    bounds="75 metrics (250 in the thorough tier), of which any one of seven spread over the list is "
           "arbitrary and the others are fixed")
def many(c, n):
    env.install(c)
    env.scratch(c)
    k = c.choice("which", [0, 1, 10, n // 2, 63, n - 2, n - 1])
    o = [2.0 ** (i % 7 - 3) for i in range(n)]
    t = [x * (1.0 + (i % 5 - 2) / 64.0) for i, x in enumerate(o)]
    o[k] = c.real("orig", 0.0, None, lo_open=True)
    t[k] = c.real("test")
    e = env.mod("sampling").calculate_error(env.arr(c, o), env.arr(c, t))
    zero = t[k] == 0
    d = 100 * (abs(o[k] - t[k]) / o[k])
    want = e_max(d, 100.0 / 32.0)
    c.check(core.Implies(zero, c.eq(e, 100.0)), "error is exactly 100 if a metric is zero", "zero")
    c.check(core.Or(zero, abs(e - want) <= 1e-9 * (1 + abs(want))),
            "error is the largest relative deviation", "max")
    c.observe("error", e)
    if not c.concrete:
        if c.feasible(zero):
            c.cover("some metric zero")
        if c.feasible(core.Not(zero)):
            c.cover("no metric zero")
