"""C04: graph search keeps exactly the species reachable at the threshold."""

from symx import core, env
from symx.run import harness

ASSUMPTIONS = ["edge weights are arbitrary reals in [0, 2] (PFA weights may exceed 1) and "
               "thresholds are positive, as in the reduction loops"]


def reach(c, w, n, targets, th):
    """Reachability by Kleene iteration, symbolic booleans."""
    r = [i in targets for i in range(n)]
    e = [[False if i == j else w[i][j] >= th for j in range(n)] for i in range(n)]
    for _ in range(n - 1):
        r = [core.Or(r[j], *[core.And(r[i], e[i][j]) for i in range(n) if i != j])
             for j in range(n)]
    return r


NAMES = ["H", "O2", "AR", "CH3", "OH"]

COVERS = ["only targets kept", "all kept", "strict subset"]
BOUNDS = ("3 species (4 in the thorough tier), arbitrary non-negative edge weights and positive "
          "thresholds, 1-2 targets, all relative orders and ties")


@harness(
    quick=[{"m": m, "n": 3, "targets": t} for m in ("drg", "pfa")
           for t in ((0,), (2,), (1, 0), (0, 0))],
    thorough=[{"m": m, "n": 3, "targets": t} for m in ("drg", "pfa")
              for t in ((0,), (2,), (1, 0), (0, 0), (0, 1, 2))]
    + [{"m": m, "n": 4, "targets": t} for m in ("drg", "pfa") for t in ((0,), (3, 1))],
    covers=COVERS, bounds=BOUNDS)
def trim(c, m, n, targets):
    env.install(c)
    env.scratch(c)
    w = [[0.0 if i == j else c.real("w_%d_%d" % (i, j), 0.0, 2.0) for j in range(n)]
         for i in range(n)]
    th = c.real("threshold", 0.0, 2.0, lo_open=True)
    mat = env.arr(c, w)
    f = getattr(env.mod(m), "trim_" + m)
    names = NAMES[:n]
    got = f(mat, list(names), [names[t] for t in targets], th)
    got = set(got)
    c.check(got <= set(names), "only species of the model are returned", "unknown species")
    want = reach(c, w, n, targets, th)
    for j in range(n):
        c.check(want[j] if names[j] in got else core.Not(want[j]),
                "kept exactly if reachable at the threshold", "reachability", names[j])
    for i in range(n):
        for j in range(n):
            c.check_eq(mat[i, j], w[i][j], "the matrix is not modified", "mutated")
    c.observe("kept", sorted(got))
    if len(got) == len(set(targets)):
        c.cover(COVERS[0])
    elif len(got) == n:
        c.cover(COVERS[1])
    if len(got) < n:
        c.cover(COVERS[2])


@harness(
    quick=[{"m": m, "n": 3} for m in ("drg", "pfa")],
    thorough=[{"m": m, "n": 3, "targets": t} for m in ("drg", "pfa") for t in ((0,), (1, 2))],
    covers=["smaller at the higher threshold"],
    bounds="3 species, two thresholds")
def monotone(c, m, n, targets=(0,)):
    env.install(c)
    env.scratch(c)
    w = [[0.0 if i == j else c.real("w_%d_%d" % (i, j), 0.0, 2.0) for j in range(n)]
         for i in range(n)]
    lo = c.real("lo", 0.0, 2.0, lo_open=True)
    hi = c.real("hi", 0.0, 2.0, lo_open=True)
    c.assume(lo <= hi)
    f = getattr(env.mod(m), "trim_" + m)
    names = NAMES[:n]
    a = set(f(env.arr(c, w), list(names), [names[t] for t in targets], lo))
    b = set(f(env.arr(c, w), list(names), [names[t] for t in targets], hi))
    c.check(b <= a, "raising the threshold never adds a species", "monotone")
    if b < a:
        c.cover("smaller at the higher threshold")


@harness(
    quick=[{"m": m, "n": n, "order": o, "broken": k} for m in ("drg", "pfa")
           for n, o, k in ((30, "up", 2), (14, "down", 1), (14, "mixed", 2))],
    thorough=[{"m": m, "n": n, "order": o, "broken": k} for m in ("drg", "pfa")
              for n, o, k in ((60, "up", 1), (24, "down", 2), (24, "mixed", 3))],
    covers=["whole chain kept", "chain cut"],
    bounds="chains of 14 to 30 species (60 in the thorough tier) in ascending, descending and "
           "mixed index order, with up to 2 (3) arbitrary weights anywhere along the chain and "
           "an arbitrary shortcut")
def chain(c, m, n, order, broken):
    """Coupling over long paths counts like any other."""
    env.install(c)
    env.scratch(c)
    seq = {"up": list(range(n)), "down": list(range(n))[::-1],
           "mixed": list(range(0, n, 2)) + list(range(1, n, 2))[::-1]}[order]
    th = c.real("threshold", 0.0, 1.0, lo_open=True)
    w = [[0.0] * n for _ in range(n)]
    step = [1.0] * (n - 1)
    for k in range(broken):
        at = c.choice("position %d" % k, list(range(k, n - 1, broken + (n > 20) * 2)))
        step[at] = c.real("weight %d" % k, 0.0, 1.0)
    for k, x in enumerate(step):
        w[seq[k]][seq[k + 1]] = x
    short = c.real("shortcut", 0.0, 1.0)
    w[seq[0]][seq[n // 2]] = short
    names = ["S%d" % i for i in range(n)]
    got = set(getattr(env.mod(m), "trim_" + m)(env.arr(c, w), list(names), [names[seq[0]]], th))
    r = [True] + [False] * (n - 1)
    for k in range(1, n):
        r[k] = core.And(r[k - 1], step[k - 1] >= th)
        if k == n // 2:
            r[k] = core.Or(r[k], short >= th)
    for k in range(n):
        s = names[seq[k]]
        c.check(r[k] if s in got else core.Not(r[k]),
                "kept exactly if reachable at the threshold", "reachability", s)
    c.cover("whole chain kept" if len(got) == n else "chain cut")
