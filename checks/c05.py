"""C05: DRGEP overall importance coefficients."""

import itertools

from symx import core, env
from symx.nparr import e_max
from symx.run import harness

ASSUMPTIONS = ["direct interaction coefficients lie in [0, 1] with a zero diagonal (that is C02)"]

NAMES = ["H2", "O", "N2", "CO", "HO2"]


def best(ws, n, targets, j):
    """Largest product over simple paths from a target to j (cycles cannot help
    since weights are at most 1)."""
    v = 0.0
    for w in ws:
        for t in set(targets):
            if t == j:
                return 1.0
            mid = [i for i in range(n) if i not in (t, j)]
            for k in range(len(mid) + 1):
                for p in itertools.permutations(mid, k):
                    path = (t,) + p + (j,)
                    x = 1.0
                    for a, b in zip(path, path[1:]):
                        x = x * w[a][b]
                    if core.is_sym(x) or x != 0:
                        v = e_max(v, x)
    return v


@harness(
    quick=[{"n": 3, "targets": (0,), "states": 1}, {"n": 3, "targets": (2,), "states": 1},
           {"n": 3, "targets": (0, 1), "states": 1}, {"n": 3, "targets": (1, 0), "states": 1},
           {"n": 2, "targets": (0,), "states": 2}, {"n": 2, "targets": (1,), "states": 3},
           {"n": 3, "targets": (0,), "states": 2, "edges": ("01 12", "01 02")},
           {"n": 4, "targets": (0,), "states": 1, "edges": ("01 02 12 13 23",)},
           {"n": 4, "targets": (0, 3), "states": 1, "edges": ("01 12 31 32",)}],
    thorough=[{"n": 3, "targets": (0,), "states": 1}, {"n": 3, "targets": (2,), "states": 1},
              {"n": 3, "targets": (0, 1), "states": 1}, {"n": 3, "targets": (1, 0), "states": 1},
              {"n": 3, "targets": (0, 1, 2), "states": 1},
              {"n": 2, "targets": (0,), "states": 2}, {"n": 2, "targets": (1,), "states": 3},
              {"n": 3, "targets": (0,), "states": 2, "edges": ("01 12 02", "01 02 21")},
              {"n": 3, "targets": (0, 2), "states": 2, "edges": ("01 12 02", "01 21")},
              {"n": 4, "targets": (0,), "states": 1, "edges": ("01 02 12 13 23 03",)},
              {"n": 4, "targets": (0,), "states": 1, "edges": ("01 02 12 21 13 23",)},
              {"n": 4, "targets": (0,), "states": 1, "edges": ("01 12 20 23 03",)},
              {"n": 4, "targets": (0, 3), "states": 1, "edges": ("01 12 31 32 02",)},
              {"n": 5, "targets": (0,), "states": 1, "edges": ("01 12 23 34 02 24",)}],
    covers=["indirect path best", "direct edge best", "unreached species", "target"],
    bounds="3 species with 1-2 targets in one state, 2 species in 2-3 states, 3-5 species on the "
           "listed sparse edge sets; arbitrary weights in [0, 1] incl. 0, 1 and ties",
    timeout_ms=20000)
def importance(c, n, targets, states, edges=None):
    env.install(c)
    env.scratch(c)
    ws = [[[0.0 if i == j or (edges and "%d%d" % (i, j) not in edges[s].split())
            else c.real("w%d_%d_%d" % (s, i, j), 0.0, 1.0) for j in range(n)]
           for i in range(n)] for s in range(states)]
    names = NAMES[:n]
    got = env.mod("drgep").get_importance_coeffs(
        list(names), [names[t] for t in targets], [env.arr(c, w) for w in ws])
    c.check(set(got) == set(names), "every species of the model gets a value", "keys")
    for j in range(n):
        x = got[names[j]]
        if j in targets:
            c.check_eq(x, 1.0, "targets have importance exactly 1", "target")
            c.cover("target")
            continue
        c.check_eq(x, best(ws, n, targets, j), "importance is the best path product", "product",
                   names[j])
        if not core.is_sym(x) and x == 0:
            c.cover("unreached species")
    c.observe("importance", [got[s] for s in names])
    if not c.concrete and n == 3 and len(targets) == 1 and not edges:
        t = targets[0]
        j, m = [i for i in range(n) if i != t]
        w = ws[0]
        if c.feasible(w[t][j] < w[t][m] * w[m][j]):
            c.cover("indirect path best")
        if c.feasible(w[t][j] > w[t][m] * w[m][j]):
            c.cover("direct edge best")


@harness(
    quick=[{"n": 24, "order": "up", "weight": 1.0}, {"n": 16, "order": "down", "weight": 0.5},
           {"n": 16, "order": "mixed", "weight": 0.125}],
    thorough=[{"n": 60, "order": "up", "weight": 1.0}, {"n": 40, "order": "down", "weight": 0.5},
              {"n": 40, "order": "mixed", "weight": 0.125}],
    covers=["shortcut best", "chain best"],
    bounds="chains of 16 to 24 species (60 in the thorough tier) in ascending, descending and "
           "mixed index order with one arbitrary weight anywhere and an arbitrary shortcut",
    timeout_ms=20000)
def chain(c, n, order, weight):
    """Importance over long paths, however small the product."""
    env.install(c)
    env.scratch(c)
    seq = {"up": list(range(n)), "down": list(range(n))[::-1],
           "mixed": list(range(0, n, 2)) + list(range(1, n, 2))[::-1]}[order]
    w = [[0.0] * n for _ in range(n)]
    step = [weight] * (n - 1)
    step[c.choice("position", list(range(0, n - 1, 3)))] = c.real("weight", 0.0, 1.0)
    for k, x in enumerate(step):
        w[seq[k]][seq[k + 1]] = x
    short = c.real("shortcut", 0.0, 1.0)
    w[seq[0]][seq[n // 2]] = short
    names = ["S%d" % i for i in range(n)]
    got = env.mod("drgep").get_importance_coeffs(list(names), [names[seq[0]]], [env.arr(c, w)])
    v = 1.0
    for k in range(1, n):
        v = v * step[k - 1]
        if k == n // 2:
            if v < short:
                v = short
                c.cover("shortcut best")
            else:
                c.cover("chain best")
        c.check_eq(got[names[seq[k]]], v, "importance is the best path product", "product",
                   names[seq[k]])


@harness(
    quick=[{"states": 25, "n": 3}], thorough=[{"states": 80, "n": 3}, {"states": 25, "n": 4}],
    covers=["raised by one state", "not raised"],
    bounds="25 (80) sampled states, one of them with arbitrary weights", timeout_ms=20000)
def many_states(c, states, n):
    """Every sampled state counts."""
    env.install(c)
    env.scratch(c)
    at = c.choice("state", list(range(0, states, 3)) + [states - 1])
    base, other = 0.25, c.real("other", 0.0, 1.0)
    x = c.real("weight", 0.0, 1.0)
    ws = []
    for s in range(states):
        w = [[0.0] * n for _ in range(n)]
        w[0][1] = x if s == at else base
        w[1][2] = other if s == at else base
        ws.append(w)
    names = NAMES[:n]
    got = env.mod("drgep").get_importance_coeffs(
        list(names), [names[0]], [env.arr(c, w) for w in ws])
    for j, v in ((1, x), (2, x * other)):
        low = base ** j
        c.check_eq(got[names[j]], e_max(v, low), "importance is the best over all states",
                   "states", names[j])
    c.cover("raised by one state" if x > base else "not raised")
    if n > 3:
        c.check_eq(got[names[3]], 0.0, "an unreached species has importance 0", "unreached")
