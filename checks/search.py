"""Oracle and driver shared by C07 (threshold search) and C21 (limbo species)."""

import os

from symx import core, env
from checks import pipeline
from checks.pipeline import World, reach

DELTA = 1e-9
LAST = {"drg": 0.9e-4, "pfa": 0.9e-4, "drgep": 0.9e-5}


def pattern(c, n, edges, hi, tag="", lo=2e-5):
    """Weights of the listed edges: zero, or between lo and hi."""
    m = []
    for i in range(n):
        row = []
        for j in range(n):
            if i != j and "%d%d" % (i, j) in edges.split():
                x = c.real("w%s_%d%d" % (tag, i, j), 0.0, hi)
                c.assume(core.Or(x == 0, x >= lo))
                row.append(x)
            else:
                row.append(0.0)
        m.append(row)
    return m


def apart(c, x, th):
    """Thresholds are accumulated in floating point; stay clear of equality here
    (equality at the threshold is C04/C06)."""
    if core.is_sym(x) or c.concrete:
        c.assume(core.Or(x <= th - DELTA, x >= th + DELTA))


def importances(mats, n, targets):
    """Best path product; only used for the acyclic patterns listed (C05 decides
    the general case)."""
    from symx.nparr import e_max

    best = [0.0] * n

    def go(w, i, x, seen):
        for j in range(n):
            if j in seen:
                continue
            y = w[i][j]
            if not core.is_sym(y) and y == 0:
                continue
            v = y if x is None else x * y
            best[j] = e_max(best[j], v)
            go(w, j, v, seen | {j})

    for w in mats:
        for t in targets:
            go(w, t, None, {t})
    for t in targets:
        best[t] = 1.0
    return best


class Search:
    """What the documentation promises a reduction run ends with."""

    def __init__(self, c, m, w, mats, targets, safe):
        self.c, self.m, self.w = c, m, w
        self.mats, self.targets = mats, targets
        self.always = set(safe) | {w.names[i] for i in targets}
        self.imp = importances(mats, len(w.names), targets) if m == "drgep" else None

    def kept(self, th, always=None):
        names = self.w.names
        keep = set(self.always if always is None else always)
        if self.m == "drgep":
            for i, s in enumerate(names):
                x = self.imp[i]
                if s in keep or (not core.is_sym(x) and not self.c.concrete and x < th):
                    continue
                apart(self.c, x, th)
                if x >= th:
                    keep.add(s)
        else:
            for mat in self.mats:
                for row in mat:
                    for x in row:
                        if core.is_sym(x) or (self.c.concrete and x != 0):
                            apart(self.c, x, th)
                keep |= {names[i] for i in reach(mat, len(names), self.targets, th)}
        return frozenset(keep)

    def final(self, limit):
        """None if the smallest threshold exceeds the limit, else the species."""
        th = inc = 0.01
        s = self.kept(th)
        while self.w.error(s) > limit:
            th /= 10
            inc /= 10
            if th < LAST[self.m]:
                return None
            s = self.kept(th)
        self.steps = 0
        self.exceeded = False
        while len(s) > len(self.always):
            th += inc
            t = self.kept(th)
            self.steps += 1
            if self.w.error(t) > limit:
                self.exceeded = True
                break
            s = t
        self.threshold = th
        return s


def run(c, m, model_file, w, limit, targets, safe, path="", phase="", upper=None):
    """The real driver; returns the reduced model or None on SystemExit."""
    f = getattr(env.mod(m), "run_" + m)
    try:
        return f(model_file, [w.condition()], [], [], limit, [w.names[i] for i in targets], safe,
                 phase_name=phase, threshold_upper=upper, path=path)
    except SystemExit:
        return None


def scenario(c, names, user_file, path):
    env.install(c)
    env.scratch(c)
    w = World(c, names)
    w.install()
    for d in {os.path.dirname(user_file), path}:
        if d and not os.path.isdir(d):
            os.mkdir(d)
    pipeline.write_model(user_file, names)
    return w
