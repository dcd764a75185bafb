"""C21: limbo species."""

from symx import core, env
from symx.run import harness
from checks import pipeline, search
from checks.c07 import ALL

ASSUMPTIONS = pipeline.ASSUMPTIONS + [
    "weights are zero or in [8e-3, 0.015] for the search pattern, arbitrary in [8e-3, 0.045] for the "
    "edge marked strong; the upper threshold is arbitrary in (0, 1]",
]

COVERS = ["limbo species found", "no limbo species", "no upper threshold", "retained species spared"]


def expected(s, final, upper):
    keep = set(s.always)
    for i, x in enumerate(s.w.names):
        if s.m == "drgep":
            if s.imp[i] >= upper:
                keep.add(x)
    if s.m != "drgep":
        for mat in s.mats:
            keep |= {s.w.names[i] for i in pipeline.reach(mat, len(s.w.names), s.targets, upper)}
    return [x for x in final if x not in keep]


def weights(c, n, weak, strong, k):
    m = search.pattern(c, n, weak, 0.015, "_%d" % k, 8e-3)
    for e in strong.split():
        i, j = int(e[0]), int(e[1])
        m[i][j] = c.real("w_%d_%s" % (k, e), 8e-3, 0.045)
    return m


W1 = {"n": 3, "weak": ("01",), "strong": ("02",), "targets": (0,)}
W2 = {"n": 4, "weak": ("01", "31"), "strong": ("", "02"), "targets": (0, 3)}
W3 = {"n": 4, "weak": ("01 13",), "strong": ("02",), "targets": (0,)}


@harness(
    quick=[dict(W1, m=m) for m in ALL] + [dict(W2, m=m) for m in ALL],
    thorough=[dict(W1, m=m) for m in ALL] + [dict(W2, m=m) for m in ALL]
    + [dict(W3, m=m) for m in ("drg", "pfa")],
    covers=COVERS, path_seconds=40,
    bounds="3-4 species, 1-2 targets, every subset of retained species, 1-2 states, arbitrary upper "
           "threshold or none, arbitrary candidate metrics and error limit, two runs per process")
def limbo(c, m, n, weak, strong, targets):
    names = pipeline.NAMES[:n]
    w = search.scenario(c, names, "mech.yaml", "")
    mats = [weights(c, n, a, b, k) for k, (a, b) in enumerate(zip(weak, strong))]
    w.install_matrices(mats)
    limit = c.real("limit", 0.0, 300.0, lo_open=True)
    safe = [names[i] for i in range(n) if i not in targets and c.flag("safe_" + names[i])]
    s = search.Search(c, m, w, mats, targets, safe)
    # the search itself is C07; this also keeps thresholds and weights apart
    # (bounded: at most five steps)
    use = c.choice("upper given", ["yes", "no"])
    upper = c.real("upper", 0.0, 1.0, lo_open=True) if use == "yes" else None
    want_final = s.final(limit)
    red = search.run(c, m, "mech.yaml", w, limit, targets, list(safe), upper=upper)
    if red is None or want_final is None:
        c.check((red is None) == (want_final is None), "search outcome (C07)", "exit")
        return
    got = list(red.limbo_species or [])
    want = expected(s, red.model.species_names, upper) if use == "yes" else []
    c.observe("limbo", sorted(got))
    c.check(sorted(got) == sorted(want), "limbo species are exactly the weakly coupled survivors",
            "limbo", "got %s want %s" % (sorted(got), sorted(want)))
    # a later run in the same process is not affected by this one
    again = search.run(c, m, "mech.yaml", w, limit, targets, list(safe), upper=upper)
    c.check(sorted(again.limbo_species or []) == sorted(want), "repeating gives the same limbo species",
            "repeat", str(again.limbo_species))
    c.check(sorted(red.limbo_species or []) == sorted(want), "the first result does not change later",
            "aliasing")
    plain = search.run(c, m, "mech.yaml", w, limit, targets, list(safe), upper=None)
    c.check(list(plain.limbo_species or []) == [], "none without an upper threshold", "no upper")
    c.cover("no upper threshold" if use == "no" else
            "limbo species found" if want else "no limbo species")
    if use == "yes" and safe:
        c.cover("retained species spared")
