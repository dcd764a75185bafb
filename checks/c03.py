"""C03: PFA interaction coefficients."""

from symx import core
from symx.nparr import e_max
from symx.run import harness

from checks import fakes, dic

ASSUMPTIONS = fakes.KINETICS_ASSUMPTIONS


@harness(
    quick=[{"ns": 3, "nr": 2, "values": (0.0, 1.0)}, {"ns": 2, "nr": 2, "values": (0.0, 1.0, 2.0)}],
    thorough=[{"ns": 3, "nr": 2, "values": (0.0, 1.0, 2.0)},
              {"ns": 4, "nr": 2, "values": (0.0, 1.0)},
              {"ns": 2, "nr": 3, "values": (0.0, 1.0, 2.0)}],
    covers=["nonzero", "zero denominator", "all rates zero"],
    bounds="2-4 species, 2-3 reactions, stoichiometric coefficients from a finite set, "
           "arbitrary real net rates of progress and state",
)
def matrix(c, ns, nr, values):
    judge(c, ns, nr, values=values)


def judge(c, ns, nr, **k):
    sol, net, react, prod, out = dic.run(c, "pfa", "create_pfa_matrix", ns, nr, **k)
    base = [[(prod[i][j] - react[i][j]) * net[j] for j in range(nr)] for i in range(ns)]
    inv = [[core.Or(react[b][j] != 0, prod[b][j] != 0) for j in range(nr)] for b in range(ns)]
    first = {}
    for kind, sg in (("pro", 1.0), ("con", -1.0)):
        for a in range(ns):
            den = e_max(sum(e_max(x, 0.0) for x in base[a]), sum(e_max(-x, 0.0) for x in base[a]))
            if kind == "pro":
                dic.cover(c, den, net)
            for b in range(ns):
                if a != b:
                    num = sum(core.Ite(inv[b][j], e_max(sg * base[a][j], 0.0), 0.0)
                              for j in range(nr))
                    first[kind, a, b] = dic.quot(c, num, den)
    for a in range(ns):
        for b in range(ns):
            if a == b:
                c.check_eq(out[a, b], 0.0, "diagonal is zero", "diagonal")
                continue
            want = 0.0
            for kind in ("pro", "con"):
                want = want + first[kind, a, b]
                for m in range(ns):
                    if m not in (a, b):
                        want = want + first[kind, a, m] * first[kind, m, b]
            dic.equal(c, out[a, b], want, a, b, "free" not in k)
            c.check(0.0 <= out[a, b], "weight is non-negative", "range")


@harness(
    quick=[{"ns": 7, "nr": 10, "free": 2}], thorough=[{"ns": 25, "nr": 40, "free": 2}],
    covers=["nonzero"], path_seconds=120,
    bounds="a fixed sparse mechanism of 7-9 species and 10-14 reactions (25 and 40 in the thorough "
           "tier) with catalysts, repeated and inert species; 2-3 arbitrary nonzero net rates, the "
           "others fixed; arbitrary state")
def large(c, ns, nr, free):
    judge(c, ns, nr, free=free)
