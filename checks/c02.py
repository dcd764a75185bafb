"""C02: DRGEP direct interaction coefficients."""

from symx import core
from symx.nparr import e_max
from symx.run import harness

from checks import fakes, dic

ASSUMPTIONS = fakes.KINETICS_ASSUMPTIONS


@harness(
    quick=[{"ns": 2, "nr": 2, "values": (0.0, 1.0, 2.0)}, {"ns": 3, "nr": 2, "values": (0.0, 1.0)}],
    thorough=[{"ns": 3, "nr": 2, "values": (0.0, 0.5, 1.0, 2.0)},
              {"ns": 3, "nr": 3, "values": (0.0, 1.0)},
              {"ns": 2, "nr": 3, "values": (0.0, 1.0, 2.0)}],
    covers=["nonzero", "zero denominator", "all rates zero"],
    bounds="2-3 species, 2-3 reactions, stoichiometric coefficients from a finite set, "
           "arbitrary real net rates of progress and state",
)
def matrix(c, ns, nr, values):
    judge(c, ns, nr, values=values)


def judge(c, ns, nr, **k):
    sol, net, react, prod, out = dic.run(c, "drgep", "create_drgep_matrix", ns, nr, **k)
    base = [[(prod[i][j] - react[i][j]) * net[j] for j in range(nr)] for i in range(ns)]
    for a in range(ns):
        pro = sum(e_max(x, 0.0) for x in base[a])
        con = sum(e_max(-x, 0.0) for x in base[a])
        den = e_max(pro, con)
        dic.cover(c, den, net)
        for b in range(ns):
            if a == b:
                c.check_eq(out[a, b], 0.0, "diagonal is zero", "diagonal")
                continue
            num = abs(sum(core.Ite(core.Or(react[b][j] != 0, prod[b][j] != 0), base[a][j], 0.0)
                          for j in range(nr)))
            dic.compare(c, out[a, b], num, den, a, b, "free" not in k)


@harness(
    quick=[{"ns": 9, "nr": 14, "free": 3}], thorough=[{"ns": 25, "nr": 40, "free": 2}],
    covers=["nonzero"], path_seconds=120,
    bounds="a fixed sparse mechanism of 7-9 species and 10-14 reactions (25 and 40 in the thorough "
           "tier) with catalysts, repeated and inert species; 2-3 arbitrary nonzero net rates, the "
           "others fixed; arbitrary state")
def large(c, ns, nr, free):
    judge(c, ns, nr, free=free)
