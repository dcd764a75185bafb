"""Models with arbitrary numbers: real Cantera objects whose numeric attributes are
replaced by symbolic values (symbolic runs), or real Cantera models (concrete runs)."""

import warnings

import numpy as np

from symx import core, env
from symx.core import Or

SPECIES = {"H2": {"H": 2}, "O2": {"O": 2}, "H": {"H": 1}, "O": {"O": 1}, "OH": {"O": 1, "H": 1},
           "HO2": {"H": 1, "O": 2}, "H2O": {"H": 2, "O": 1}, "H2O2": {"H": 2, "O": 2},
           "AR": {"Ar": 1}}
LOW = [2.5, 0.0, 0.0, 0.0, 0.0, -745.0, 4.4]


class Over:
    """An object with some attributes replaced; everything else is the real object's."""

    KINDS = {}

    def __new__(cls, real, **attrs):
        # objects of different types keep different types
        t = type(real)
        if t not in Over.KINDS:
            Over.KINDS[t] = type("Over_" + t.__name__, (Over,), {})
        return object.__new__(Over.KINDS[t])

    def __init__(self, real, **attrs):
        self.__dict__.update(attrs)
        self.__dict__["_real"] = real

    __class__ = property(lambda self: type(self._real))

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __dir__(self):
        return sorted(set(dir(self._real)) | (set(self.__dict__) - {"_real"}))


def fake(c):
    """Replace attributes, or build a real model with the numbers?"""
    return not c.concrete or getattr(c, "overlay", False)


def concrete_of(c, x, default=1.0):
    """A number for the real object: the value itself, or a placeholder."""
    if isinstance(x, (list, tuple)):
        return [concrete_of(c, y, default) for y in x]
    return default if core.is_sym(x) or fake(c) else float(x)


def arrhenius(c, r):
    """r: dict(A=, b=, Ea=)."""
    import cantera as ct

    real = ct.ArrheniusRate(concrete_of(c, r["A"]), concrete_of(c, r["b"]),
                            concrete_of(c, r["Ea"]))
    if not fake(c):
        return real
    return Over(real, pre_exponential_factor=r["A"], temperature_exponent=r["b"],
                activation_energy=r["Ea"])


def falloff(c, r):
    """r: dict(form=, low=, high=, coeffs=, activated=)."""
    import cantera as ct

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lo, hi = [ct.Arrhenius(*[concrete_of(c, r[k][x]) for x in ("A", "b", "Ea")])
                  for k in ("low", "high")]
    cls = {"Lindemann": ct.LindemannRate, "Troe": ct.TroeRate, "SRI": ct.SriRate}[r["form"]]
    real = cls(lo, hi, concrete_of(c, r["coeffs"], 2.0))
    if r.get("activated"):
        real.chemically_activated = True
    if not fake(c):
        return real
    return Over(real, low_rate=arrhenius(c, r["low"]), high_rate=arrhenius(c, r["high"]),
                falloff_coeffs=env.arr(c, r["coeffs"]) if r["coeffs"] else np.zeros(0))


def plog(c, r):
    """r: dict(rates=[(pressure, arrhenius)])."""
    import cantera as ct

    real = ct.PlogRate([(concrete_of(c, p) + (i if fake(c) else 0),
                         ct.ArrheniusRate(*[concrete_of(c, a[x]) for x in ("A", "b", "Ea")]))
                        for i, (p, a) in enumerate(r["rates"])])
    if not fake(c):
        return real
    return Over(real, rates=[(p, arrhenius(c, a)) for p, a in r["rates"]])


def chebyshev(c, r):
    """r: dict(T=(min, max), P=(min, max), data=[[...]])."""
    import cantera as ct

    t, p = r["T"], r["P"]
    if fake(c):
        t, p = (300.0, 2000.0), (1e3, 1e6)
    real = ct.ChebyshevRate(t, p, concrete_of(c, r["data"]))
    if not fake(c):
        return real
    return Over(real, temperature_range=tuple(r["T"]), pressure_range=tuple(r["P"]),
                data=env.arr(c, r["data"]), n_temperature=len(r["data"]),
                n_pressure=len(r["data"][0]))


def rate(c, r):
    kind = r["kind"]
    if kind in ("Arrhenius", "three-body"):
        return arrhenius(c, r)
    if kind in ("falloff", "activated"):
        return falloff(c, dict(r, activated=kind == "activated"))
    if kind == "PLOG":
        return plog(c, r)
    return chebyshev(c, r)


def reaction(c, r):
    """r: dict(eq=, kind=, ..., eff={}, default=, dup=, collider=)."""
    import cantera as ct

    v = rate(c, r)
    tb = None
    args = {}
    if "+ M" in r["eq"] or "(+M)" in r["eq"]:
        tb = ct.ThirdBody("M", efficiencies={k: concrete_of(c, x) for k, x in r["eff"].items()},
                          default_efficiency=concrete_of(c, r["default"]))
        args["third_body"] = tb
    real = ct.Reaction(equation=r["eq"], rate=getattr(v, "_real", v), **args)
    if r.get("dup"):
        real.duplicate = True
    return real, v


def solution(c, species, reactions, name="mech"):
    """species: [dict(name=, comp=, T=, coeffs=, transport=)], reactions: see reaction()."""
    import cantera as ct

    sps, over_sp = [], []
    for s in species:
        sp = ct.Species(s["name"], {k: float(v) for k, v in s["comp"].items()})
        T = s.get("T", (300.0, 1000.0, 5000.0))
        co = s.get("coeffs", LOW + LOW)  # high temperatures first
        tc = (300.0, 1000.0, 5000.0) if fake(c) else T
        sp.thermo = ct.NasaPoly2(float(tc[0]), float(tc[2]), 101325.0,
                                 [float(tc[1])] + concrete_of(c, co))
        over = {"thermo": Over(sp.thermo, coeffs=env.arr(c, [T[1]] + list(co)), min_temp=T[0],
                               max_temp=T[2], **s.get("functions", {}))}
        tr = s.get("transport")
        if tr:
            t = ct.GasTransportData()
            t.geometry = tr["geometry"]
            for k in ("well_depth", "diameter", "dipole", "polarizability",
                      "rotational_relaxation"):
                setattr(t, k, 1.0 if fake(c) else float(tr[k]))
            sp.transport = t
            over["transport"] = Over(t, **tr)
        sps.append(sp)
        over_sp.append(Over(sp, **over))
    rx = [reaction(c, r) for r in reactions]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ct.suppress_thermo_warnings()
        real = ct.Solution(thermo="ideal-gas", kinetics="gas", transport_model="none", species=sps,
                           reactions=[x for x, _ in rx], name=name)
    if not fake(c):
        return real
    over_rx = []
    for i, ((_, v), r) in enumerate(zip(rx, reactions)):
        got = real.reaction(i)
        extra = {"rate": v}
        if r.get("unmark"):
            extra["duplicate"] = False
        if got.third_body is not None and got.third_body.name == "M":
            extra["third_body"] = Over(got.third_body, efficiencies=dict(r["eff"]),
                                       default_efficiency=r["default"])
        over_rx.append(Over(got, **extra))
    names = [s["name"] for s in species]
    return Over(real, species=lambda k=None: list(over_sp) if k is None
                else over_sp[names.index(k) if isinstance(k, str) else k],
                reactions=lambda: list(over_rx), reaction=lambda i: over_rx[i])


# ---------------------------------------------------------------------------
# arbitrary numbers


def real_nonzero(c, name, lo, hi):
    x = c.real(name, lo, hi)
    c.assume(x != 0)
    return x


def any_arrhenius(c, tag, first=1e-20):
    return {"A": c.real(tag + "_A", first, 1e30), "b": c.real(tag + "_b", -20.0, 20.0),
            "Ea": c.real(tag + "_Ea", -1e8, 1e9)}


def any_reaction(c, tag, kind, eq=None, form="Lindemann", n=0, size=(2, 2), eff=(), default=1.0,
                 same=()):
    """An arbitrary reaction of a kind; n: number of falloff parameters or of
    P-log rates; same: the P-log rates whose successor has the same pressure."""
    r = {"kind": kind, "eq": eq, "eff": {s: c.real("%s_eff_%s" % (tag, s), 0.0, 100.0)
                                        for s in eff},
         "default": c.real(tag + "_default", 0.0, 10.0) if default is None else default}
    if kind in ("Arrhenius", "three-body"):
        r.update(any_arrhenius(c, tag))
    elif kind in ("falloff", "activated"):
        r["form"] = form
        r["low"], r["high"] = any_arrhenius(c, tag + "_low"), any_arrhenius(c, tag + "_high")
        lims = {"Troe": [(-2.0, 2.0), (1e-3, 1e6), (1e-3, 1e6), (1e-2, 1e6)],
                "SRI": [(1e-3, 10.0), (-1e3, 1e3), (1e-3, 1e4), (0.01, 0.9), (0.01, 2.0)],
                "Lindemann": []}[form]
        r["coeffs"] = [c.real("%s_f%d" % (tag, i), *lims[i]) for i in range(n)]
    elif kind == "PLOG":
        ps = [c.real("%s_p%d" % (tag, i), 10.0, 1e8) for i in range(n)]
        for i, (a, b) in enumerate(zip(ps, ps[1:])):
            if i in same:
                ps[i + 1] = ps[i]  # the rates at one pressure are added up
            else:
                c.assume(b >= 1.01 * a)
        r["rates"] = [(p, any_arrhenius(c, "%s_%d" % (tag, i))) for i, p in enumerate(ps)]
    else:
        t, p = c.real(tag + "_T0", 100.0, 1000.0), c.real(tag + "_P0", 10.0, 1e6)
        r["T"] = (t, t + c.real(tag + "_dT", 1.0, 4000.0))
        r["P"] = (p, p + c.real(tag + "_dP", 1.0, 1e8))
        r["data"] = [[c.real("%s_%d_%d" % (tag, i, j), -50.0, 50.0) for j in range(size[1])]
                     for i in range(size[0])]
    return r


def any_transport(c, tag, geometry):
    return {"geometry": geometry, "well_depth": c.real(tag + "_eps", 0.0, 1e-19),
            "diameter": c.real(tag + "_sigma", 1e-11, 1e-9),
            "dipole": c.real(tag + "_mu", 0.0, 1e-28),
            "polarizability": c.real(tag + "_alpha", 0.0, 1e-27),
            "rotational_relaxation": c.real(tag + "_zrot", 0.0, 1000.0)}
