"""C19: model comparison."""

from symx import core, env
from symx.core import And, Not, Or
from symx.run import harness
from checks import models
from checks.models import Over, any_reaction

ASSUMPTIONS = [
    "models are real Cantera models whose numeric attributes are replaced by arbitrary reals, "
    "independent in the two models; names, types, stoichiometry and sizes are concrete",
    "heat capacity, enthalpy and entropy are compared at 500, 1000 and 2000 K (a difference that "
    "vanishes at all three temperatures is outside)",
    "differences between 1e-5 and 3e-5 relative may go either way; so may absolute differences "
    "below 1e-7 in thermodynamic functions (SI), falloff and Chebyshev data and pressures (Pa), and "
    "transport parameters the second model alone carries",
]

TEMPS = (500.0, 1000.0, 2000.0)
TRANSPORT = ("well_depth", "diameter", "dipole", "polarizability", "rotational_relaxation",
             "acentric_factor", "dispersion_coefficient", "quadrupole_polarizability")


class Fields:
    """The fields of the two models that may differ."""

    def __init__(self, c):
        self.c = c
        self.all = []
        c.overlay = True

    def pair(self, name, lo, hi, floor=0.0, same=False, **k):
        a = self.c.real(name + "_1", lo, hi, **k)
        b = a if same else self.c.real(name + "_2", lo, hi, **k)
        self.all.append((name, a, b, floor))
        if not same:
            # away from the tolerances' edges
            d, m = abs(a - b), abs(a)
            self.c.prefer(Or(a == b, d > 0.1 * m, *[And(d > 1.5 * x * m, d < 8 * x * m)
                                                    for x in (4e-5, 1e-4, 1e-3, 1e-2)]))
        return a, b

    def judge(self, got, key, different=False):
        """different: some structural difference."""
        c = self.c
        c.check(got is True or got is False or str(type(got).__name__) in ("bool", "bool_"),
                "the answer is True or False", "type", repr(got))
        if got:
            c.cover("equal")
            c.check(not different, "a difference is found", key + " structure")
            for name, a, b, floor in self.all:
                d = abs(a - b)
                c.check(Not(And(d > 3e-5 * abs(a), d > 3e-5 * abs(b), d > floor)),
                        "a difference is found", "%s %s" % (key, name.split("|")[-1]), name)
        else:
            c.cover("different")
            if not different:
                c.check(Or(*[a != b for _, a, b, _ in self.all]), "identical models are equal",
                        key + " identical")


def thermo(c, f, tag, same=False):
    """Two sets of thermodynamic functions."""
    out = ({}, {})
    for name, lo, hi in (("cp", 1.0, 1e6), ("h", -1e9, 1e9), ("s", 1.0, 1e6)):
        tables = ({}, {})
        for T in TEMPS:
            a, b = f.pair("%s|%s(%d)" % (tag, name, T), lo, hi, 1e-7, same)
            tables[0][T], tables[1][T] = a, b

        def func(table):
            return lambda T: table[float(T)]

        for o, t in zip(out, tables):
            o[name] = func(t)
    return out


def one_species(name, functions=None, transport=None, comp=None):
    s = {"name": name, "comp": comp or models.SPECIES[name]}
    if functions:
        s["functions"] = functions
    if transport:
        s["transport"] = transport
    return s


def fixed():
    return {n: (lambda T: 1000.0 + T) for n in ("cp", "h", "s")}


def order(c, items, name):
    perms = [items, list(reversed(items)), items[1:] + items[:1]]
    return c.choice(name, perms[:1 if len(items) < 2 else 2 if len(items) < 3 else 3])


def compare(c, species, reactions):
    a = models.solution(c, species[0], reactions[0])
    b = models.solution(c, species[1], reactions[1])
    return env.mod("tools").compare_models(a, b)


@harness(
    quick=[{"what": w} for w in ("thermo", "transport", "structure")],
    covers=["equal", "different"], path_seconds=60,
    bounds="2-3 species; all thermodynamic functions of one species, or all transport parameters, "
           "arbitrary and independent in the two models; name, composition, number of species; "
           "species in any order")
def species(c, what):
    env.install(c)
    env.scratch(c)
    f = Fields(c)
    different = False
    s1 = [one_species("H2", fixed()), one_species("O2", fixed()), one_species("OH", fixed())]
    s2 = list(s1)
    k = c.choice("which", [0, 1, 2])
    name = s1[k]["name"]
    if what == "thermo":
        t = thermo(c, f, name)
        s1[k], s2[k] = one_species(name, t[0]), one_species(name, t[1])
    elif what == "transport":
        p = [f.pair("%s|%s" % (name, x), 1e-30, 1e3) for x in TRANSPORT]
        g = c.choice("geometry", ["linear", "nonlinear"])
        different = g != "linear"
        s1[k] = one_species(name, fixed(), dict(zip(TRANSPORT, [a for a, _ in p]),
                                                geometry="linear"))
        s2[k] = one_species(name, fixed(), dict(zip(TRANSPORT, [b for _, b in p]), geometry=g))
        lacks = c.flag("second lacks transport")
        if lacks:
            s2[k] = one_species(name, fixed())
            f.all = []
            different = True
    else:
        f.pair("none", 0.0, 1.0, same=True)
        kind = c.choice("kind", ["same", "name", "composition", "count", "more", "fewer", "swap"])
        different = kind != "same"
        if kind == "name":
            s2[k] = one_species("Z" + name, fixed(), comp=models.SPECIES[name])
        elif kind == "composition":
            comp = {"H": c.choice("H", [0, 2, 3]), "O": c.choice("O", [0, 1, 2])}
            comp = {e: n for e, n in comp.items() if n}
            different = comp != models.SPECIES[name] and bool(comp)
            s2[k] = one_species(name, fixed(), comp=comp or None)
        elif kind == "count":
            s2[k] = one_species(name, fixed(), comp=dict(models.SPECIES[name], N=1))
        elif kind == "more":
            s2.append(one_species("AR", fixed()))
        elif kind == "fewer":
            del s2[k]
        elif kind == "swap":
            j = (k + 1) % 3
            s2[k] = one_species(name, fixed(), comp=models.SPECIES[s1[j]["name"]])
            s2[j] = one_species(s1[j]["name"], fixed(), comp=models.SPECIES[name])
    s2 = order(c, s2, "order")
    f.judge(compare(c, (s1, s2), ([], [])), what, different)


FLOOR = 1e-7
KINDS = {
    "Arrhenius": ("H + O2 <=> O + OH", {}),
    "three-body": ("H + OH + M <=> H2O + M", {"eff": ("H2O", "AR")}),
    "Lindemann": ("H + O2 (+M) <=> HO2 (+M)", {"eff": ("H2O",)}),
    "Troe 3": ("H + O2 (+M) <=> HO2 (+M)", {"form": "Troe", "n": 3}),
    "Troe 4": ("H + O2 (+M) <=> HO2 (+M)", {"form": "Troe", "n": 4, "eff": ("AR",)}),
    "SRI 5": ("H + O2 (+M) <=> HO2 (+M)", {"form": "SRI", "n": 5}),
    "activated Troe 4": ("H + OH (+M) <=> H2 + O (+M)", {"form": "Troe", "n": 4}),
    "PLOG 1": ("H2 + O2 <=> 2 OH", {"n": 1}),
    "PLOG 2": ("H2 + O2 <=> 2 OH", {"n": 2}),
    "Chebyshev": ("H2 + O2 <=> 2 OH", {"size": (2, 3)}),
}


def kind_of(k):
    k = k.split()[0]
    return {"Lindemann": "falloff", "Troe": "falloff", "SRI": "falloff"}.get(k, k)


class Pairwise:
    """Gives any_reaction independent numbers for the two models."""

    def __init__(self, f, same=False):
        self.f, self.same, self.second = f, same, {}

    def real(self, name, lo=None, hi=None, **k):
        floor = 0.0 if name.endswith(("_A", "_b", "_Ea")) or "_eff_" in name \
            or name.endswith("default") else FLOOR
        a, b = self.f.pair(name, lo, hi, floor, self.same, **k)
        self.second[id(a)] = (a, b)
        return a

    def assume(self, x):
        self.f.c.assume(x)

    def other(self, r):
        """The second model's version."""
        if isinstance(r, dict):
            return {k: self.other(v) for k, v in r.items()}
        if isinstance(r, (list, tuple)):
            return type(r)(self.other(v) for v in r)
        return self.second[id(r)][1] if id(r) in self.second else r


def two(c, f, tag, kind, same=False, form=None, **more):
    """A reaction in both models."""
    eq, kw = KINDS[kind]
    kw = dict(kw)
    kw["eff"] = kw.get("eff", ())
    p = Pairwise(f, same)
    base = kind_of(kind)
    if base == "PLOG":
        r = {"kind": "PLOG", "eq": eq, "eff": {}, "default": 1.0, "rates": []}
        for i in range(kw["n"]):
            r["rates"].append((p.real("%s_p%d" % (tag, i), 1e3 * 10 ** i, 9e3 * 10 ** i),
                               models.any_arrhenius(p, "%s_%d" % (tag, i))))
    elif base == "Chebyshev":
        r = {"kind": "Chebyshev", "eq": eq, "eff": {}, "default": 1.0,
             "T": (p.real(tag + "_T0", 100.0, 500.0), p.real(tag + "_T1", 501.0, 5000.0)),
             "P": (p.real(tag + "_P0", 10.0, 1e4), p.real(tag + "_P1", 1.1e4, 1e8)),
             "data": [[p.real("%s_%d_%d" % (tag, i, j), -50.0, 50.0)
                       for j in range(kw["size"][1])] for i in range(kw["size"][0])]}
    else:
        r = any_reaction(p, tag, base, eq, default=None if "M" in eq else 1.0, **kw)
    r.update(more)
    return r, p.other(r)


def const(c, f, tag, kind):
    """The same reaction in both models."""
    return two(c, f, tag, kind, same=True)[0]


ALL = [one_species(n, fixed()) for n in models.SPECIES]


@harness(
    quick=[{"kind": k} for k in KINDS],
    covers=["equal", "different"], path_seconds=60,
    bounds="one reaction of every supported type, all of whose numbers (rate, falloff, P-log and "
           "Chebyshev parameters, efficiencies; A in [1e-20, 1e30], b in [-20, 20] and similar) are "
           "arbitrary and independent in the two models, beside one other reaction in either order")
def numbers(c, kind):
    env.install(c)
    env.scratch(c)
    f = Fields(c)
    a, b = two(c, f, "r", kind)
    x = const(c, f, "x", "Arrhenius" if kind != "Arrhenius" else "three-body")
    pos = c.flag("before")
    r1 = [a, x] if pos else [x, a]
    r2 = order(c, [b, x], "order")
    f.judge(compare(c, (ALL, ALL), (r1, r2)), kind)


STRUCTURE = ["same", "reversible", "duplicate", "species", "coefficient", "reactants", "products", "type", "falloff form",
             "falloff count", "activated", "pressures", "Chebyshev size", "Chebyshev shape",
             "efficiency", "missing efficiency", "renamed efficiency", "collider",
             "number of reactions", "more reactions"]


@harness(
    quick=[{"what": w} for w in STRUCTURE], covers=["equal", "different"], path_seconds=60,
    bounds="two models with the same numbers that differ in reversibility, duplicate mark, species, "
           "coefficients, reaction or rate type, number of falloff, P-log or Chebyshev parameters, "
           "efficiencies, or number of reactions; reactions in either order, numbers arbitrary")
def structure(c, what):
    env.install(c)
    env.scratch(c)
    f = Fields(c)
    x = const(c, f, "x", "Lindemann")
    y = const(c, f, "y", "Arrhenius")
    kind = {"falloff form": "Troe 3", "falloff count": "Troe 4", "activated": "activated Troe 4",
            "pressures": "PLOG 2", "Chebyshev size": "Chebyshev", "Chebyshev shape": "Chebyshev",
            "collider": "three-body"}.get(what)
    if kind is None:
        kind = "three-body" if "efficiency" in what else \
            c.choice("kind", ["three-body", "PLOG 1", "Chebyshev"])
    a = const(c, f, "r", kind)
    b = dict(a)
    r1, r2 = [a, x, y], [b, x, y]
    if what == "reversible":
        b["eq"] = a["eq"].replace("<=>", "=>")
    elif what == "duplicate":
        # a pair of duplicates against the same pair, one of them not marked
        r1 = [a, a]
        r2 = [dict(a, dup=True), dict(a, dup=True)]
        a["dup"] = True
        flip = c.choice("unmarked", [0, 1])
        r2[flip] = dict(a, dup=True, unmark=True)
        r1, r2 = r1 + [x], r2 + [x]
    elif what == "species":
        b["eq"] = {"three-body": "O + OH + M <=> HO2 + M", "PLOG 1": "H2 + O2 <=> H2O + O",
                   "Chebyshev": "H2 + O2 <=> HO2 + H"}[kind]
    elif what in ("reactants", "products"):
        # one side the same, the other differs in species or only in coefficients
        other, same = c.choice("sides", [
            (("H2 + O2", "H2O2"), "2 OH"),
            (("3 H2O2 + 2 OH", "2 H2O2 + 4 OH"), "4 H2O + 4 O")])
        if kind == "three-body":
            other, same = [x + " + M" for x in other], same + " + M"
        for r, x in zip((a, b), other):
            r["eq"] = x + " <=> " + same if what == "reactants" else same + " <=> " + x
    elif what == "coefficient":
        b["eq"] = {"three-body": "2 H + 2 OH + M <=> 2 H2O + M", "PLOG 1": "2 H2 + 2 O2 <=> 4 OH",
                   "Chebyshev": "2 H2 + 2 O2 <=> 4 OH"}[kind]
    elif what == "type":
        other = {"three-body": "Arrhenius", "PLOG 1": "Chebyshev", "Chebyshev": "PLOG 1"}[kind]
        b = const(c, f, "other", other)
        b["eq"] = a["eq"] if kind != "three-body" else "H + OH <=> H2O"
        r2[0] = b
    elif what == "falloff form":
        b.update(form="SRI", coeffs=[c.real("s%d" % i, 0.1, 0.9) for i in range(3)])
    elif what == "falloff count":
        b["coeffs"] = a["coeffs"][:3]
    elif what == "activated":
        b["kind"] = "falloff"
    elif what == "pressures":
        b["rates"] = a["rates"][:1]
    elif what == "Chebyshev size":
        b["data"] = a["data"] + [[c.real("extra_%d" % i, -1.0, 1.0) for i in range(3)]]
    elif what == "Chebyshev shape":
        v = [z for row in a["data"] for z in row]
        b["data"] = [v[:2], v[2:4], v[4:]]
    elif what == "efficiency":
        b["eff"] = dict(a["eff"], H2=c.real("H2", 1.5, 2.0))
        f.c.assume(Or(a["default"] < 1.4, a["default"] > 2.1))
    elif what == "missing efficiency":
        b["eff"] = {"H2O": a["eff"]["H2O"]}
        d = a["eff"]["AR"] - a["default"]
        f.c.assume(Or(d > 0.01, d < -0.01))
    elif what == "renamed efficiency":
        b["eff"] = {"H2O": a["eff"]["H2O"], "H2": a["eff"]["AR"]}
        d = a["eff"]["AR"] - a["default"]
        f.c.assume(Or(d > 0.01, d < -0.01))
    elif what == "collider":
        b = const(c, f, "q", "Arrhenius")
        b.update({k: a[k] for k in ("A", "b", "Ea")})
        b["eq"] = "H + OH + AR <=> H2O + AR"
        r2[0] = b
    elif what == "number of reactions":
        del r2[c.choice("gone", [0, 1, 2])]
    elif what == "more reactions":
        r2.insert(c.choice("at", [0, 3]), const(c, f, "m", "PLOG 2" if "PLOG" not in kind
                                                else "Chebyshev"))
        if kind != "three-body":
            r2[0 if r2[0] is not b else 3]["eq"] = "HO2 <=> O + OH"
    different = what != "same"
    got = c.choice("swapped", [False, True])
    if what != "duplicate":
        r2 = order(c, r2, "order")
    pair = (r2, r1) if got else (r1, r2)
    if different:
        c.cover("equal")
    else:
        c.cover("different")
    f.judge(compare(c, (ALL, ALL), pair), what, different)


@harness(
    quick=[{}], covers=["equal", "two objects"], path_seconds=60,
    bounds="models with a reaction of every supported type, a pair of duplicates and arbitrary "
           "numbers throughout; the same object, or a copy with species and reactions in another "
           "order")
def identical(c):
    env.install(c)
    env.scratch(c)
    f = Fields(c)
    t = thermo(c, f, "O2", same=True)
    tr = {x: f.pair("tr|" + x, 0.0, 1e3, same=True)[0] for x in TRANSPORT}
    sp = [one_species("H2", fixed(), dict(tr, geometry="linear")), one_species("O2", t[0])] \
        + [s for s in ALL if s["name"] not in ("H2", "O2")]
    rx = []
    eqs = {"Troe 3": "2 OH (+M) <=> H2O2 (+M)", "Troe 4": "2 O (+M) <=> O2 (+M)",
           "SRI 5": "2 H (+M) <=> H2 (+M)", "PLOG 2": "HO2 <=> O + OH",
           "Chebyshev": "H2O + O => 2 OH"}
    for k in KINDS:
        r = const(c, f, k, k)
        r["eq"] = eqs.get(k, r["eq"])
        rx.append(r)
    for i in range(2):
        r = const(c, f, "dup%d" % i, "Arrhenius")
        r.update(eq="H2 + O <=> H + OH", dup=True)
        rx.append(r)
    # a declared pair keeps its own order
    other = c.choice("order", [rx, rx[5:] + rx[:5], rx[:-3][::-1] + rx[-3:],
                               [rx[10], rx[0], rx[11]] + rx[9:0:-1]])
    sp2 = order(c, sp, "species order")
    if c.flag("same object"):
        m = models.solution(c, sp, rx)
        got = env.mod("tools").compare_models(m, m)
    else:
        got = compare(c, (sp, sp2), (rx, other))
        c.cover("two objects")
    f.judge(got, "identical")
