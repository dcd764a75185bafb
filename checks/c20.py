"""C20: Chemkin export."""

import os

from symx import core, env
from symx.core import And
from symx.run import harness
from checks import chemkin, models
from checks.chemkin import Tokens, Unreadable
from checks.models import any_reaction, any_transport

ASSUMPTIONS = [
    "the model is a real Cantera model whose numeric attributes (rates, efficiencies, falloff, "
    "P-log and Chebyshev data, NASA coefficients, temperatures, transport data) are replaced by "
    "arbitrary reals; stoichiometry, names and reaction types are concrete",
    "a formatted number is represented by a token as wide as its text, which the reader maps back "
    "to the value and the format's precision; the rounding itself (Python's formatting) is trusted "
    "and exercised in the concrete re-runs",
    "outside: thermodynamic data other than two-range NASA-7 polynomials, fractional compositions, "
    "more than five elements in a species, names over 16 characters, reactions with explicitly "
    "given reaction orders (Chemkin export does not claim them)",
]

EQUATIONS = {
    "Arrhenius": ["HO2 => O + OH", "H + O2 <=> O + OH", "2 H + O2 <=> H2O + O",
                  "0.5 O2 + H <=> OH"],
    "three-body": ["H2O2 + M <=> 2 OH + M", "H + OH + M => H2O + M"],
    "collider": ["H + O2 + AR <=> HO2 + AR"],
    "falloff": ["H2O2 (+M) <=> 2 OH (+M)", "H + O2 (+M) <=> HO2 (+M)",
                "2 OH (+M) => H2O2 (+M)"],
    "falloff collider": ["H + O2 (+AR) <=> HO2 (+AR)"],
    "activated": ["H + OH (+M) <=> H2 + O (+M)", "2 OH (+M) <=> H2O + O (+M)",
                  "HO2 (+M) <=> O + OH (+M)", "2 H + O2 (+M) => H2O + O (+M)"],
    "PLOG": ["HO2 <=> O + OH", "H2 + O2 <=> 2 OH", "2 OH => H2O + O", "2 H + O2 <=> H2O + O"],
    "Chebyshev": ["HO2 <=> O + OH", "H2 + O2 => 2 OH", "2 OH <=> H2O + O",
                  "2 H + O2 <=> H2O + O"],
}
FORMS = [("Lindemann", 0), ("Troe", 3), ("Troe", 4), ("SRI", 3), ("SRI", 5)]


def a_reaction(c, tag, kind, eq, form=("Lindemann", 0), n=2, size=(2, 2), eff=(), default=1.0,
               dup=False, same=()):
    base = {"collider": "three-body", "falloff collider": "falloff"}.get(kind, kind)
    if "M" not in eq:
        eff = ()
    r = any_reaction(c, tag, base, eq, form[0], form[1] if base in ("falloff", "activated") else n,
                     size, eff, default, same)
    r["dup"] = dup
    return r


def export(c, species, reactions, names=("mech.inp",), path="out"):
    """Write the model; the reader's view of the files."""
    env.install(c)
    env.scratch(c)
    t = Tokens(c)
    gas = models.solution(c, species, reactions)
    os.mkdir("out")
    files = env.mod("soln2ck").write(gas, "mech.inp", path=path)
    return t, files


def default_species(names=None):
    return [{"name": n, "comp": models.SPECIES[n]} for n in (names or models.SPECIES)]


def number(c, got, want, label, key, detail="", **k):
    c.check(got.matches(c, want, **k), label, key, detail)


def rate_numbers(c, got, want, power, key):
    number(c, got[0], want["A"] * 1e3 ** power, "pre-exponential factor", key + " A", sig=3)
    number(c, got[1], want["b"], "temperature exponent", key + " b", sig=4, dec=3)
    # cal/mol
    number(c, got[2], want["Ea"] / 4184.0, "activation energy", key + " Ea", sig=4, dec=2)


def one(c, got, keyword, what):
    v = got["aux"].get(keyword, [])
    if not c.check(len(v) == 1, what + " is written once", "%s count" % keyword, str(len(v))):
        return None
    return v[0]


AUX = {"Arrhenius": set(), "three-body": set(), "falloff": {"LOW"}, "activated": {"HIGH"},
       "PLOG": {"PLOG"}, "Chebyshev": {"TCHEB", "PCHEB", "CHEB"}}


def check_reaction(c, r, got, names):
    kind = r["kind"]
    key = kind
    n = sum(got["reactants"].values()) + (got["body"] == "M")
    aux = set(AUX[kind])
    if r.get("coeffs"):
        aux.add({"Troe": "TROE", "SRI": "SRI"}[r["form"]])
    if not c.check(set(got["aux"]) == aux, "exactly the reaction's own data", key + " keywords",
                   "%s instead of %s" % (sorted(got["aux"]), sorted(aux))):
        return
    if kind in ("Arrhenius", "three-body"):
        rate_numbers(c, got["rate"], r, n - 1, key)
    elif kind in ("falloff", "activated"):
        main, other, kw, pm, po = (r["high"], r["low"], "LOW", n - 1, n) if kind == "falloff" else \
            (r["low"], r["high"], "HIGH", n - 1, n - 2)
        rate_numbers(c, got["rate"], main, pm, key)
        v = one(c, got, kw, "the other limit")
        if v is not None and c.check(len(v) == 3, "three rate parameters", key + " " + kw):
            rate_numbers(c, v, other, po, key + " " + kw)
        if r["coeffs"]:
            v = one(c, got, "TROE" if r["form"] == "Troe" else "SRI", "the falloff function")
            want = r["coeffs"]
            if v is not None and r["form"] == "SRI" and (len(v), len(want)) == (5, 3):
                want = list(want) + [1.0, 0.0]  # the defaults, spelled out
            if v is not None and c.check(len(v) == len(want), "all falloff parameters",
                                         key + " falloff count", str(len(v))):
                for i, (a, b) in enumerate(zip(v, want)):
                    number(c, a, b, "falloff parameter", "%s %s %d" % (key, r["form"], i))
    elif kind == "PLOG":
        v = got["aux"]["PLOG"]
        if c.check(len(v) == len(r["rates"]) and all(len(x) == 4 for x in v),
                   "a rate for every pressure", "plog count", str(len(v))):
            for x, (p, a) in zip(v, r["rates"]):
                number(c, x[0], p / 101325.0, "pressure", "plog pressure")
                rate_numbers(c, x[1:], a, n - 1, "plog")
    else:
        for kw, want in (("TCHEB", r["T"]), ("PCHEB", [p / 101325.0 for p in r["P"]])):
            v = one(c, got, kw, "the Chebyshev range")
            if v is not None and c.check(len(v) == 2, "two limits", kw + " limits"):
                for a, b in zip(v, want):
                    number(c, a, b, "Chebyshev range", kw)
        v = [x for row in got["aux"]["CHEB"] for x in row]
        nt, npr = len(r["data"]), len(r["data"][0])
        if c.check(len(v) == 2 + nt * npr, "all Chebyshev coefficients", "cheb count", str(len(v))):
            number(c, v[0], nt, "number of temperature terms", "cheb nt")
            number(c, v[1], npr, "number of pressure terms", "cheb np")
            for i in range(nt):
                for j in range(npr):
                    # log10 of cm^3(n-1)/mol^(n-1)/s
                    want = r["data"][i][j] + (3.0 * (n - 1) if i == j == 0 else 0.0)
                    number(c, v[2 + i * npr + j], want, "Chebyshev coefficient",
                           "cheb coefficient")
    c.check((got["dup"] == 1) if r["dup"] else (got["dup"] == 0), "duplicate mark",
            key + " duplicate", str(got["dup"]))
    eff = dict(got["eff"])
    c.check(len(eff) == len(got["eff"]), "every efficiency appears once", key + " eff once")
    c.check(set(eff) <= set(names), "efficiencies of the model's species", key + " eff species")
    body = got["body"] in ("M", "(M)")
    if not body:
        c.check(not eff, "no efficiencies without a third body M", key + " eff collider")
        return
    for s in names:
        want = r["eff"].get(s, r["default"])
        if s in eff:
            number(c, eff[s], want, "third-body efficiency", key + " efficiency", s)
        else:
            c.check(c.eq(want, 1.0), "third-body efficiency", key + " efficiency missing", s)


def check_mechanism(c, t, path, species, reactions, elements):
    try:
        m = chemkin.mechanism(t, path)
    except Unreadable as e:
        c.fail("the mechanism file is readable", "unreadable", str(e))
        return
    names = [s["name"] for s in species]
    c.check(sorted(m["species"]) == sorted(names), "every species once", "species",
            str(m["species"]))
    c.check(sorted(x.upper() for x in m["elements"]) == sorted(x.upper() for x in elements),
            "every element once", "elements", str(m["elements"]))
    c.check(len(m["reactions"]) == len(reactions), "every reaction once", "reaction count",
            "%d" % len(m["reactions"]))
    left = list(m["reactions"])
    for r in reactions:
        want = chemkin.equation(r["eq"])
        found = [g for g in left if g["reactants"] == want["reactants"]
                 and g["products"] == want["products"] and g["reversible"] == want["reversible"]
                 and (g["body"] == want["body"]
                      or r["kind"] == "Chebyshev" and g["body"] in (None, "(M)"))]
        if not found:
            c.fail("every reaction appears", "reaction missing", r["eq"])
            continue
        left.remove(found[0])
        check_reaction(c, r, found[0], names)


ELEMENTS = ("H", "O", "Ar")


@harness(
    quick=[{"kind": k} for k in EQUATIONS],
    thorough=[{"kind": k, "big": True} for k in EQUATIONS],
    covers=["written"], path_seconds=60,
    bounds="one reaction of every supported type, order 1 to 3 (also 1.5), reversible and "
           "irreversible, every legal number of falloff parameters, 1-3 P-log rates (two of them "
           "possibly at one pressure), 1-3 x 1-3 Chebyshev coefficients (1-5 x 1-5 thorough), up to "
           "3 efficiencies, default efficiency one or arbitrary; all numbers arbitrary (A in [1e-20, "
           "1e30], b in [-20, 20], Ea in [-1e8, 1e9] J/kmol and similar)")
def reactions(c, kind, big=False):
    eq = c.choice("equation", EQUATIONS[kind])
    kw = {}
    if kind in ("falloff", "falloff collider", "activated"):
        kw["form"] = c.choice("form", FORMS)
    if kind == "PLOG":
        kw["n"] = c.choice("n", [1, 2, 3, 5] if big else [1, 2, 3])
        if kw["n"] > 1:
            kw["same"] = c.choice("same pressure", [(), (0,), (kw["n"] - 2,)][:kw["n"]])
    if kind == "Chebyshev":
        kw["size"] = c.choice("size", [(1, 1), (1, 3), (2, 1), (3, 2), (2, 3)]
                              + ([(4, 4), (5, 5), (5, 1)] if big else []))
    if "M" in eq:
        kw["eff"] = c.choice("eff", [(), ("H2O",), ("AR", "H2", "H2O")]
                             + ([tuple(models.SPECIES)] if big else []))
        kw["default"] = None if c.flag("default") else 1.0
    rx = [a_reaction(c, "r", kind, eq, **kw)]
    sp = default_species()
    t, files = export(c, sp, rx)
    check_mechanism(c, t, "out/mech.inp", sp, rx, ELEMENTS)
    c.cover("written")


PAIR = [("Arrhenius", 1, {}), ("three-body", 1, {"eff": ("H2O",)}), ("collider", 0, {}),
        ("falloff", 1, {"form": ("Troe", 4), "eff": ("AR",)}), ("falloff", 0, {}),
        ("activated", 0, {"form": ("SRI", 5)}), ("PLOG", 1, {"n": 2}), ("Chebyshev", 0, {})]


@harness(
    quick=[{"first": i} for i in range(len(PAIR))],
    covers=["written"], path_seconds=60,
    bounds="all ordered pairs of 8 kinds of reactions, also as declared duplicates, and a third "
           "reaction after them; all numbers arbitrary")
def pairs(c, first):
    second = c.choice("second", range(len(PAIR)))
    dup = c.flag("duplicates") if second == first else False
    rx = []
    for i, k in enumerate((first, second)):
        kind, e, kw = PAIR[k]
        eq = EQUATIONS[kind][e]
        if i and second == first and not dup:
            # the same kind, another equation
            eq = {"Arrhenius": "HO2 => O + OH", "three-body": "2 O + M => O2 + M",
                  "collider": "2 O + AR => O2 + AR", "falloff": "2 O (+M) <=> O2 (+M)",
                  "activated": "HO2 + H (+M) <=> 2 OH (+M)", "PLOG": "HO2 <=> O + OH",
                  "Chebyshev": "H2 + O2 <=> 2 OH"}[kind]
        rx.append(a_reaction(c, "r%d" % i, kind, eq, dup=dup, **kw))
    rx.append(a_reaction(c, "last", "Arrhenius", "H2 + O <=> H + OH"))
    if len({r["eq"] for r in rx}) < len(rx) and not dup:
        for i, r in enumerate(rx):
            if any(r["eq"] == q["eq"] for j, q in enumerate(rx) if j != i):
                r["dup"] = True
    sp = default_species()
    t, files = export(c, sp, rx)
    check_mechanism(c, t, "out/mech.inp", sp, rx, ELEMENTS)
    c.cover("written")


COMPS = [{"H": 2}, {"O": 1, "H": 1}, {"Ar": 1}, {"C": 12, "H": 26}, {"C": 1, "H": 4, "O": 2},
         {"C": 2, "H": 5, "O": 1, "N": 1}, {"H": 3, "O": 1, "E": -1}, {"C": 100, "H": 202},
         {"C": 1, "H": 2, "O": 1, "N": 1, "Ar": 1}]


@harness(
    quick=[{"n": n} for n in (1, 2)], thorough=[{"n": n} for n in (1, 2, 3)],
    covers=["written"], path_seconds=60,
    bounds="1-2 species (3 thorough) with names of 1-16 characters and 1-5 elements (counts -1 to "
           "202; 5 or more on a continuation line); all 14 NASA coefficients, the temperature limits, and transport data arbitrary; "
           "all geometries; all or only some species with transport data; with and without path")
def species(c, n):
    sp = []
    for i in range(n):
        k = c.choice("comp_%d" % i, range(len(COMPS)) if i == 0 else (0, 3))
        T0, T1, T2 = [c.real("T%d_%d" % (j, i), lo, hi) for j, (lo, hi) in
                      enumerate([(50.0, 900.0), (901.0, 2999.0), (3000.0, 20000.0)])]
        sp.append({"name": ("X", "ABCDEF(S)-GH123%d" % i, "C2H%d" % i)[(i + k) % 3] + "YZ"[
            :i if (i + k) % 3 != 1 else 0], "comp": COMPS[k], "T": (T0, T1, T2),
                   "coeffs": [c.real("a%d_%d" % (j, i), -1e9, 1e9) for j in range(14)]})
        if c.choice("transport_%d" % i, [True, False]):
            sp[-1]["transport"] = any_transport(c, "t%d" % i, c.choice(
                "geometry_%d" % i, ["atom", "linear", "nonlinear"]))
    names = [s["name"] for s in sp]
    path = c.choice("path", ["out", ""])
    t, files = export(c, sp, [], path=path)
    check_mechanism(c, t, os.path.join(path, "mech.inp"), sp, [],
                    {e for s in sp for e in s["comp"]})
    all_t = all("transport" in s for s in sp)
    want = [os.path.join(path, "mech" + x) for x in (".inp", "_thermo.dat")
            + (("_transport.dat",) if all_t else ())]
    c.check(sorted(os.path.normpath(f) for f in files) == sorted(want)
            and all(os.path.isfile(f) for f in want), "the files are reported and exist", "files",
            str(files))
    try:
        th = chemkin.thermo(t, want[1])
    except Unreadable as e:
        c.fail("the thermodynamics file is readable", "thermo unreadable", str(e))
        return
    if c.check(sorted(x["name"] for x in th) == sorted(names), "thermodynamic data of every species "
               "once", "thermo species", str([x["name"] for x in th])):
        for s in sp:
            x = [y for y in th if y["name"] == s["name"]][0]
            c.check({k.upper(): v for k, v in x["comp"].items()}
                    == {k.upper(): v for k, v in s["comp"].items()}, "composition", "composition",
                    str(x["comp"]))
            c.check(x["phase"] == "G", "gas phase", "phase")
            for a, b in zip(x["T"], s["T"]):
                number(c, a, b, "temperature limit", "temperature", sig=4, dec=2)
            for i, (a, b) in enumerate(zip(x["coeffs"], s["coeffs"])):
                number(c, a, b, "thermodynamic coefficient", "coefficient %d" % i, sig=9)
    if all_t:
        try:
            tr = chemkin.transport(t, want[2])
        except Unreadable as e:
            c.fail("the transport file is readable", "transport unreadable", str(e))
            return
        if c.check(sorted(x["name"] for x in tr) == sorted(names), "transport data of every species "
                   "once", "transport species", str([x["name"] for x in tr])):
            for s in sp:
                x = [y for y in tr if y["name"] == s["name"]][0]
                d = s["transport"]
                c.check(x["geometry"] == {"atom": "0", "linear": "1", "nonlinear": "2"}[
                    d["geometry"]], "geometry", "geometry", x["geometry"])
                k, debye = 1.380649e-23, 3.3356409519815204e-30
                for a, b, what in zip(x["numbers"], (
                        d["well_depth"] / k, d["diameter"] * 1e10, d["dipole"] / debye,
                        d["polarizability"] * 1e30, d["rotational_relaxation"]),
                        ("well depth", "diameter", "dipole", "polarizability", "relaxation")):
                    number(c, a, b, "transport parameter", what, sig=4, dec=3)
    c.cover("written")


@harness(
    quick=[{}], covers=["written"], path_seconds=60,
    bounds="30 species with names of 1-16 characters (also with hyphens and parentheses), a "
           "reaction line longer than the equation column")
def names(c):
    sp = default_species()
    long = ["A%dB-C(S)D*E'%s" % (i, "F" * (i % 5)) for i in range(1, 22)]
    sp += [{"name": n, "comp": {"H": 1}} for n in long]
    rx = [a_reaction(c, "a", "Arrhenius", " + ".join(long[:3]) + " <=> " + " + ".join(long[3:6])),
          a_reaction(c, "b", "three-body", "%s + M => %s + M" % (long[6], long[7]),
                     eff=(long[8], long[20]))]
    t, files = export(c, sp, rx)
    check_mechanism(c, t, "out/mech.inp", sp, rx, ELEMENTS)
    c.cover("written")


@harness(
    quick=[{}], covers=["written"], path_seconds=60,
    bounds="conversion of a Cantera file (.yaml, .yml, .cti; in the working or another directory; "
           "dots in the name) with and without output path and older output files, by name or by "
           "phase name, with and without thermodynamic and transport files, one species with or "
           "without transport data; model with arbitrary numbers")
def conversion(c):
    env.install(c)
    env.scratch(c)
    t = Tokens(c)
    sp = default_species()
    bare = c.flag("a species without transport data")
    sp = [dict(s, transport=any_transport(c, "t", "linear") if s["name"] == "H2" else
               None if bare and s["name"] == "O2" else
               {"geometry": "atom", "well_depth": 0.0, "diameter": 3e-10, "dipole": 0.0,
                "polarizability": 0.0, "rotational_relaxation": 0.0}) for s in sp]
    rx = [a_reaction(c, "a", "falloff", EQUATIONS["falloff"][1], ("Troe", 4), eff=("H2O",)),
          a_reaction(c, "b", "Arrhenius", "H2 + O <=> H + OH")]
    gas = models.solution(c, sp, rx, name="phase_1")
    file, base = c.choice("file", [("m.yaml", "m"), ("dir/m.yml", "m"), ("a.b.yaml", "a.b"),
                                   ("old.cti", "old"), (None, "phase_1")])
    path = c.choice("path", ["", "out"])
    os.mkdir("out")
    if c.flag("older files"):
        for x in (".inp", "_thermo.dat", "_transport.dat"):
            with open(os.path.join(path, base + x), "w") as f:
                f.write("SPECIES\nOLD\nEND\n" * 100)
    skip = ()
    if file is None:
        skip = tuple(x for x in ("thermo", "transport") if c.flag("skip " + x))
        kw = {"skip_" + x: True for x in skip}
        files = env.mod("soln2ck").write(gas, path=path, **kw)
    else:
        import cantera as ct

        def load(infile="", name="", **k):
            c.check(infile == file and not name, "the given file is converted", "file", infile)
            return gas

        env.patch_module_attrs(c, ct, {"Solution": load})
        files = env.mod("tools").convert(file, path=path) if path else env.mod("tools").convert(file)
    want = [os.path.join(path, base + x) for x in (".inp", "_thermo.dat", "_transport.dat")
            if x.strip("_").split(".")[0] not in skip and not (bare and "transport" in x)]
    c.check(sorted(os.path.normpath(f) for f in files) == sorted(want)
            and all(os.path.isfile(f) for f in want), "the files are reported and exist", "files",
            str(files))
    check_mechanism(c, t, want[0], sp, rx, ELEMENTS)
    try:
        for f in want[1:]:
            read = chemkin.thermo if "thermo" in f else chemkin.transport
            c.check(sorted(x["name"] for x in read(t, f)) == sorted(models.SPECIES),
                    "every species once", "data species", f)
    except Unreadable as e:
        c.fail("the data files are readable", "unreadable data", str(e))
    c.cover("written")
