"""C17: validation of simulation-case input."""

from symx import core, env
from symx.run import harness

ASSUMPTIONS = [
    "cantera.Solution is replaced by a stand-in that only knows its species names; values have the "
    "types the documentation asks for (numbers, mappings from species name to number, strings)",
]

KNOWN = ("S0", "S1")
UNIVERSE = KNOWN + ("XX",)
KINDS = {
    "ignition": ("parse_ignition_inputs",),
    "psr": ("parse_psr_inputs",),
    "flame": ("parse_flame_inputs",),
}


class Model:
    species_names = list(KNOWN)
    n_species = len(KNOWN)

    def __init__(self, *source):
        self.source = source

    def species_index(self, name):
        if name not in self.species_names:
            raise ValueError("no such species")
        return self.species_names.index(name)


def mixture(c, tag, how):
    """(mapping or None, entries); the entries' names and amounts are arbitrary."""
    if how == "absent":
        return None, []
    if how == "empty":
        return {}, []
    n = 1 if how == "one" else 2
    names = [c.name("%s_species_%d" % (tag, i), UNIVERSE) for i in range(n)]
    if n == 2:
        c.assume(names[0] != names[1])
    amounts = [c.real("%s_amount_%d" % (tag, i), -1.0, 10.0) for i in range(n)]
    return dict(zip(names, amounts)), list(zip(names, amounts))


def optional(c, case, key, kind, lo, hi):
    """An optional number: omitted or arbitrary; returns it (None if omitted)."""
    if not c.flag("has_" + key):
        return None
    v = c.int(key, lo, hi) if kind is int else c.real(key, lo, hi)
    case[key] = v
    return v


def valid_entries(entries):
    return core.And(*[core.And(a > 0, core.Or(*[s == k for k in KNOWN])) for s, a in entries])


def build(c, kind, mix, tag=""):
    """One case: (dict as in the input file, validity, expected fields)."""
    case = {}
    want = {}
    ok = []
    base = optional(c, case, "temperature" + tag, float, -100.0, 4000.0)
    if tag:
        case = {k[:-len(tag)]: v for k, v in case.items()}
    ok.append(False if base is None else base > 0)
    want["temperature"] = base
    p = c.real("pressure" + tag, -1.0, 100.0)
    case["pressure"] = p
    ok.append(p > 0)
    want["pressure"] = p
    if kind == "ignition":
        how = c.choice("kind" + tag, ["constant volume", "constant pressure", "omitted", "volume"])
        if how != "omitted":
            case["kind"] = how
        ok.append(how.startswith("constant"))
        want["kind"] = how
    fuel, oxid, react, with_phi = mix
    phi = None
    if with_phi:
        phi = c.real("equivalence_ratio" + tag, -1.0, 10.0)
        case["equivalence-ratio"] = phi
    parts = {}
    for name, how in (("fuel", fuel), ("oxidizer", oxid), ("reactants", react)):
        m, entries = mixture(c, name + tag, how)
        if m is not None:
            case[name] = m
        parts[name] = entries
        want[name] = entries
    want["equivalence_ratio"] = 0.0 if phi is None else phi
    nonzero = False if phi is None else phi != 0
    by_phi = core.Or(nonzero, bool(parts["fuel"]), bool(parts["oxidizer"]))
    by_react = bool(parts["reactants"])
    ok.append(core.Or(core.And(by_phi, not by_react), core.And(core.Not(by_phi), by_react)))
    ok.append(core.Implies(by_phi, core.And(
        False if phi is None else phi > 0, bool(parts["fuel"]), bool(parts["oxidizer"]))))
    for entries in parts.values():
        ok.append(valid_entries(entries))
    comp = c.choice("composition-type" + tag, ["omitted", "mole", "mass", "volume"])
    if comp != "omitted":
        case["composition-type"] = comp
    want["composition_type"] = "mole" if comp == "omitted" else comp
    ok.append(comp != "volume")
    ok.append(core.Not(core.And(comp == "mass", by_phi)))
    return case, core.And(*ok), want


def check_fields(c, got, want):
    for name, w in want.items():
        g = getattr(got, name)
        if isinstance(w, list):
            items = list(g.items()) if isinstance(g, dict) else list(g)
            c.check(len(items) == len(w) and core.And(*[
                core.And(a[0] == b[0], c.eq(a[1], b[1])) for a, b in zip(items, w)]),
                "the given values are carried over", name, "%s" % (items,))
        elif isinstance(w, str):
            c.check(g == w, "the given values are carried over", name, "%s" % (g,))
        else:
            c.check(c.eq(g, w), "the given values are carried over", name, "%s" % (g,))


SHAPES = [("one", "one", "absent", True), ("absent", "absent", "one", False),
          ("absent", "absent", "two", False), ("two", "one", "empty", True),
          ("one", "two", "absent", True),
          ("empty", "one", "absent", True), ("one", "absent", "absent", True),
          ("one", "one", "absent", False), ("absent", "one", "one", False),
          ("one", "one", "one", True), ("absent", "absent", "one", True),
          ("absent", "absent", "absent", True), ("absent", "absent", "absent", False),
          ("empty", "empty", "one", False), ("absent", "absent", "empty", True)]


@harness(
    quick=[{"kind": k} for k in KINDS],
    covers=["accepted", "rejected", "default"], path_seconds=60,
    bounds="one case; every optional entry present or omitted; arbitrary temperature, pressure, "
           "equivalence ratio, width, end time and step limit; 0-2 fuel, oxidizer and reactant "
           "entries with arbitrary species (known or not) and amounts")
def one_case(c, kind):
    env.install(c)
    env.scratch(c)
    import cantera as ct

    loads = []

    def solution(infile="", name="", **k):
        loads.append((infile, name))
        return Model(infile, name)

    env.patch_module_attrs(c, ct, {"Solution": solution})
    mix = c.choice("mixture", SHAPES)
    case, ok, want = build(c, kind, mix)
    extra = {"ignition": (("end-time", float, "end_time", 0.0), ("max-steps", int, "max_steps", 10000)),
             "psr": (), "flame": (("width", float, "width", 0.1),)}[kind]
    for key, typ, field, default in extra:
        v = optional(c, case, key, typ, -1 if key == "width" else 0, 100)
        want[field] = default if v is None else v
        if v is None:
            c.cover("default")
        elif key == "width":
            ok = core.And(ok, v > 0)
    if not extra:
        c.cover("default")
    phase = c.choice("phase", ["", "gas"]) if mix == SHAPES[0] else ""
    before = dict(case)
    parse = getattr(env.mod("sampling"), KINDS[kind][0])
    try:
        got = parse("mech.yaml", [case], phase_name=phase) if phase else parse("mech.yaml", [case])
    except Exception:
        c.check(core.Not(ok), "a valid case is accepted", "rejected", str(case.keys()))
        c.cover("rejected")
        return
    c.check(ok, "an invalid case raises an error", "accepted", "%s" % (case,))
    c.check(len(got) == 1, "one record per case", "count")
    check_fields(c, got[0], want)
    c.check(list(case) == list(before), "the input is not modified", "input")
    c.check(bool(loads) and all(x == ("mech.yaml", phase) for x in loads),
            "the given model and phase are used", "load")
    c.cover("accepted")
    c.observe("pressure", got[0].pressure)


@harness(
    quick=[{"kind": k} for k in KINDS],
    thorough=[{"kind": k, "shapes": 8} for k in KINDS],
    covers=["accepted", "second rejected", "first rejected"], path_seconds=60,
    bounds="two cases of different shapes with arbitrary values: each is judged on its own and "
           "records come in order")
def two_cases(c, kind, shapes=2):
    env.install(c)
    env.scratch(c)
    import cantera as ct

    env.patch_module_attrs(c, ct, {"Solution": lambda *a, **k: Model(*a)})
    cases = []
    for i in range(2):
        mix = SHAPES[i] if shapes == 2 else c.choice("mixture_%d" % i, SHAPES[:shapes])
        tag = "_%d" % i
        want = {"fuel": [], "oxidizer": [], "reactants": []}
        case = {"temperature": 300.0 + i}
        want["temperature"] = 300.0 + i
        p = case["pressure"] = want["pressure"] = c.real("pressure" + tag, -1.0, 100.0)
        ok = [p > 0]
        if kind == "ignition":
            case["kind"] = want["kind"] = ["constant volume", "constant pressure"][i]
            want["end_time"], want["max_steps"] = 0.0, 10000
            if i == 0:
                case["end-time"] = want["end_time"] = c.real("end_time", 0.0, 10.0)
                case["max-steps"] = want["max_steps"] = c.int("max_steps", 1, 100)
        if kind == "flame":
            want["width"] = 0.1
            if i == 0:
                case["width"] = want["width"] = c.real("width", 0.0, 10.0, lo_open=True)
        want["composition_type"] = "mole"
        want["equivalence_ratio"] = 0.0
        if mix[3]:
            phi = c.real("phi" + tag, -1.0, 10.0)
            case["equivalence-ratio"] = want["equivalence_ratio"] = phi
        for name, how in zip(("fuel", "oxidizer", "reactants"), mix):
            m, entries = mixture(c, name + tag, how)
            want[name] = entries
            if m is not None:
                case[name] = m
            ok.append(valid_entries(entries))
        if mix[3]:
            any_phi = core.Or(phi != 0, bool(want["fuel"]), bool(want["oxidizer"]))
            ok.append(core.Implies(any_phi, core.And(phi > 0, bool(want["fuel"]),
                                                     bool(want["oxidizer"]))))
            ok.append(any_phi != bool(want["reactants"]) if not core.is_sym(any_phi) else
                      (core.Not(any_phi) if want["reactants"] else any_phi))
        else:
            by_phi = bool(want["fuel"] or want["oxidizer"])
            ok.append(not by_phi and bool(want["reactants"]))
        if i == 1 and not mix[3]:
            case["composition-type"] = want["composition_type"] = "mass"
        cases.append((case, core.And(*ok), want))
    try:
        got = getattr(env.mod("sampling"), KINDS[kind][0])("mech.yaml", [x[0] for x in cases])
    except Exception:
        c.check(core.Not(core.And(*[x[1] for x in cases])), "valid cases are accepted", "rejected")
        first = cases[0][1]
        if not core.is_sym(first):
            c.cover("second rejected" if first else "first rejected")
        elif c.feasible(first):
            c.cover("second rejected")
        if not (first is True) and (c.concrete or c.feasible(core.Not(first))):
            c.cover("first rejected")
        return
    c.check(core.And(*[x[1] for x in cases]), "every invalid case raises an error", "accepted")
    c.check(len(got) == 2, "one record per case", "count")
    for g, (_, _, want) in zip(got, cases):
        check_fields(c, g, want)
    c.cover("accepted")


@harness(
    quick=[{"kind": k, "n": 25, "size": 12} for k in KINDS],
    thorough=[{"kind": k, "n": 150, "size": 40} for k in KINDS],
    covers=["accepted", "rejected"], path_seconds=60,
    bounds="25 cases (150 in the thorough tier) with mixtures of 12 (40) species, one case of which "
           "(first, last or between) has one arbitrary entry and arbitrary conditions")
def many_cases(c, kind, n, size):
    env.install(c)
    env.scratch(c)
    import cantera as ct

    known = tuple("S%d" % i for i in range(size))

    class Big(Model):
        species_names = list(known)
        n_species = size

    env.patch_module_attrs(c, ct, {"Solution": lambda *a, **k: Big(*a)})
    at = c.choice("case", [0, 1, n // 2, n - 1])
    entry = c.choice("entry", [0, size // 2, size - 1])
    part = c.choice("part", ["fuel", "oxidizer", "reactants"])
    cases, wants, ok = [], [], True
    for i in range(n):
        case = {"temperature": 300.0 + i, "pressure": 1.0 + i / 4.0}
        if kind == "ignition":
            case["kind"] = ("constant volume", "constant pressure")[i % 2]
        mine = i == at
        if (part if mine else ("fuel", "reactants")[i % 2]) == "reactants":
            parts = {"reactants": [(s, 0.5 + j) for j, s in enumerate(known)]}
        else:
            parts = {"fuel": [(s, 0.5 + j) for j, s in enumerate(known)],
                     "oxidizer": [(s, 1.5 + j) for j, s in enumerate(known[::-1])]}
            case["equivalence-ratio"] = 0.5 + i / 8.0
        if mine:
            s = c.name("species", (known[entry], "XX"))
            x = c.real("amount", -1.0, 10.0)
            parts[part][entry if part != "oxidizer" else size - 1 - entry] = (s, x)
            t, p = c.real("temperature", -100.0, 4000.0), c.real("pressure", -1.0, 100.0)
            case.update(temperature=t, pressure=p)
            ok = core.And(s == known[entry], x > 0, t > 0, p > 0)
            if "equivalence-ratio" in case:
                case["equivalence-ratio"] = c.real("phi", -1.0, 10.0)
                ok = core.And(ok, case["equivalence-ratio"] > 0)
        case.update({k: dict(v) for k, v in parts.items()})
        want = {"fuel": [], "oxidizer": [], "reactants": []}
        want.update({k.replace("-", "_"): v for k, v in case.items()})
        want.update(parts)
        cases.append(case)
        wants.append(want)
    try:
        got = getattr(env.mod("sampling"), KINDS[kind][0])("mech.yaml", cases)
    except Exception:
        c.check(core.Not(ok), "valid cases are accepted", "rejected", "case %d" % at)
        c.cover("rejected")
        return
    c.check(ok, "every invalid case raises an error", "accepted", "case %d" % at)
    c.check(len(got) == n, "one record per case", "count")
    for g, want in zip(got, wants):
        check_fields(c, g, want)
    c.cover("accepted")
