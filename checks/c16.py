"""C16: removing species from a model."""

import os

from symx import core, env
from symx.core import HName
from symx.run import harness

ASSUMPTIONS = [
    "cantera.Solution is replaced by a stand-in in 'remove': loading returns species and reaction "
    "objects with the attributes Cantera documents (reactants, products, orders, third_body with "
    "efficiencies, which reads back as a copy, and default_efficiency), and Solution(species=..., "
    "reactions=..., ...) keeps what it is given; every reaction only names species of the model",
    "'remove_for_real' runs Cantera itself, so only the subset of removed species is unknown there",
]


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


class Reaction(Rec):
    def clear_user_data(self):
        """Forgets notes that Cantera keeps for writing the model."""

    def update_user_data(self, data):
        pass


class ThirdBody:
    def __init__(self, eff, default):
        self._eff = dict(eff)
        self.default_efficiency = default
        self.name = "M" if core.is_sym(default) or default else list(eff)[0]

    @property
    def efficiencies(self):
        return dict(self._eff)

    @efficiencies.setter
    def efficiencies(self, v):
        self._eff = dict(v)

    def efficiency(self, name):
        return self._eff.get(name, self.default_efficiency)


class Model:
    """cantera.Solution, loaded or constructed."""

    def __init__(self, species, reactions, transport, t, p, name="", made_with=None):
        self._species, self._reactions = list(species), list(reactions)
        self.transport_model = transport
        self.T, self.P = t, p
        self.name = name
        self.made_with = made_with

    def species(self, k=None):
        if k is None:
            return list(self._species)
        return [s for s in self._species if s.name == k][0] if isinstance(k, str) \
            else self._species[k]

    def reactions(self):
        return list(self._reactions)

    def reaction(self, i):
        return self._reactions[i]

    species_names = property(lambda s: [x.name for x in s._species])
    n_species = property(lambda s: len(s._species))
    n_reactions = property(lambda s: len(s._reactions))

    @property
    def TP(self):
        return self.T, self.P

    @TP.setter
    def TP(self, v):
        self.T, self.P = [o if x is None else x for x, o in zip(v, (self.T, self.P))]


STRUCT = {
    # reactants, products, orders, efficiencies
    "plain": (2, 1, 0, None), "plain products": (1, 2, 0, None), "order": (1, 1, 1, None),
    "collider": (1, 1, 0, 1), "two colliders": (1, 1, 0, 2), "any collider": (1, 1, 0, 0),
    "many": (2, 2, 0, None),
}


def make_reaction(c, tag, kind, names):
    nr, np_, no, ne = STRUCT[kind]

    def keys(what, n):
        ks = [c.name("%s_%s_%d" % (tag, what, i), names) for i in range(n)]
        for i in range(n):
            for j in range(i):
                c.assume(ks[i] != ks[j])
        return ks

    r = Reaction(tag=tag, kind=kind, equation=tag, reaction_type="stand-in", rate=object(),
            duplicate=False, reversible=True)
    r.all = [keys(w, n) for w, n in (("reactant", nr), ("product", np_), ("order", no))]
    r.reactants, r.products, r.orders = [
        {k: float(i + 1) for i, k in enumerate(ks)} for ks in r.all]
    r.third_body, r.eff_in, r.default = None, [], None
    if ne is not None:
        ks = keys("collider", ne)
        r.default = c.fd(tag + "_default", (0.0, 1.0)) if ne else 1.0
        r.eff_in = [(k, c.real("%s_eff_%d" % (tag, i), 0.0, 10.0)) for i, k in enumerate(ks)]
        r.third_body = ThirdBody(dict(r.eff_in), r.default)
    r.before = [dict(r.reactants), dict(r.products), dict(r.orders), r.rate]
    return r


QUICK = [{"kinds": [k], "n": 3, "excl": 2} for k in STRUCT if k not in ("two colliders", "many")] \
    + [{"kinds": ["two colliders"], "n": 3, "excl": 1}, {"kinds": ["many"], "n": 3, "excl": 1},
       {"kinds": ["plain", "collider"], "n": 3, "excl": 1},
       {"kinds": ["plain"], "n": 2, "excl": 0}]


@harness(
    quick=QUICK,
    thorough=QUICK + [{"kinds": [k], "n": 4, "excl": 1} for k in ("order", "collider")]
    + [{"kinds": ["any collider"], "n": 3, "excl": 3},
       {"kinds": ["order", "collider"], "n": 3, "excl": 1}],
    covers=["kept", "removed", "efficiency dropped", "only collider removed"], path_seconds=60,
    bounds="models of up to 3 species (4 thorough) and 1-2 reactions (3 thorough) with arbitrary "
           "reactants, products, orders, colliders, efficiencies and default efficiency 0 or 1, any "
           "exclusion list of up to 2 names (3 thorough) which may name unknown species or repeat "
           "itself, with and without phase name")
def remove(c, kinds, n, excl):
    env.install(c)
    env.scratch(c)
    import cantera as ct

    names = tuple("S%d" % i for i in range(n))
    species = [Rec(name=HName(x), composition={"H": 1.0}) for x in names]
    gone = [c.name("excluded_%d" % i, names + ("XX",)) for i in range(excl)]
    reactions = [make_reaction(c, "r%d" % i, k, names) for i, k in enumerate(kinds)]
    phase = c.choice("phase", ["", "gas"])
    transport = c.choice("transport", ["mixture-averaged", "none"]) if len(kinds) > 1 else "Mix"
    t, p = c.real("T", 200.0, 3000.0), c.real("P", 1.0, 1e8)
    loads, built = [], []

    def solution(infile="", name="", **k):
        infile = k.pop("infile", infile)
        name = k.pop("name", name)
        if infile:
            loads.append((infile, name))
            return Model(species, reactions, transport, t, p, name or "phase-in-file")
        m = Model(k.pop("species"), k.pop("reactions"), k.pop("transport_model", "default"),
                  300.0, 101325.0, name, k)
        built.append(m)
        return m

    env.patch_module_attrs(c, ct, {"Solution": solution})
    listed = list(gone)
    got = env.mod("reduce_model").trim("mech.yaml", listed, "new_model.yaml", phase_name=phase) \
        if phase else env.mod("reduce_model").trim("mech.yaml", listed, "new_model.yaml")
    c.check(len(listed) == len(gone) and all(a is b for a, b in zip(listed, gone)),
            "the exclusion list is not modified", "list")
    c.check(bool(loads) and all(x == ("mech.yaml", phase) for x in loads),
            "the given model and phase are loaded", "load")
    c.check(bool(built) and got is built[-1], "a new model is built", "new")
    c.check(str(got.made_with.get("thermo")).lower().replace("-", "") == "idealgas"
            and got.made_with.get("kinetics") in ("bulk", "gas", "Bulk", "Gas", "bulk-kinetics"),
            "the new model is an ideal gas with bulk kinetics", "kind")

    def removed(x):
        return core.Or(*[x == g for g in gone])

    def position(seq, x):
        return [i for i, y in enumerate(seq) if y is x]

    last = -1
    for s in species:
        at = position(got.species(), s)
        c.check(core.Iff(len(at) == 1, core.Not(removed(s.name))),
                "exactly the excluded species are gone", "species", s.name)
        c.check(len(at) <= 1 and (not at or at[0] > last), "species order", "species order")
        last = at[0] if at else last
    c.check(len(got.species()) <= n, "no new species", "new species")
    last = -1
    for r in reactions:
        at = position(got.reactions(), r)
        named = [x for ks in r.all for x in ks]
        lone = core.And(r.default == 0, removed(r.eff_in[0][0])) if len(r.eff_in) == 1 else False
        c.check(core.Iff(len(at) == 1, core.Not(core.Or(lone, *[removed(x) for x in named]))),
                "exactly the reactions that remain meaningful are kept", "reactions", r.kind)
        c.check(len(at) <= 1 and (not at or at[0] > last), "reaction order", "reaction order")
        last = at[0] if at else last
        c.check([r.reactants, r.products, r.orders, r.rate] == r.before,
                "reactions are unchanged", "reaction changed")
        if not at:
            c.cover("removed")
            if core.is_sym(lone) and c.feasible(lone):
                c.cover("only collider removed")
            elif lone is True:
                c.cover("only collider removed")
            continue
        c.cover("kept")
        if r.third_body is None:
            continue
        c.check(c.eq(r.third_body.default_efficiency, r.default), "default efficiency is unchanged",
                "default")
        left = r.third_body.efficiencies
        for k, v in r.eff_in:
            here = [b for a, b in left.items() if a is k or a == k]
            c.check(core.Iff(len(here) == 1, core.Not(removed(k))),
                    "efficiencies of exactly the removed species are gone", "efficiency", r.kind)
            if here:
                c.check(c.eq(here[0], v), "efficiencies of other species are unchanged",
                        "efficiency value")
            else:
                c.cover("efficiency dropped")
        c.check(len(left) <= len(r.eff_in), "no new efficiencies", "new efficiency")
    c.check(core.And(c.eq(got.T, t), c.eq(got.P, p)), "temperature and pressure are kept", "state")
    c.check(got.transport_model == transport, "the transport model is kept", "transport",
            str(got.transport_model))
    c.check(got.name == (phase or "new_model"), "phase name", "name", str(got.name))
    c.observe("kept", [len(got.species()), len(got.reactions())])


MECH = """
phases:
- name: gas
  thermo: ideal-gas
  kinetics: gas
  transport: mixture-averaged
  elements: [H, O, N, Ar]
  species: [H2, H, O2, OH, HO2, AR, N2]
  reactions: all
  state: {T: 320.0, P: 2 atm}
species:
"""
COMP = {"H2": "H: 2", "H": "H: 1", "O2": "O: 2", "OH": "O: 1, H: 1", "HO2": "H: 1, O: 2",
        "AR": "Ar: 1", "N2": "N: 2"}
RATE = "rate-constant: {A: 1.0e10, b: 0.5, Ea: 100.0}"
LOHI = ("low-P-rate-constant: {A: 1.0e12, b: 0.0, Ea: 0.0}\n"
        "  high-P-rate-constant: {A: 1.0e10, b: 0.0, Ea: 0.0}")
RXNS = [
    "equation: H2 + O2 <=> 2 OH\n  " + RATE,
    "equation: 2 H + M <=> H2 + M\n  type: three-body\n  %s\n"
    "  efficiencies: {AR: 0.5, N2: 1.5, H2: 2.0}" % RATE,
    "equation: H + O2 + AR <=> HO2 + AR\n  type: three-body\n  " + RATE,
    "equation: H + O2 (+N2) <=> HO2 (+N2)\n  type: falloff\n  %s\n  duplicate: true" % LOHI,
    "equation: H + O2 (+M) <=> HO2 (+M)\n  type: falloff\n  %s\n  duplicate: true\n"
    "  efficiencies: {N2: 0.0, OH: 3.0}" % LOHI,
    "equation: H2 + O2 => HO2 + H\n  %s\n  orders: {H2: 0.5}" % RATE,
    "equation: H2 => 2 H\n  %s\n  orders: {AR: 1.0}\n  nonreactant-orders: true" % RATE,
    "equation: HO2 + H <=> O2 + H2\n  type: pressure-dependent-Arrhenius\n  rate-constants:\n"
    "  - {P: 1 atm, A: 1.0e10, b: 0.0, Ea: 0.0}\n  - {P: 10 atm, A: 2.0e10, b: 0.0, Ea: 0.0}",
]


def mech_text():
    out = MECH
    for s, comp in COMP.items():
        out += ("- name: %s\n  composition: {%s}\n"
                "  thermo: {model: NASA7, temperature-ranges: [200.0, 3500.0],\n"
                "           data: [[3.5, 0.0, 0.0, 0.0, 0.0, -1000.0, 3.0]]}\n"
                "  transport: {model: gas, geometry: %s, well-depth: 100.0, diameter: 3.0}\n"
                % (s, comp, "atom" if s in ("H", "AR") else "linear"))
    return out + "reactions:\n" + "".join("- %s\n" % r for r in RXNS)


def description(r, without=()):
    tb = r.third_body
    # the rate is compared as Cantera serialises it
    rate = {k: v for k, v in dict(r.rate.input_data).items() if k != "efficiencies"}
    eff = None if tb is None else (tb.default_efficiency, sorted(
        (k, v) for k, v in tb.efficiencies.items() if k not in without))
    return (r.equation, r.reaction_type, r.reactants, r.products, r.orders, r.duplicate,
            r.reversible, eff, repr(rate))


@harness(
    quick=[{"free": f} for f in (("AR", "N2", "HO2"), ("H2", "OH", "N2"))],
    thorough=[{"free": tuple(COMP)}],
    covers=["kept", "dropped"], path_seconds=60,
    bounds="one synthetic 7-species model with every kind of reaction, every subset of 3 species "
           "removed (all 7: thorough)")
def remove_for_real(c, free):
    env.install(c)
    env.scratch(c)
    import cantera as ct

    with open("mech.yaml", "w") as f:
        f.write(mech_text())
    gone = [s for s in free if c.flag("remove_" + s)]
    if len(gone) == len(COMP):
        gone = gone[1:]  # a model without species is outside the claim
    old = ct.Solution("mech.yaml")
    got = env.mod("reduce_model").trim("mech.yaml", gone, "small.yaml", phase_name="gas")
    c.check(got.species_names == [s for s in COMP if s not in gone], "species", "species")
    want = []
    for r in old.reactions():
        tb = r.third_body
        bad = set(gone) & (set(r.reactants) | set(r.products) | set(r.orders))
        if tb is not None and tb.default_efficiency == 0 and len(tb.efficiencies) == 1:
            bad |= set(gone) & set(tb.efficiencies)
        if bad:
            c.cover("dropped")
        else:
            want.append(description(r, gone))
            c.cover("kept")
    c.check([description(r) for r in got.reactions()] == want, "the remaining reactions",
            "reactions")
    c.check(got.transport_model == old.transport_model and abs(got.T - old.T) < 1e-9
            and abs(got.P - old.P) < 1e-3 and got.name == "gas", "state, transport and name",
            "state")
    for s in got.species():
        o = old.species(s.name)
        c.check(s.composition == o.composition and s.thermo.input_data == o.thermo.input_data
                and s.transport.input_data == o.transport.input_data, "species are unchanged",
                "species data")
    env.mod("soln2yaml").write(got, "small.yaml", path="")
    again = ct.Solution("small.yaml")
    # Cantera itself drops the duplicate mark of a reaction left without its partner

    def unmarked(x):
        return x[:5] + x[6:]

    c.check(again.species_names == got.species_names
            and [unmarked(description(r)) for r in again.reactions()] == [unmarked(x) for x in want],
            "the written model loads and is the same", "reload")
