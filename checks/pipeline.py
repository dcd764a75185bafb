"""Shared scenario for the reduction drivers (C06, C07, C18, C21).

Real: Cantera on a tiny synthetic mechanism (loading, trimming, writing YAML), the
whole of drg/drgep/pfa/sensitivity_analysis/reduce_model/soln2yaml/sampling.
Stand-ins: the simulation classes (a metric per species set, an arbitrary real) and the
interaction matrices (arbitrary weights)."""

import os

import numpy as np

from symx import core, env

NAMES = ["H2", "O2", "OH", "AR", "HO2"]

ASSUMPTIONS = [
    "a simulation of a model yields one arbitrary non-negative metric that depends only on the "
    "model's species (stub of IgnitionSimulation; the simulations themselves are C11-C13)",
    "interaction matrices are arbitrary (stub of create_*_matrix; their definition is C01-C03); "
    "Cantera itself (loading, Solution construction, write_yaml) is run for real",
    "thresholds and weights are reals; only the listed sparse weight patterns are explored",
]


def write_model(path, names, phase="gas"):
    lines = ["phases:", "- name: %s" % phase, "  thermo: ideal-gas", "  kinetics: gas",
             "  elements: [H]", "  species: [%s]" % ", ".join(names), "  reactions: all",
             "  state: {T: 300.0, P: 1 atm}", "", "species:"]
    for n in names:
        lines += ["- name: %s" % n, "  composition: {H: 1}",
                  "  thermo: {model: constant-cp, h0: 0 J/mol, cp0: 30 J/mol/K}"]
    lines += ["", "reactions:"]
    for i, a in enumerate(names):
        b = names[(i + 1) % len(names)]
        lines += ["- equation: %s => %s" % (a, b),
                  "  rate-constant: {A: %d, b: 0, Ea: 0}" % (i + 1)]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def species_in(filename, phase=""):
    import cantera as ct

    return tuple(ct.Solution(filename, phase).species_names)


class World:
    """Everything a driver run sees, plus bookkeeping for the oracle."""

    def __init__(self, c, names, rows=2, phase=""):
        self.c = c
        self.names = list(names)
        self.full = frozenset(names)
        self.metrics = {}
        self.rows = rows
        self.phase = phase
        self.start_metric = 100.0
        self.simulated = []

    def metric(self, species):
        """The (memoised) metric of the model consisting of these species."""
        s = frozenset(species)
        if s == self.full:
            return self.start_metric
        if s not in self.metrics:
            self.metrics[s] = self.c.real(
                "m_" + "_".join(x for x in self.names if x in s), 0.0, 400.0)
        return self.metrics[s]

    def error(self, species, base=None):
        """Error as C08 defines it."""
        m = self.metric(species)
        b = 100.0 if base is None else base
        if not core.is_sym(m) and not core.is_sym(b) and m == b:
            return 0.0
        return core.Ite(m == 0, 100.0, abs(b - m) / b * 100)

    def row(self, i):
        k = len(self.names)
        return [1000.0 + i, 101325.0 + i] + [(j + 1.0 + i) / (k + i) / 10 for j in range(k)]

    def install(self):
        c, world = self.c, self
        sim = env.mod("simulation")

        class StubIgnition(sim.IgnitionSimulation):
            def setup_case(self):
                self.save_file = None

            def _species(self):
                s = species_in(self.model, self.phase_name)
                world.simulated.append((self.model, frozenset(s)))
                return s

            def run_case(self, *a, **k):
                return world.metric(self._species())

            def calculate(self):
                return world.metric(self._species())

            def process_results(self, skip_data=False):
                m = world.metric(self._species())
                if skip_data:
                    return m
                return m, np.array([world.row(i) for i in range(world.rows)])

            def clean(self):
                pass

        env.patch_everywhere(c, sim.IgnitionSimulation, StubIgnition)

    def install_matrices(self, mats):
        """mats: list of nested weight lists; row i of the sampled data gets matrix
        i modulo their number.  A state that is not a sampled row is an error."""
        c, world = self.c, self

        def stub(state, solution):
            t, p, y = state
            i = int(round(float(t) - 1000.0))
            r = world.row(i)
            if not (0 <= i < world.rows and float(t) == r[0] and float(p) == r[1]
                    and len(y) == len(world.names)
                    and all(float(a) == b for a, b in zip(y, r[2:]))):
                c.fail("the matrices are evaluated at the sampled states", "state",
                       "%r %r %r" % (t, p, y))
            return env.arr(c, mats[i % len(mats)])

        for m in ("drg", "drgep", "pfa"):
            env.patch_everywhere(c, getattr(env.mod(m), "create_%s_matrix" % m), stub)

    def condition(self):
        return env.mod("sampling").InputIgnition("constant volume", 1000.0, 1.0,
                                                 reactants={self.names[0]: 1.0})


def reach(w, n, targets, th):
    """Reachable set by exploring (forks on symbolic comparisons)."""
    seen = set(targets)
    todo = list(seen)
    while todo:
        i = todo.pop()
        for j in range(n):
            if j not in seen and j != i:
                x = w[i][j]
                if not core.is_sym(x) and x == 0:
                    continue
                if x >= th:
                    seen.add(j)
                    todo.append(j)
    return seen


def check_model_file(c, filename, model, phase=""):
    """The file holds exactly the returned model."""
    import cantera as ct

    if not os.path.isfile(filename):
        c.fail("the returned file exists", "file missing", filename)
        return
    g = ct.Solution(filename, phase)
    c.check(g.species_names == model.species_names
            and [r.equation for r in g.reactions()] == [r.equation for r in model.reactions()]
            and [r.rate.pre_exponential_factor for r in g.reactions()]
            == [r.rate.pre_exponential_factor for r in model.reactions()],
            "the returned file holds exactly the returned model", "file content",
            "%s vs %s" % (g.species_names, model.species_names))
