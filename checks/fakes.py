"""Stand-ins for Cantera objects, shared by several checks.  Each documents the
Cantera contract it assumes."""

from symx import core, env


class KineticsFake:
    """cantera.Solution as seen by the direct-interaction-coefficient routines.

    Contract: stoichiometric coefficient matrices have shape (n_species, n_reactions);
    rates of progress belong to the state most recently set through TPY / TP+Y (before
    any state is set they are unrelated values)."""

    def __init__(self, c, react, prod, net, stale):
        self._c = c
        self._react = react
        self._prod = prod
        self._net = net
        self._stale = stale
        self.n_species = len(react)
        self.n_total_species = self.n_species
        self.n_reactions = len(react[0])
        self.species_names = ["S%d" % i for i in range(self.n_species)]
        self.T = self.P = self.Y = None
        self.writes = []

    def _arr(self, x):
        return env.arr(self._c, x)

    @property
    def product_stoich_coeffs(self):
        return self._arr(self._prod)

    @property
    def reactant_stoich_coeffs(self):
        return self._arr(self._react)

    @property
    def TPY(self):
        return self.T, self.P, self.Y

    @TPY.setter
    def TPY(self, v):
        self.T, self.P, self.Y = v

    @property
    def TP(self):
        return self.T, self.P

    @TP.setter
    def TP(self, v):
        self.T, self.P = v

    def state_set(self):
        return self.T is not None and self.P is not None and self.Y is not None

    @property
    def net_rates_of_progress(self):
        return self._arr(self._net if self.state_set() else self._stale)

    @property
    def net_production_rates(self):
        r = self.net_rates_of_progress
        return [sum((self._prod[i][j] - self._react[i][j]) * r[j]
                    for j in range(self.n_reactions)) for i in range(self.n_species)]

    def species_index(self, n):
        return self.species_names.index(n) if isinstance(n, str) else n

    def species_name(self, i):
        return self.species_names[i]


def kinetics(c, ns, nr, values=(0.0, 1.0, 2.0), net_zero_fork=False):
    react = [[c.fd("r_%d_%d" % (i, j), values) for j in range(nr)] for i in range(ns)]
    prod = [[c.fd("p_%d_%d" % (i, j), values) for j in range(nr)] for i in range(ns)]
    net = [c.real("q_%d" % j) for j in range(nr)]
    stale = [1.0 + j for j in range(nr)]
    return react, prod, net, stale


KINETICS_ASSUMPTIONS = [
    "cantera.Solution is replaced by a stand-in: stoichiometric matrices are "
    "(n_species, n_reactions), rates of progress belong to the last state set; the "
    "numerical values Cantera would compute are arbitrary reals here",
]
