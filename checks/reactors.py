"""Stand-ins for the Cantera objects behind the simulation classes (C10-C13, C15)."""

import os

import numpy as np

from symx import core, env

ASSUMPTIONS = [
    "cantera is replaced by stand-ins: a Solution only remembers the temperature, pressure and "
    "composition it was given (set_equivalence_ratio keeps T and P, setting X or Y alone does not "
    "keep P); a reactor network follows one arbitrary trajectory (strictly increasing times; "
    "arbitrary temperature, pressure, mass fractions and solver state per step) and may raise "
    "CanteraError at any step; what Cantera would compute is outside the claim",
]


class Gas:
    """cantera.Solution: remembers the state it is given."""

    def __init__(self, c, n_species=2, source=("", "")):
        self._c = c
        self.source = source
        self.n_species = n_species
        self.species_names = ["S%d" % i for i in range(n_species)]
        self.T = 300.0
        self._p = 101325.0
        self.comp = None  # ("mole"|"mass", mixture) or ("phi", ratio, fuel, oxidizer)
        self._n = 0

    def _lost(self):
        """P is no longer what was set."""
        self._n += 1
        return self._c.real("lost_P_%d" % self._n, 0.0, 1e9, lo_open=True)

    @property
    def P(self):
        return self._p

    def _get(self, *what):
        return tuple(self.T if w == "T" else self._p if w == "P" else self.Y for w in what)

    TP = property(lambda s: (s.T, s._p), lambda s, v: s._set(v))
    TPX = property(lambda s: (s.T, s._p, s.comp), lambda s, v: s._set(v, "mole"))
    TPY = property(lambda s: (s.T, s._p, s.comp), lambda s, v: s._set(v, "mass"))

    def _set(self, v, kind=None):
        if v[0] is not None:
            self.T = v[0]
        if v[1] is not None:
            self._p = v[1]
        if kind and v[2] is not None:
            self.comp = v[2] if isinstance(v[2], tuple) else (kind, v[2])

    def _x(self, v):
        self.comp = ("mole", v)
        self._p = self._lost()

    def _y(self, v):
        self.comp = ("mass", v)
        self._p = self._lost()

    X = property(lambda s: s.comp, _x)

    @property
    def Y(self):
        return State(self.comp)

    @Y.setter
    def Y(self, v):
        self._y(v)

    def set_equivalence_ratio(self, phi, fuel, oxidizer, basis="mole", diluent=None,
                              fraction=None):
        self.comp = ("phi", phi, fuel, oxidizer, basis)


class State(tuple):
    """Composition read back from a Gas; setting it again restores it."""

    def __new__(cls, comp):
        return tuple.__new__(cls, comp or ())

    def copy(self):
        return self


class Trajectory:
    """Times, temperatures, pressures, mass fractions, solver states for steps 0..n."""

    def __init__(self, c, n, n_species=2, n_vars=1, t0=None, fail=False, states=True):
        self.c = c
        self.n = n
        self.n_vars = n_vars
        self.T = [c.real("T_0", 300.0, 3000.0) if t0 is None else t0]
        self.T += [c.real("T_%d" % k, 200.0, 6000.0) for k in range(1, n + 1)]
        self.t = [0.0]
        for k in range(1, n + 1):
            self.t.append(self.t[-1] + c.real("dt_%d" % k, 0.0, 10.0, lo_open=True))
        self.P = [101325.0] + [c.real("P_%d" % k, 1.0, 1e8) for k in range(1, n + 1)]
        self.Y = [[c.real("Y_%d_%d" % (k, i), 0.0, 1.0) for i in range(n_species)]
                  for k in range(n + 1)]
        # solver state: the first variable moves arbitrarily, a second one (if any) is either
        # constant or doubles in every step, the others are constant
        self.doubles = n_vars > 1 and states and c.flag("second_variable_moves")
        self.s = [[(c.real("s_%d" % k, 0.0, 1e4) if states else 1.0)]
                  + [(2.0 ** k if self.doubles and i == 1 else 4.0) for i in range(1, n_vars)]
                  for k in range(n + 1)]
        #: step at which the integrator fails (0: never)
        self.fail = c.choice("fails_at", list(range(n + 1))) if fail else 0

    def steady(self, k, rtol, atol):
        """Does step k meet Cantera's steady-state criterion?  (n_vars is 1 or 4.)"""
        if self.doubles:
            return False  # its residual is (1/2) / sqrt(4), far above any tolerance used
        top = self.s[0][0]
        for j in range(1, k + 1):
            top = core.Ite(self.s[j][0] >= top, self.s[j][0], top) if core.is_sym(top) \
                else max(top, self.s[j][0])
        root = {1: 1.0, 4: 2.0}[self.n_vars]
        return abs(self.s[k][0] - self.s[k - 1][0]) < 10.0 * rtol * root * (top + atol)


class Net:
    rtol = 2.0 ** -13  # exact in binary
    atol = 2.0 ** -26

    def __init__(self, reactors, **k):
        self.reactors = list(reactors)
        self.r = self.reactors[0]
        self.preconditioner = None

    @property
    def n_vars(self):
        return self.r.traj.n_vars

    @property
    def time(self):
        return self.r.traj.t[self.r.k]

    def reinitialize(self):
        pass

    initialize = reinitialize

    def get_state(self):
        return env.arr(self.r.traj.c, self.r.traj.s[self.r.k])

    def step(self):
        tr = self.r.traj
        k = self.r.k + 1
        if k > tr.n:
            tr.c.assume(False)  # beyond the bound
        if tr.fail == k:
            import cantera

            raise cantera.CanteraError("integrator failure")
        self.r.k = k
        return tr.t[k]


def install(c, make_gas, traj=None):
    """Patch cantera as seen from pymars.  make_gas(model, phase) -> Gas;
    traj(gas) -> Trajectory."""
    import cantera

    made = []

    class Reactor:
        kind = None

        def __init__(self, contents=None, *a, **k):
            self.gas = contents
            self.initial = (contents.T, contents.P, contents.comp)
            self.k = 0
            self.traj = traj(contents) if traj else None
            made.append(self)

        @property
        def T(self):
            return self.traj.T[self.k]

        @property
        def Y(self):
            return env.arr(c, self.traj.Y[self.k])

        @property
        def phase(self):
            return self

        thermo = phase

        @property
        def P(self):
            return self.traj.P[self.k]

        @property
        def TPY(self):
            return self.T, self.P, self.Y

    class Volume(Reactor):
        kind = "constant volume"

    class Pressure(Reactor):
        kind = "constant pressure"

    env.patch_module_attrs(c, cantera, {
        "Solution": lambda model="", phase="", **k: make_gas(model, k.get("name", phase)),
        "IdealGasMoleReactor": Volume, "IdealGasReactor": Volume,
        "IdealGasConstPressureMoleReactor": Pressure, "IdealGasConstPressureReactor": Pressure,
        "ReactorNet": Net, "AdaptivePreconditioner": lambda *a, **k: object()})
    return made


class H5:
    """In-memory h5py (symbolic runs only)."""

    def __init__(self, c):
        self.c = c
        self.files = {}
        world = self

        class Data:
            def __init__(self, v):
                self.v = v

            def __getitem__(self, k):
                if k == () or k is Ellipsis or k == slice(None):
                    return self.v.copy()
                return self.v[k]

            def __len__(self):
                return len(self.v)

            def __array__(self, dtype=None, copy=None):
                return np.asarray(self.v)

            shape = property(lambda s: s.v.shape)

        class Group(dict):
            def _at(self, name, make):
                g = self
                parts = name.strip("/").split("/")
                for p in parts[:-1]:
                    if p not in dict.keys(g) and make:
                        dict.__setitem__(g, p, Group())
                    g = dict.__getitem__(g, p)
                return g, parts[-1]

            def create_group(self, name):
                g, last = self._at(name, True)
                dict.__setitem__(g, last, Group())
                return dict.__getitem__(g, last)

            def require_group(self, name):
                g, last = self._at(name, True)
                if last not in dict.keys(g):
                    dict.__setitem__(g, last, Group())
                return dict.__getitem__(g, last)

            def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
                g, last = self._at(name, True)
                if not isinstance(data, np.ndarray):
                    data = env.arr(c, data)
                d = Data(data.copy())
                dict.__setitem__(g, last, d)
                return d

            def __setitem__(self, name, data):
                self.create_dataset(name, data=data)

            def __getitem__(self, name):
                g, last = self._at(name, False)
                return dict.__getitem__(g, last)

            def __contains__(self, name):
                try:
                    self[name]
                    return True
                except KeyError:
                    return False

        class File(Group):
            def __init__(self, name, mode="r", **k):
                key = os.path.abspath(str(name))
                if mode in ("w", "w-", "x"):
                    if mode != "w" and os.path.isfile(key):
                        raise FileExistsError(key)
                    open(key, "w").close()
                    world.files[key] = Group()
                elif not os.path.isfile(key) or key not in world.files:
                    if mode == "a":
                        open(key, "w").close()
                        world.files[key] = Group()
                    else:
                        raise FileNotFoundError(key)
                dict.__init__(self, world.files[key])
                self.key = key
                self.mode = mode

            def close(self):
                if self.mode != "r":
                    g = Group()
                    dict.update(g, self)
                    world.files[self.key] = g

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        self.File = File
        self.Group = Group
        self.Data = Data

    def install(self):
        import h5py

        env.patch_module_attrs(self.c, h5py, {"File": self.File})


def datasets(c, h5, path):
    """All datasets of a saved file."""
    out = []
    if c.concrete:
        import h5py

        with h5py.File(path, "r") as f:
            f.visititems(lambda n, o: out.append(o[()]) if isinstance(o, h5py.Dataset) else None)
        return out

    def walk(g):
        for v in dict.values(g):
            if isinstance(v, h5.Data):
                out.append(v.v)
            else:
                walk(v)

    walk(h5.files.get(os.path.abspath(path), {}))
    return out


class FlameWorld:
    """cantera.FreeFlame stand-in: one arbitrary solution, or a solver failure."""

    def __init__(self, c, n_points, n_species=2, fails=False, speed=None, monotone=True):
        self.c = c
        self.fails = fails
        self.P = c.real("flame_P", 1e4, 1e8)
        self.T = []
        self.v = []
        self.Y = []
        for i in range(n_points):
            self.T.append(c.real("flame_T_%d" % i, 300.0, 4000.0))
            self.v.append(speed if i == 0 and speed is not None
                          else c.real("flame_v_%d" % i, -10.0, 100.0))
            self.Y.append([c.real("flame_Y_%d_%d" % (i, k), 0.0, 1.0) for k in range(n_species)])
        if monotone:
            for a, b in zip(self.T, self.T[1:]):
                c.assume(a < b)
        self.n_species = n_species
        self.made = []

    def install(self):
        import cantera

        c, w = self.c, self

        class FreeFlame:
            def __init__(self, gas, grid=None, width=None):
                self.gas = gas
                self.width = width
                self.initial = (gas.T, gas.P, gas.comp)
                self.solved = False
                self.transport_model = None
                w.made.append(self)

            def set_refine_criteria(self, *a, **k):
                pass

            def set_initial_guess(self, *a, **k):
                pass

            def set_max_grid_points(self, *a, **k):
                pass

            def solve(self, *a, **k):
                if w.fails:
                    raise cantera.CanteraError("no flame")
                self.solved = True

            def _arr(self, x):
                if self.solved:
                    return env.arr(c, x)
                # the initial guess is unrelated to the solution
                y = np.array(x, dtype=object)
                for i in np.ndindex(*y.shape):
                    y[i] = -77.0
                return y.astype(float)

            velocity = property(lambda s: s._arr(w.v))
            T = property(lambda s: s._arr(w.T))
            grid = property(lambda s: np.arange(len(w.T)) * 0.01)
            P = property(lambda s: w.P)

            @property
            def Y(self):
                return self._arr([[p[k] for p in w.Y] for k in range(w.n_species)])

        env.patch_module_attrs(c, cantera, {"FreeFlame": FreeFlame})
