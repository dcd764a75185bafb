"""C14: residual and Jacobian of the stirred-reactor solver."""

import math
import types

import numpy as np

from symx import core, env
from symx.run import harness

R = 8314.46261815324

ASSUMPTIONS = [
    "cantera.Solution is replaced by a stand-in with the ideal-gas contract: mean molecular weight "
    "1/sum(Y/W) and density P*mw/(R*T) also for unnormalised mass fractions, concentrations "
    "density*Y/W, enthalpy with partial derivatives h_k/W_k and cp, production rates with "
    "derivatives ddCi (concentrations) and ddT (temperature at fixed concentrations); all values "
    "and derivatives at the state of interest are arbitrary",
    "the derivative of the residual is taken symbolically from the expression the real residual "
    "function returns; concrete replays use central differences of the real residual instead",
    "deviations below 1% of an entry (plus 0.01) are not reported: values are reals here",
    "scipy.optimize.root is replaced by a stand-in that evaluates the functions it is given and "
    "answers with fixed states",
]


class Stop(BaseException):
    pass


class PsrGas:
    """State handling as in Cantera: mass fractions are set at constant density and
    temperature, TP at constant composition."""

    def __init__(self, c, n):
        self.c, self.n_species = c, n
        self.n_total_species = n
        self.species_names = ["S%d" % i for i in range(n)]
        self.v = [c.real("inverse_weight_%d" % k, 0.03125, 0.5) for k in range(n)]
        self._T, self._P, self._rho = 300.0, c.real("P", 1e5, 1e6), None
        self._Y = [0.5 ** (k + 1) for k in range(n)]
        self.inlet = True
        self.ref = None
        self.h_in = c.real("h_in", -100.0, 100.0)
        self.cp_in = c.real("cp_in", 0.25, 4.0)
        self.h0 = c.real("h", -100.0, 100.0)
        self.cp = c.real("cp", 0.25, 4.0)
        self.hk = [c.real("h_%d" % k, -16.0, 16.0) for k in range(n)]
        self.w = [c.real("wdot_%d" % k, -4.0, 4.0) for k in range(n)]
        self.ddc = [[c.real("ddC_%d_%d" % (i, k), -4.0, 4.0) for k in range(n)] for i in range(n)]
        self.ddt = [c.real("ddT_%d" % k, -4.0, 4.0) for k in range(n)]
        # only these are tried where the general question is too hard for the solver
        for i, x in enumerate(self.v + self.hk + self.w + self.ddt
                              + [x for row in self.ddc for x in row]):
            c.prefer(x == (3 + i) / 32.0)
        c.prefer(core.And(self.cp == 1.5, self.h0 == 4.0, self.h_in == 2.0, self.cp_in == 2.0))
        if c.concrete:
            self.rho0 = None
        else:
            self.rho0 = c.real("rho", 0.0, 100.0, lo_open=True)
            self.mw0 = c.real("mw", 0.0, 64.0, lo_open=True)

    # ---- state
    def set_unnormalized_mass_fractions(self, y):
        self._rho, self._P = self.density, None
        self._Y = [y[k] for k in range(self.n_species)]

    def _set_tp(self, v):
        t, p = v
        t = self._T if t is None else t
        p = self.P if p is None else p
        self._T, self._P, self._rho = t, p, None
        self.touch()

    TP = property(lambda s: (s._T, s.P), _set_tp)

    def _set_y(self, y):
        total = sum(y[k] for k in range(self.n_species))
        self.set_unnormalized_mass_fractions([y[k] / total for k in range(self.n_species)])

    Y = property(lambda s: env.arr(s.c, s._Y), _set_y)

    def _set_tpy(self, v):
        self._set_y(v[2])
        self._set_tp(v[:2])

    TPY = property(lambda s: (s._T, s.P, s.Y), _set_tpy)
    T = property(lambda s: s._T)

    @property
    def P(self):
        if self._P is not None:
            return self._P
        return self._rho * R * self._T * self._n()

    def touch(self):
        """The first state a residual is evaluated at is the reference state."""
        if not self.inlet and self.ref == "next":
            self.ref = (list(self._Y), self._T, self._P)

    def same(self, a, b):
        if core.is_sym(a) and core.is_sym(b):
            return a.e.eq(b.e)
        return not core.is_sym(a) and not core.is_sym(b) and a == b

    def at_ref(self):
        return (isinstance(self.ref, tuple) and self._P is not None
                and self.same(self._T, self.ref[1]) and self.same(self._P, self.ref[2])
                and all(self.same(a, b) for a, b in zip(self._Y, self.ref[0])))

    # ---- properties
    def _n(self, ys=None):
        return sum(y * v for y, v in zip(ys or self._Y, self.v))

    @property
    def molecular_weights(self):
        return env.arr(self.c, [1.0 / v for v in self.v])

    @property
    def mean_molecular_weight(self):
        if not self.c.concrete and self.at_ref():
            return self.mw0
        return 1.0 / self._n()

    def _density(self, ys, t, p):
        return p / (R * t * self._n(ys))

    @property
    def density(self):
        if self._rho is not None:
            return self._rho
        if not self.c.concrete and self.at_ref():
            return self.rho0
        return self._density(self._Y, self._T, self._P)

    density_mass = density

    @property
    def concentrations(self):
        rho = self.density
        return env.arr(self.c, [rho * y * v for y, v in zip(self._Y, self.v)])

    @property
    def net_production_rates(self):
        if self.at_ref():
            return env.arr(self.c, self.w)
        rho = self.density
        ys, t, p = self.ref
        rho_ref = self._density(ys, t, p)
        dc = [(rho * a - rho_ref * b) * v for a, b, v in zip(self._Y, ys, self.v)]
        return env.arr(self.c, [w + sum(d * x for d, x in zip(row, dc)) + dt * (self._T - t)
                                for w, row, dt in zip(self.w, self.ddc, self.ddt)])

    @property
    def net_production_rates_ddCi(self):
        return env.arr(self.c, self.ddc)

    @property
    def net_production_rates_ddT(self):
        return env.arr(self.c, self.ddt)

    @property
    def enthalpy_mass(self):
        if self.inlet:
            return self.h_in
        if self.at_ref():
            return self.h0
        ys, t, p = self.ref
        return self.h0 + self.cp * (self._T - t) + sum(
            h * v * (a - b) for h, v, a, b in zip(self.hk, self.v, self._Y, ys))

    @property
    def cp_mass(self):
        return self.cp_in if self.inlet else self.cp

    @property
    def partial_molar_enthalpies(self):
        return env.arr(self.c, self.hk)

    def equilibrate(self, *a, **k):
        self.inlet = False
        self.ref = "next"

    def contract(self):
        """Symbolic atoms of the reference state satisfy the gas law."""
        ys, t, p = self.ref
        self.c.assume(core.And(self.mw0 * self._n(ys) == 1,
                               self.rho0 * (R * t) == p * self.mw0))


# ---- derivatives of z3 terms


class Diff:
    """d/dx of z3 terms; atoms: {z3 constant id: derivative term}."""

    def __init__(self, atoms):
        self.atoms = atoms
        self.memo = {}

    def go(self, e):
        import z3

        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (e, z3.simplify(self.rule(e)))
        return self.memo[k][1]

    def rule(self, e):
        import z3

        zero = z3.RealVal(0)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return zero
        ch = e.children()
        if not ch:
            return self.atoms.get(e.decl().name(), zero)
        kind = e.decl().kind()
        if kind == z3.Z3_OP_ADD:
            return z3.Sum(*[self.go(x) for x in ch])
        if kind == z3.Z3_OP_SUB:
            return z3.Sum(self.go(ch[0]), *[-self.go(x) for x in ch[1:]])
        if kind == z3.Z3_OP_UMINUS:
            return -self.go(ch[0])
        if kind == z3.Z3_OP_MUL:
            return z3.Sum(*[z3.Product(self.go(x), *[y for j, y in enumerate(ch) if j != i])
                            for i, x in enumerate(ch)])
        if kind == z3.Z3_OP_DIV:
            a, b = ch
            return self.go(a) / b - a * self.go(b) / (b * b)
        if kind == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            return ch[1] * (ch[0] ** (ch[1] - 1)) * self.go(ch[0])
        if kind == z3.Z3_OP_ITE:
            return z3.If(ch[0], self.go(ch[1]), self.go(ch[2]))
        raise core.Unsupported("derivative of %s" % e.decl())


def ratio(e, memo):
    """(numerator, denominator) of a rational term, both polynomials."""
    import z3

    k = e.get_id()
    if k in memo:
        return memo[k][1]
    one = z3.RealVal(1)
    kind = e.decl().kind()
    ch = e.children()
    if kind == z3.Z3_OP_DIV:
        (a, b), (p, q) = ratio(ch[0], memo), ratio(ch[1], memo)
        r = (a * q, b * p)
    elif kind == z3.Z3_OP_MUL:
        rs = [ratio(x, memo) for x in ch]
        r = (z3.Product(*[x[0] for x in rs]), z3.Product(*[x[1] for x in rs]))
    elif kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        rs = [ratio(x, memo) for x in ch]
        dens = []
        for _, d in rs:
            if not any(d.eq(x) for x in dens):
                dens.append(d)
        num = None
        for i, (a, d) in enumerate(rs):
            t = z3.Product(a, *[x for x in dens if not x.eq(d)])
            num = t if num is None else (num + t if kind == z3.Z3_OP_ADD else num - t)
        r = (num, z3.Product(*dens))
    elif kind == z3.Z3_OP_UMINUS:
        a, b = ratio(ch[0], memo)
        r = (-a, b)
    else:
        r = (e, one)
    r = tuple(z3.simplify(x, som=True) for x in r)
    memo[k] = (e, r)
    return r


def same(c, got, want, label, key, detail=""):
    """got == want as an identity (values beyond rounding)."""
    if c.concrete:
        c.check(abs(got - want) <= 0.005 * (1 + abs(want)), label, key, detail)
        return
    a, b = core.rv(got) if not core.is_sym(got) else got.e, \
        core.rv(want) if not core.is_sym(want) else want.e
    num, _ = ratio(a - b, {})
    ident = core.mkbool(num == 0)
    d = core.SymReal(a - b)
    w = core.SymReal(b)
    c.check(core.Or(ident, abs(d) <= 0.01 * (1 + abs(w))), label, key, detail)


def derivatives(c, gas, fun, u, tau):
    """Derivative of fun at u with respect to every component of u."""
    m = len(u)
    if c.concrete:
        cols = []
        for j in range(m):
            h = 1e-5 * max(1.0, abs(u[j]))
            up, dn = np.array(u, dtype=float), np.array(u, dtype=float)
            up[j] += h
            dn[j] -= h
            cols.append((np.array(fun(up), dtype=float) - np.array(fun(dn), dtype=float)) / (2 * h))
        return [[float(cols[j][i]) for j in range(m)] for i in range(len(cols[0]))]
    import z3

    res = [x if core.is_sym(x) else core.SymReal(core.rv(x)) for x in fun(env.arr(c, u))]
    ys, t, p = gas.ref
    rho, mw = gas.rho0.e, gas.mw0.e
    rows = [[] for _ in res]
    for j in range(m):
        base = {u[j].e.decl().name(): z3.RealVal(1)}
        if tau is not None and j == m - 1:
            base[tau.e.decl().name()] = tau.e
        d0 = Diff(base)
        dy = [d0.go(y.e) for y in ys]
        dt = d0.go(t.e)
        n = gas.n_species
        dn = z3.Sum(*[a * v.e for a, v in zip(dy, gas.v)])
        atoms = dict(base)
        drho = -rho * mw * dn - rho * dt / t.e
        atoms[rho.decl().name()] = drho
        atoms[mw.decl().name()] = -mw * mw * dn
        dc = [(drho * y.e + rho * a) * v.e for y, a, v in zip(ys, dy, gas.v)]
        for k in range(n):
            atoms[gas.w[k].e.decl().name()] = z3.Sum(
                gas.ddt[k].e * dt, *[gas.ddc[k][i].e * dc[i] for i in range(n)])
        atoms[gas.h0.e.decl().name()] = z3.Sum(
            gas.cp.e * dt, *[gas.hk[k].e * gas.v[k].e * dy[k] for k in range(n)])
        d = Diff(atoms)
        for i, r in enumerate(res):
            rows[i].append(core.SymReal(d.go(r.e)))
    return rows


def examine(c, gas, fun, jac, u, y, tau, sigma, what):
    """Residual and Jacobian at the state u (the first n entries are y)."""
    n = gas.n_species
    gas.ref = "next"
    arr = env.arr(c, u)
    res = [x for x in fun(arr)]
    if not isinstance(gas.ref, tuple):
        c.fail("the residual is evaluated at the trial state", "state", what)
        raise Stop()
    if not c.concrete:
        gas.contract()
    ys, t, p = gas.ref
    c.check(core.And(*[c.eq(a, b) for a, b in zip(ys, y)]), "the trial mass fractions are used",
            "mass fractions", what)
    c.check(c.eq(p, gas.pressure), "the inlet pressure is used", "pressure", what)
    rho = gas._density(ys, t, p) if c.concrete else gas.rho0
    # zero exactly at the steady balance
    balance = [(ys[k] - gas.y_in[k]) * gas.v[k] * rho - tau * gas.w[k] for k in range(n)]
    balance.append(gas.h0 - gas.h_in)
    c.check(len(res) == n + 1 + sigma, "number of equations", "equations", what)
    for k in range(n + 1):
        r, b = res[k], balance[k]
        name = "species balance" if k < n else "energy balance"
        if c.concrete:
            ok = core.And(core.Implies(abs(r) <= 1e-9, abs(b) <= 1e-6),
                          core.Implies(abs(b) <= 1e-9, abs(r) <= 1e-6))
        else:
            ok = core.And(core.Implies(r == 0, abs(b) <= 0.001), core.Implies(b == 0, abs(r) <= 0.001))
        c.check(ok, "the residual vanishes exactly at the steady " + name, name, what)
        if c.concrete:
            c.observe("residual", r)
    rows = derivatives(c, gas, fun, u, tau if sigma else None)
    gas._T, gas._Y = 1234.0, [0.25] * n  # the Jacobian sets its own state
    got = jac(arr)
    c.check(np.shape(got) == (n + 1 + sigma, n + 1 + sigma), "shape of the Jacobian", "shape", what)
    for i in range(n + 1 + sigma):
        for j in range(n + 1 + sigma):
            key = "%s/%s" % ("species" if i < n else "energy" if i == n else "continuation",
                             "mass fraction" if j < n else "temperature" if j == n else "tau")
            same(c, got[i][j], rows[i][j], "the Jacobian is the derivative of the residual", key,
                 "%s [%d][%d]: %s, derivative %s" % (what, i, j, got[i][j], rows[i][j]))
    c.cover(what)


@harness(
    quick=[{"n": 2, "call": k} for k in (1, 2, 3, 4)] + [{"n": 1, "call": k} for k in (1, 3)],
    thorough=[{"n": 3, "call": k} for k in (1, 2, 3, 4)],
    covers=["fixed residence time", "continuation step"], path_seconds=200, timeout_ms=10000,
    bounds="1-2 species (3 thorough); arbitrary mass fractions (also unnormalised), temperature, "
           "residence time, molecular weights, production rates, their derivatives, enthalpies and "
           "heat capacity; both seed solves and the first two continuation steps")
def jacobian(c, n, call):
    env.install(c)
    env.scratch(c)
    import scipy.optimize

    gas = PsrGas(c, n)
    gas.pressure, gas.y_in = gas._P, list(gas._Y)
    # iterates of the corrector may be slightly negative or above one
    y = [c.real("Y_%d" % k, -0.5, 1.5) for k in range(n)]
    c.assume(gas._n(y) >= 0.015625)
    for k, x in enumerate(y):
        c.prefer(core.Or(x == (3 + k) / 8.0, x == -(2 + k) / 16.0))
    c.prefer(gas.pressure == 262144.0)
    calls = [0]

    def root(fun, x0, args=(), method="hybr", jac=None, tol=None, **k):
        calls[0] += 1
        args = args if isinstance(args, tuple) else (args,)
        sigma = len(x0) == n + 2
        if jac is True:
            f = lambda u: fun(u, *args)[0]
            g = lambda u: fun(u, *args)[1]
        else:
            f = lambda u: fun(u, *args)
            g = (lambda u: jac(u, *args)) if callable(jac) else None
        if calls[0] == call:
            if g is None:
                c.fail("a Jacobian is supplied", "no Jacobian")
                raise Stop()
            if sigma:
                tau = c.real("tau", 0.00001, 64.0)
                c.prefer(tau == 0.25)
                lg = math.log(tau) if c.concrete else core.ctx().log(tau)
                u = y + [c.real("theta", 0.2, 6.0), lg]
                c.prefer(u[-2] == 1.5)
            else:
                tau = 1.0 if call == 1 else 0.5
                u = y + [c.real("T", 200.0, 6000.0)]
                c.prefer(u[-1] == 1536.0)
            examine(c, gas, f, g, u, y, tau, sigma,
                    "continuation step" if sigma else "fixed residence time")
            raise Stop()
        x = np.array([0.25, 0.5, 0.125][:n] + [2000.0 - 100.0 * calls[0]])
        if sigma:
            x = np.array([0.25, 0.5, 0.125][:n] + [2.0 - 0.1 * calls[0], -calls[0] / 4.0])
        return types.SimpleNamespace(success=True, x=x, fun=np.zeros(len(x0)), status=1, message="")

    env.patch_everywhere(c, scipy.optimize.root, root)
    env.setattr_for(c, scipy.optimize, "root", root)
    try:
        env.mod("psr_solver").trace_extinction_curve(gas)
    except Stop:
        return
    c.fail("the corrector is called", "calls", str(calls))


@harness(
    quick=[{"n": 2, "call": k} for k in (1, 2, 3)], thorough=[{"n": 3, "call": 4}],
    covers=["temperature", "mass fraction", "failure"], path_seconds=60,
    bounds="1-3 species; any non-positive temperature, one mass fraction not finite, or CanteraError "
           "from setting the state or from its production rates; both seed solves and the first "
           "continuation steps")
def unphysical(c, n, call):
    """Trial states without a meaning never look like solutions."""
    env.install(c)
    env.scratch(c)
    import cantera as ct
    import scipy.optimize

    gas = PsrGas(c, n)
    gas.pressure, gas.y_in = gas._P, list(gas._Y)
    broken = []

    def guard(what, f):
        def g(self, *a):
            if what in broken:
                raise ct.CanteraError(what)
            return f(self, *a)
        return g

    class Gas(PsrGas):
        set_unnormalized_mass_fractions = guard("composition", PsrGas.set_unnormalized_mass_fractions)
        TP = property(PsrGas.TP.fget, guard("state", PsrGas.TP.fset))
        net_production_rates = property(guard("rates", PsrGas.net_production_rates.fget))

    gas.__class__ = Gas
    why = c.choice("state", ["temperature", "mass fraction", "failure"])
    y = [0.5 ** (k + 1) for k in range(n)]
    t = 1500.0
    if why == "temperature":
        t = c.real("T", -1e6, 0.0)
    elif why == "mass fraction":
        y[c.choice("which", list(range(n)))] = c.choice("value", [math.nan, math.inf, -math.inf])
    calls = [0]

    def root(fun, x0, args=(), method="hybr", jac=None, tol=None, **k):
        calls[0] += 1
        args = args if isinstance(args, tuple) else (args,)
        sigma = len(x0) == n + 2
        if calls[0] == call:
            gas.ref = "next"
            if why == "failure":
                broken.append(c.choice("fails", ["composition", "state", "rates"]))
            u = y + ([t / 1000.0, 0.25] if sigma else [t])
            try:
                r = fun(env.arr(c, u), *args)
                r = r[0] if jac is True else r
            except ct.CanteraError:
                c.fail("an unphysical state raises no error", "raised", why)
                raise Stop()
            r = list(r)
            c.check(len(r) == n + 1 + sigma, "number of equations", "unphysical equations", why)
            for k in range(n + 1):
                ok = core.is_sym(r[k]) or math.isfinite(r[k])
                c.check(ok, "the residual of an unphysical state is finite", "not finite", why)
            c.check(core.Or(*[abs(x) >= 1.0 for x in r[:n + 1] if core.is_sym(x) or math.isfinite(x)]),
                    "an unphysical state is no solution", "unphysical", "%s: %s" % (why, r))
            c.cover(why)
            raise Stop()
        x = np.array([0.25, 0.5, 0.125][:n] + [2000.0 - 100.0 * calls[0]])
        if sigma:
            x = np.array([0.25, 0.5, 0.125][:n] + [2.0 - 0.1 * calls[0], -calls[0] / 4.0])
        return types.SimpleNamespace(success=True, x=x, fun=np.zeros(len(x0)), status=1, message="")

    env.patch_everywhere(c, scipy.optimize.root, root)
    env.setattr_for(c, scipy.optimize, "root", root)
    try:
        env.mod("psr_solver").trace_extinction_curve(gas)
    except Stop:
        return
    c.fail("the corrector is called", "calls", str(calls))
