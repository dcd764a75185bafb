"""C13: the PSR extinction curve, its reference points and metrics."""

import math
import types

import numpy as np

from symx import core, env
from symx.run import harness
from checks import reactors
from checks.reactors import Gas

ASSUMPTIONS = [
    "scipy.optimize.root is replaced by a stand-in: each call either converges to an arbitrary "
    "state (residual zero), reports success with a residual of 1, or fails; except in 'fallback', the "
    "built-in fallback corrector never converges (evaluating the reactor raises CanteraError there)",
    "'fallback': the reactor's residual is Y - Y_in for the species and one of seven given functions "
    "of temperature for the energy balance, two of them with an arbitrary parameter",
    "the converged states' residence times are arbitrary positive reals, their temperatures and "
    "compositions distinct constants in rising or falling order; exp and log are modelled as "
    "inverse monotone functions",
]


SLACK = 1e-9  # rounding of distances between residence times


class PsrGas(Gas):
    """Inlet gas; kinetics evaluation fails, so that the fallback corrector gives up."""

    molecular_weights = property(lambda s: env.arr(s._c, [2.0] * s.n_species))
    enthalpy_mass = 1.0e5
    cp_mass = 1.0e3
    density = 1.0
    y = (0.25, 0.75)
    no_equilibrium = False

    @property
    def Y(self):
        return env.arr(self._c, list(self.y)[:self.n_species])

    def equilibrate(self, *a, **k):
        import cantera

        if self.no_equilibrium:
            raise cantera.CanteraError("no equilibrium")
        self.T = 2500.0

    def set_unnormalized_mass_fractions(self, y):
        import cantera

        raise cantera.CanteraError("outside the stand-in")


class Script:
    """What the nonlinear solver answers: seeds, then continuation points."""

    def __init__(self, c, seeds, points, n=1):
        self.c = c
        self.n = n
        self.calls = 0
        self.tau = [1.0, 0.5]
        self.seeds = seeds
        # temperatures and compositions only pass through: distinct constants, both orders
        sign = c.choice("temperatures", [-1, 1])
        self.T = [2000.0 + sign * 64.0 * k for k in range(2 + points)]
        self.Y = [[0.5 ** (i + 1) + 0.03125 * k for i in range(n)] for k in range(2 + points)]
        if not c.concrete:
            c.log_const(0.5)
            c.log_const(1.0)
        for k in range(points):
            self.tau.append(c.real("tau_%d" % (k + 2), 0.0, 10.0, lo_open=True))
        self.next = 2
        self.seed_no = 0
        #: (point, kind, times): the solver fails `times` times before reaching the point
        self.trouble = None

    def answer(self, x, good, how):
        if how == "fail":
            return types.SimpleNamespace(success=False, x=x, fun=np.ones(1), status=5, message="")
        return types.SimpleNamespace(success=True, x=x, fun=np.zeros(1) if good else np.ones(1),
                                     status=1, message="")

    def root(self, fun, x0, args=(), method="hybr", jac=None, tol=None, **k):
        c = self.c
        self.calls += 1
        if len(x0) == self.n + 1:
            k = min(self.seed_no, 1)
            how = self.seeds[k]
            self.seed_no += 1
            x = env.arr(c, list(self.Y[k]) + [self.T[k]])
            return self.answer(x, how == "ok", how)
        k = self.next
        bad = env.arr(c, [0.5] * self.n + [0.3, -20.0])  # a state that must not be used
        if k >= len(self.tau):
            return self.answer(bad, False, "fail")
        if self.trouble and self.trouble[0] == k and self.trouble[2] > 0:
            self.trouble = (k, self.trouble[1], self.trouble[2] - 1)
            return self.answer(bad, False, self.trouble[1])
        self.next += 1
        lg = core.ctx().log(self.tau[k]) if core.is_sym(self.tau[k]) else np.log(self.tau[k])
        x = env.arr(c, list(self.Y[k]) + [self.T[k] / 1000.0, lg])
        return self.answer(x, True, "ok")

    def install(self):
        import scipy.optimize

        env.patch_everywhere(self.c, scipy.optimize.root, self.root)
        env.setattr_for(self.c, scipy.optimize, "root", self.root)
        if not self.c.concrete:
            from symx import nparr

            env.setattr_for(self.c, env.mod("psr_solver"), "max", nparr.smart_max)
            # norms of symbolic vectors only scale the predictor here
            self.c.loose_norm = True

    def turning(self, reached):
        """Index of the first accepted state whose residence time exceeds its predecessor's."""
        for k in range(2, reached):
            if self.tau[k] > self.tau[k - 1]:
                return k
        return None


def same(c, sc, point, i):
    return core.And(c.eq(point[0], sc.tau[i]), c.eq(point[1], sc.T[i]),
                    *[c.eq(a, b) for a, b in zip(point[2], sc.Y[i])])


def check_points(c, sc, pts, turn):
    """turn: index of the first state beyond the fold; the branch is 0 .. ext."""
    before = range(turn + 1)
    ext, near, mid = pts["extinction"], pts["near_0.1s"], pts["log_mid"]
    for name, p in (("extinction", ext), ("near 0.1 s", near), ("middle", mid)):
        c.check(len(p) == 3 and len(p[2]) == sc.n, "points are (tau, T, Y)", "shape")
        c.check(core.Or(*[same(c, sc, p, i) for i in range(turn)]),
                "each point is reported with its own residence time, temperature and composition",
                "own " + name, "%s" % (p,))
    c.check(core.And(*[c.le(ext[0], sc.tau[i]) for i in before]),
            "extinction has the smallest residence time of the burning branch", "extinction",
            str(ext[0]))

    def nearest(p, target, what):
        d = abs(p[0] - target)
        # only states up to the extinction point count; the branch descends
        # to it, so states after it (equal residence times) cannot be closer
        ds = [abs(sc.tau[i] - target) + SLACK for i in range(turn)]
        if not core.is_sym(target):  # the smallest of the known distances stands for them all
            known = [x for x in ds if not core.is_sym(x)]
            ds = [x for x in ds if core.is_sym(x)] + ([min(known)] if known else [])
        c.check(core.And(*[c.le(d, x) for x in ds]), "the point nearest " + what, what,
                "%s" % (p[0],))

    nearest(near, 0.1, "0.1 s")
    tm = core.ctx().sqrt(core.SymReal(core.term(ext[0] * near[0]))) \
        if core.is_sym(ext[0] * near[0]) else np.sqrt(ext[0] * near[0])
    nearest(mid, tm, "the geometric mean")


OK = ("ok", "ok")


@harness(
    quick=[{"points": 2, "seeds": OK, "full": False}, {"points": 3, "seeds": OK, "full": False},
           {"points": 4, "seeds": OK, "full": True, "simple": True}],
    thorough=[{"points": 4, "seeds": OK, "full": False}, {"points": 4, "seeds": OK, "full": True}],
    covers=["extinction found", "never turns", "solver trouble"], path_seconds=120, timeout_ms=60000,
    bounds="seed states at 1 s and 0.5 s plus up to 3 continuation states (4 thorough) with arbitrary "
           "residence times, temperatures and compositions, one or arbitrarily many unconverged attempts before "
           "any of them")
def curve(c, points, seeds, full, simple=False):
    env.install(c)
    env.scratch(c)
    sc = Script(c, seeds, points)
    sc.install()
    if simple:
        for k in range(2, len(sc.tau)):  # keep to well separated, exactly representable times
            c.assume(sc.tau[k] >= 0.25)
    k = c.choice("trouble_at", [0] + list(range(2, 2 + points))) if not simple else 0
    if k:
        sc.trouble = (k, c.choice("trouble", ["fail", "large residual"]),
                      c.choice("times", [1, 1000]))
        c.cover("solver trouble")
    given_up = k and sc.trouble[2] == 1000
    reached = k if given_up else len(sc.tau)
    gas = PsrGas(c, 1)
    gas.TP = 600.0, 2e5
    turn = sc.turning(reached)
    try:
        res = env.mod("psr_solver").trace_extinction_curve(
            gas, stop_at_extinction=not full, ds0=0.1, ds_min=0.03, max_steps=points + 4)
    except RuntimeError:
        c.check(turn is None, "a curve that turns is traced", "raised")
        c.cover("never turns")
        return
    c.check(turn is not None, "a curve that never turns raises RuntimeError", "no turn")
    if turn is None:
        return
    check_points(c, sc, res["points"], turn)
    br = res["branch"]
    n = len(br)
    c.check(turn <= n <= reached and all(
        bool(c.eq(br[i][0], sc.tau[i])) and bool(c.eq(br[i][1], sc.T[i])) for i in range(n)),
        "the traced curve has exactly the converged states in order", "branch", str(br))
    c.observe("extinction", list(res["points"]["extinction"][:2]))
    c.cover("extinction found")


@harness(
    quick=[{"points": 2, "n": 2}], thorough=[{"points": 3, "n": 2}],
    covers=["baseline metrics", "candidate metrics", "candidate zero", "baseline raises"],
    path_seconds=120, timeout_ms=60000,
    bounds="a PSR case of arbitrary pressure with 2 species: both seeds converging or not, "
           "equilibrium failing or not, up to 2 further states, baseline and candidate evaluation, "
           "directly and through sampling")
def metrics(c, points, n):
    env.install(c)
    env.scratch(c)
    seeds = c.choice("seeds", [OK, ("fail", "ok"), ("ok", "fail"), ("bad", "ok"), ("ok", "bad")])
    noeq = c.flag("equilibrium_fails") if seeds == OK else False
    sc = Script(c, seeds, points, n)
    sc.install()
    made = []

    def gas(model, phase):
        g = PsrGas(c, n)
        g.no_equilibrium = noeq
        made.append(g)
        return g

    reactors.install(c, gas)
    p = c.real("pressure", 0.0, 1e3, lo_open=True)
    s = env.mod("sampling")
    cond = s.InputPSR(600.0, p, reactants={"S0": 1.0})
    turn = sc.turning(len(sc.tau))
    traced = turn is not None and seeds == OK and not noeq
    how = c.choice("how", ["run_case", "process", "skip", "calculate", "sample", "evaluate"])
    sim = env.mod("simulation").PSRSimulation(0, cond, "mech.yaml")
    data = None
    try:
        if how == "sample":
            m, data = s.sample("mech.yaml", [], [cond])
        elif how == "evaluate":
            m = s.sample_metrics("mech.yaml", [], [cond])
        else:
            sim.setup_case()
            if how == "run_case":
                m = sim.run_case()
            elif how == "process":
                m, data = sim.process_results()
            elif how == "skip":
                m = sim.process_results(skip_data=True)
            else:
                m = sim.calculate()
    except RuntimeError:
        c.check(how not in ("calculate", "evaluate"), "evaluating a candidate never raises", "raised")
        c.check(not traced, "a traceable baseline does not raise", "raised")
        c.cover("baseline raises")
        return
    c.check(np.shape(m) == (3,), "three metrics", "count")
    if not traced:
        c.check(how in ("calculate", "evaluate"), "an untraceable baseline raises RuntimeError",
                "baseline")
        c.check(core.And(*[c.eq(x, 0.0) for x in m]), "an untraceable candidate has zero metrics",
                "zero")
        c.cover("candidate zero")
        return
    pts = {}
    # the metrics must be those of some choice of points that satisfies the definition
    idx = range(turn)
    ok = []
    rows = []
    for e in idx:
        for a in idx:
            for b in idx:
                te, tn, tm = sc.tau[e], sc.tau[a], sc.tau[b]
                prod = te * tn
                g = core.ctx().sqrt(core.SymReal(core.term(prod))) if core.is_sym(prod) \
                    else np.sqrt(prod)
                cond_ = core.And(*[te <= sc.tau[i] for i in idx],
                                 *[abs(tn - 0.1) <= abs(sc.tau[i] - 0.1) + SLACK for i in idx],
                                 *[c.le(abs(tm - g), abs(sc.tau[i] - g) + SLACK) for i in idx],
                                 c.eq(m[0], te), c.eq(m[1], sc.T[b]), c.eq(m[2], sc.T[a]))
                if data is not None:
                    for i in (e, a, b):
                        want = [sc.T[i], p * 101325.0] + list(sc.Y[i])
                        cond_ = core.And(cond_, core.Or(*[
                            core.And(*[c.eq(x, y) for x, y in zip(r, want)]) for r in data]))
                ok.append(cond_)
    c.check(core.Or(*ok), "metrics are the extinction time and the temperatures at the geometric "
            "mean and at 0.1 s; rows are those states", "metrics", "%s" % (m,))
    if data is not None:
        c.check(np.shape(data) == (3, 2 + n), "three rows", "rows")
    c.observe("metrics", list(m))
    c.cover("candidate metrics" if how in ("calculate", "evaluate") else "baseline metrics")


class FallbackGas(PsrGas):
    """Gas whose balances reduce to Y = Y_in and g(T) = 0."""

    n_balance = 0

    def set_unnormalized_mass_fractions(self, y):
        pass

    @property
    def net_production_rates(self):
        return env.arr(self._c, [0.0] * self.n_species)

    @property
    def enthalpy_mass(self):
        return 1.0e5 + (self.g(self.T) * 1.0e6 if self.g is not None else 0.0)

    g = None


#: energy balances without a solution the fallback can reach, and with one
STUCK = {
    "constant": lambda r: lambda T: r,
    # so slowly falling that fifty steps do not suffice
    "creeping": lambda r: lambda T: (float(T) / 2500.0) ** -0.1,
    # never zero: the line search finds no better state
    "minimum": lambda r: lambda T: 1e-4 + (float(T) / 1000.0 - 1.5) ** 2,
    # already small, but not small enough
    "nearly": lambda r: lambda T: 3e-7,
}
SOLVED = {
    "linear": lambda r: lambda T: (T - 1000.0 * r) / 1000.0,
    "curved": lambda r: lambda T: (float(T) / 1000.0) ** 2 - 4.0,
    # full steps overshoot
    "steep": lambda r: lambda T: math.atan((float(T) - 1500.0) / 100.0),
}


@harness(
    quick=[{"where": w} for w in (0, 1, 2)],
    covers=["refused", "accepted"], path_seconds=120, timeout_ms=60000,
    bounds="the solver fails for good at the first or second seed or the first continuation state, "
           "and the fallback corrector meets an energy balance with an arbitrary constant or linear "
           "residual, or one of five fixed nonlinear ones")
def fallback(c, where):
    env.install(c)
    env.scratch(c)
    kind = c.choice("balance", list(STUCK) + (list(SOLVED) if where < 2 else []))
    r = c.real("residual", 1e-6, 1.0) if kind == "constant" else \
        c.real("solution", 0.5, 3.0) if kind == "linear" else None
    sc = Script(c, ["fail" if where == k else "ok" for k in (0, 1)], 2)
    sc.T = [2500.0, 2400.0, 2300.0, 2200.0]
    c.assume(core.And(sc.tau[2] == 0.25, sc.tau[3] == 0.75))
    if where == 2:
        sc.trouble = (2, "fail", 1000)
    gas = FallbackGas(c, 1)
    gas.TP = 600.0, 2e5
    sc.install()
    inner = sc.root

    def root(*a, **k):
        gas.g = None
        sol = inner(*a, **k)
        if not sol.success:  # what follows is the fallback
            gas.g = (STUCK.get(kind) or SOLVED[kind])(r)
        if not c.concrete:
            c.loose_norm, c.exact_solve = sol.success, not sol.success
        return sol

    import scipy.optimize

    env.patch_everywhere(c, inner, root)
    env.patch_everywhere(c, sc.root, root)
    env.setattr_for(c, scipy.optimize, "root", root)
    env.setattr_for(c, env.mod("psr_solver"), "root", root)
    try:
        res = env.mod("psr_solver").trace_extinction_curve(
            gas, ds0=0.1, ds_min=0.03, max_steps=6)
    except RuntimeError:
        c.check(kind in STUCK, "a state the fallback reaches is used", "not used", kind)
        c.cover("refused")
        return
    c.check(kind in SOLVED, "only converged states enter the curve", "unconverged state",
            "%s %s" % (kind, res["branch"]))
    if kind in SOLVED:
        T = res["branch"][where][1]
        want = 1000.0 * r if kind == "linear" else {"curved": 2000.0, "steep": 1500.0}[kind]
        c.check(core.And(c.le(T - want, 0.01), c.le(want - T, 0.01)),
                "the converged state enters the curve", "converged state", str(T))
        c.cover("accepted")


@harness(
    quick=[{"points": p} for p in (60, 150)],
    thorough=[{"points": 500}],
    covers=["extinction found"], path_seconds=200, timeout_ms=60000,
    bounds="curves of 60 and 150 continuation states (500 thorough) with residence times falling to "
           "an extinction point at 2 ms or 0.15 s, one state of which, anywhere, has an arbitrary "
           "residence time between its neighbours'; followed by two states beyond the fold")
def long_curve(c, points):
    env.install(c)
    env.scratch(c)
    low = c.choice("extinction", [0.002, 0.15])
    sc = Script(c, OK, 0)
    q = (low / 0.5) ** (1.0 / points)
    tau = [1.0] + [0.5 * q ** k for k in range(points + 1)]
    near = min(range(len(tau)), key=lambda i: abs(tau[i] - 0.1))
    at = c.choice("where", sorted({2, min(near, points), near - 1, points // 2, points}))
    x = c.real("tau", tau[at + 1], tau[at - 1], lo_open=True, hi_open=True)
    c.assume(core.And(x > tau[at + 1] * 1.0001, x * 1.0001 < tau[at - 1]))
    for i in (at - 1, at + 1):
        c.log_const(tau[i])
    tau[at] = x
    sc.tau = tau + [low * 1.5, low * 2.0]
    sc.T = [2500.0 - 0.5 * k for k in range(len(sc.tau))]
    sc.Y = [[0.5 + 2.0 ** -12 * k] for k in range(len(sc.tau))]
    sc.install()
    gas = PsrGas(c, 1)
    gas.TP = 600.0, 2e5
    res = env.mod("psr_solver").trace_extinction_curve(gas)
    turn = len(tau)
    pts = res["points"]
    c.check(core.And(c.eq(pts["extinction"][0], low), c.eq(pts["extinction"][1], sc.T[turn - 1])),
            "extinction is the smallest residence time", "long extinction", str(pts["extinction"]))
    check_points(c, sc, pts, turn)
    br = res["branch"]
    c.check(turn <= len(br) and core.And(*[
        core.And(c.eq(br[i][0], sc.tau[i]), c.eq(br[i][1], sc.T[i])) for i in range(turn)]),
        "the traced curve has exactly the converged states in order", "long branch")
    c.cover("extinction found")
