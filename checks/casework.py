"""Shared scenario for sampling-level checks (C09, C10): stand-ins for the three
simulation classes and for worker pools."""

import copy
import itertools
import os

import numpy as np

from symx import core, env

KINDS = ("ignition", "psr", "flame")
METRICS = {"ignition": 1, "psr": 3, "flame": 1}
ROWS = {"ignition": 20, "psr": 3, "flame": 20}
FILES = {"data_ignition": "ignition_data.dat", "output_ignition": "ignition_output.txt",
         "data_psr": "psr_data.dat", "output_psr": "psr_output.txt",
         "data_flame": "laminarflame_data.dat", "output_flame": "laminarflame_output.txt"}

ASSUMPTIONS = [
    "the three simulation classes are replaced by stand-ins with the same interface: a case's "
    "metrics (1 per ignition or flame case, 3 per PSR case) are arbitrary reals and its sampled "
    "rows (20, 3, 20) distinct constants, both a function of the phenomenon, the case's own "
    "conditions, the model and the phase; the simulations themselves are C11-C15",
    "numpy.savetxt/genfromtxt are modelled as a store of exact values per file (with the rounding "
    "of a narrower format, and unreadable columns on a delimiter mismatch); the concrete re-runs "
    "use real files",
]


def filename(key):
    return getattr(env.mod("sampling"), "data_files", FILES).get(key, FILES[key])


def write_model(path):
    """Phases with different species counts."""
    with open(path, "w") as f:
        f.write("""phases:
- {name: big, thermo: ideal-gas, elements: [H], species: [H2, O2, OH], state: {T: 300.0, P: 1 atm}}
- {name: small, thermo: ideal-gas, elements: [H], species: [H2, O2], state: {T: 300.0, P: 1 atm}}
- {name: wide, thermo: ideal-gas, elements: [H], species: [H2, O2, OH, AR], state: {T: 300.0, P: 1 atm}}

species:
""" + "".join("- name: %s\n  composition: {H: 1}\n"
              "  thermo: {model: constant-cp, h0: 0 J/mol, cp0: 30 J/mol/K}\n" % n
              for n in ("H2", "O2", "OH", "AR")))


SPECIES = {"": 3, "big": 3, "small": 2, "wide": 4}


class Cases:
    def __init__(self, c, n_cases):
        """n_cases: {phenomenon: number of cases}."""
        self.c = c
        s = env.mod("sampling")
        self.conds = {}
        for k in KINDS:
            cases = []
            for i in range(n_cases.get(k, 0)):
                t = 1000.0 + 100 * KINDS.index(k) + i
                if k == "ignition":
                    cases.append(s.InputIgnition("constant volume", t, 1.0, reactants={"H2": 1.0}))
                elif k == "psr":
                    cases.append(s.InputPSR(t, 1.0, reactants={"H2": 1.0}))
                else:
                    cases.append(s.InputLaminarFlame(t, 1.0, reactants={"H2": 1.0}))
            self.conds[k] = cases
        self.memo = {}
        self.ran = []
        self.floors = []

    def metric(self, kind, i, model="mech.yaml", phase=""):
        key = (kind, i, os.path.basename(str(model)), phase)
        if key not in self.memo:
            self.memo[key] = [self.c.real("sim_%s_%d_%d_%s_%s" % (kind, i, j, key[2], phase), 0.0,
                                          3000.0) for j in range(METRICS[kind])]
            for x in self.memo[key]:
                # many digits, so that rounding shows in the replay
                v = len(self.memo) * 16 + 1.0123456789012345
                self.c.prefer(core.And(x >= v, x <= v + 1e-12))
        return self.memo[key]

    def rows(self, kind, i, phase=""):
        w = 2 + SPECIES[phase]
        base = 100000.0 * (KINDS.index(kind) + 1) + 10000.0 * i + 5000.0 * (phase == "small")
        return [[base + 10 * r + 0.5 * k for k in range(w)] for r in range(ROWS[kind])]

    def all_metrics(self, kind, phase="", model="mech.yaml"):
        return [x for i in range(len(self.conds[kind])) for x in self.metric(kind, i, model, phase)]

    def all_rows(self, kind, phase=""):
        return [r for i in range(len(self.conds[kind])) for r in self.rows(kind, i, phase)]

    def install(self, touch=None):
        """touch(sim): called when a case starts to run."""
        sim = env.mod("simulation")
        world = self

        def which(kind, props):
            for i, p in enumerate(world.conds[kind]):
                if p is props or p == props:
                    return i
            world.c.fail("a case is run with its own conditions", "conditions", repr(props))
            return 0

        def make(kind, base):
            class Stub(base):
                def setup_case(self):
                    self.save_file = None
                    self.ready = True
                    self.done = False

                def _metric(self):
                    if not getattr(self, "ready", False):
                        raise RuntimeError("case run before setup_case")
                    i = which(kind, self.properties)
                    world.ran.append((kind, i, str(self.model), self.phase_name))
                    if kind == "flame":
                        world.floors.append(self.min_flame_speed)
                    if touch:
                        touch(kind, i, self)
                    m = world.metric(kind, i, self.model, self.phase_name)
                    self.done = True
                    return env.arr(world.c, m) if kind == "psr" else m[0]

                def run_case(self, *a, **k):
                    return self._metric()

                def calculate(self):
                    return self._metric()

                def process_results(self, skip_data=False):
                    if kind == "ignition" and not self.done:
                        raise RuntimeError("no saved results for this case")
                    m = self._metric()
                    if skip_data:
                        return m
                    i = which(kind, self.properties)
                    return m, np.array(world.rows(kind, i, self.phase_name))

                def clean(self):
                    pass

            Stub.__name__ = base.__name__
            return Stub

        for kind, cls in zip(KINDS, ("IgnitionSimulation", "PSRSimulation", "FlameSimulation")):
            real = getattr(sim, cls)
            env.patch_everywhere(self.c, real, make(kind, real))

    def saved(self, key):
        """Contents of a saved file, as the next run would read them (flattened)."""
        path = filename(key)
        if not os.path.isfile(path):
            return None
        if self.c.concrete:
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a = np.genfromtxt(path, delimiter=",")
        else:
            a = self.c.npproxy.genfromtxt(path, delimiter=",")
        return np.atleast_1d(np.asarray(a))

    def save(self, key, values):
        """Prepare a saved file (None: absent, []: empty)."""
        path = filename(key)
        if values is None:
            return
        if len(values) == 0:
            open(path, "w").close()
        elif self.c.concrete:
            np.savetxt(path, np.array(values, dtype=float), delimiter=",")
        else:
            self.c.npproxy.savetxt(path, env.arr(self.c, values), delimiter=",")

    def check_equal(self, got, want, label, key):
        c = self.c
        g = [] if got is None else list(np.asarray(got, dtype=object).ravel())
        w = list(np.asarray(want, dtype=object).ravel())
        if len(g) != len(w):
            c.fail(label, key, "%d values instead of %d" % (len(g), len(w)))
            return False
        return c.check(core.And(*[c.eq(a, b) for a, b in zip(g, w)]), label, key,
                       "%s, want %s" % (g[:4], w[:4]))


# ---------------------------------------------------------------------------
# worker pools


class PoolWorld:
    """multiprocessing / concurrent.futures stand-ins: jobs run on copies of their
    arguments in an arbitrary order; ordered primitives return results in input
    order, unordered ones in completion order."""

    def __init__(self, c, cores):
        self.c = c
        self.cores = cores
        self.created = []
        self.current = 1  # processes of the pool whose jobs are running
        self.n = 0

    def order(self, n):
        self.n += 1
        if n <= 3:
            perms = list(itertools.permutations(range(n)))
        else:
            perms = [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,),
                     (n - 1,) + tuple(range(n - 1))]
        return self.c.choice("order_%d" % self.n, perms)

    def run(self, f, args, star=False):
        """Results indexed by job, and the completion order."""
        args = [self.pickled(a) for a in args]
        order = self.order(len(args))
        out = {}
        for i in order:
            out[i] = f(*args[i]) if star else f(args[i])
        self.current = 1
        return [out[i] for i in range(len(args))], order

    def pickled(self, x):
        if isinstance(x, (list, tuple)):
            return type(x)(self.pickled(y) for y in x)
        return copy.copy(x) if hasattr(x, "__dict__") else x

    def install(self):
        import concurrent.futures
        import multiprocessing

        c, world = self.c, self

        class Result:
            def __init__(self, v):
                self.v = v

            def get(self, timeout=None):
                return self.v

            result = get

            def wait(self, timeout=None):
                pass

            def done(self):
                return True

            ready = successful = done

            def exception(self):
                return None

        class Pool:
            def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                         context=None, max_workers=None, mp_context=None):
                processes = processes if processes is not None else max_workers
                processes = world.cores if processes is None else processes
                if processes < 1:
                    raise ValueError("Number of processes must be at least 1")
                world.created.append(processes)
                self.processes = processes
                self.open = True
                if initializer:
                    initializer(*initargs)

            def _live(self):
                if not self.open:
                    raise ValueError("Pool not running")
                world.current = self.processes

            def map(self, f, *its, **k):
                self._live()
                if len(its) > 1 and callable(getattr(its[1], "__iter__", None)):
                    return world.run(f, list(zip(*its)), star=True)[0]
                return world.run(f, list(its[0]))[0]

            def starmap(self, f, it, chunksize=None):
                self._live()
                return world.run(f, list(it), star=True)[0]

            def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
                r = self.map(f, it)
                if callback:
                    callback(r)
                return Result(r)

            def imap(self, f, it, chunksize=1):
                return iter(self.map(f, it))

            def imap_unordered(self, f, it, chunksize=1):
                self._live()
                res, order = world.run(f, list(it))
                return iter([res[i] for i in order])

            def apply(self, f, args=(), kwds={}):
                self._live()
                r = f(*world.pickled(list(args)), **kwds)
                world.current = 1
                return r

            def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
                r = self.apply(f, args, kwds)
                if callback:
                    world.pending.append((callback, r))
                return Result(r)

            def submit(self, f, *args, **kwds):
                return Result(self.apply(f, args, kwds))

            def close(self):
                self.open = False

            def join(self):
                cbs, world.pending = world.pending, []
                if cbs:
                    for i in world.order(len(cbs)):
                        cbs[i][0](cbs[i][1])

            def terminate(self):
                self.open = False

            def shutdown(self, wait=True, cancel_futures=False):
                self.open = False

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.open = False
                self.join()

        def as_completed(fs, timeout=None):
            fs = list(fs)
            return iter([fs[i] for i in world.order(len(fs))])

        class Context:
            def __getattr__(self, n):
                if n == "Pool":
                    return Pool
                if n == "cpu_count":
                    return lambda: world.cores
                return getattr(multiprocessing, n)

        self.pending = []
        env.patch_module_attrs(c, multiprocessing, {
            "Pool": Pool, "cpu_count": lambda: world.cores, "get_context": lambda *a: Context()})
        env.patch_module_attrs(c, os, {"cpu_count": lambda: world.cores})
        env.patch_module_attrs(c, concurrent.futures, {
            "ProcessPoolExecutor": Pool, "ThreadPoolExecutor": Pool, "as_completed": as_completed})
        for m in (concurrent.futures,):
            for n, v in (("ProcessPoolExecutor", Pool), ("ThreadPoolExecutor", Pool),
                         ("as_completed", as_completed)):
                env.setattr_for(c, m, n, v)
