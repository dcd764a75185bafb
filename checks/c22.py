"""C22: reduction input and the driver."""

import inspect
import os
import sys

import numpy as np

from symx import core, env
from symx.core import HName
from symx.run import harness
from checks import casework
from checks.casework import KINDS, Cases, PoolWorld

ASSUMPTIONS = [
    "cantera.Solution is replaced by a stand-in that only knows its species names (parse, command "
    "line); run_drg, run_drgep, run_pfa, run_sa and convert are replaced by stand-ins that record "
    "the values of their documented parameters and return an arbitrary reduced model (driver, "
    "command line); in symbolic runs yaml.safe_load returns the (arbitrary) input data directly",
    "'options' runs the real reduction methods on a two-phase model with stand-ins for simulations, "
    "interaction matrices and worker pools",
]

KNOWN = ("S0", "S1", "S2")
UNIVERSE = KNOWN + ("XX",)
METHODS = ("DRG", "DRGEP", "PFA")


class Model:
    species_names = [HName(s) for s in KNOWN]
    n_species = len(KNOWN)

    def __init__(self, events, source):
        events.append(("load",) + source)


def install_model(c, events):
    import cantera as ct

    env.patch_module_attrs(c, ct, {"Solution": lambda infile="", name="", **k: Model(
        events, (k.get("infile", infile), k.get("name", name)))})


def case(kind, i, fuel=None, oxid=None, react=None):
    d = {"temperature": 300.0 + i, "pressure": 1.0 + i}
    if kind == "ignition":
        d["kind"] = "constant volume"
    if react is not None:
        d["reactants"] = {react: 1.0}
    else:
        d.update({"equivalence-ratio": 1.0, "fuel": {fuel: 1.0}, "oxidizer": {oxid: 2.0}})
    return d


KEYS = {"ignition": "autoignition-conditions", "psr": "psr-conditions",
        "flame": "laminar-flame-conditions"}
FIELDS = {"ignition": "ignition_conditions", "psr": "psr_conditions", "flame": "flame_conditions"}


def is_in(x, seq):
    return core.Or(*[x == y for y in seq]) if len(seq) else False


def put(c, d, key, options):
    """Choose how an entry is given: 'omitted' or a value."""
    v = c.choice(key, options)
    if v != "omitted":
        d[key] = v
    return None if v == "omitted" else v


@harness(
    quick=[{"what": w} for w in ("required", "species", "kinds", "options")],
    thorough=[{"what": "species", "many": True}],
    covers=["accepted", "rejected"], path_seconds=60,
    bounds="all combinations of given and omitted entries; arbitrary error limit and thresholds; up "
           "to 2 targets, 1 retained species (2 thorough) and 1-3 cases with arbitrary species, of "
           "one, two or all three kinds")
def parse(c, what, many=False):
    env.install(c)
    env.scratch(c)
    events = []
    install_model(c, events)
    d = {}
    ok = []
    targets, retained = [HName("S0")], None
    used = []
    if what == "required":
        ok.append(bool(put(c, d, "model", ["omitted", "", "mech.yaml"])))
        err = None
        if c.flag("has_error"):
            err = d["error"] = c.real("error", -1.0, 100.0)
        ok.append(err is not None and err != 0)
        method = put(c, d, "method", ["omitted", "", "DRG", "DRGEP", "PFA", "DRGEP2"])
        sa = put(c, d, "sensitivity-analysis", ["omitted", True, False])
        ok.append(bool(method) or bool(sa))
        ok.append(not method or method in METHODS)
        give = c.choice("targets", ["omitted", "empty", "one"])
        if give != "omitted":
            targets = d["targets"] = [HName("S0")] if give == "one" else []
        else:
            targets = []
        ok.append(not method or bool(targets))
        ok.append(False)
        for k in KINDS:
            n = c.choice(KEYS[k], ["omitted", 0, 1])
            if n != "omitted":
                own = HName("S%d" % list(KINDS).index(k))
                d[KEYS[k]] = [case(k, i, react=own) for i in range(n)]
                if n:
                    ok[-1] = True
                    used.append(own)
    else:
        d.update({"model": "mech.yaml", "error": 10.0, "method": "DRGEP"})
        err = 10.0
        method, sa = "DRGEP", None
    if what == "species":
        targets = d["targets"] = [c.name("target_%d" % i, UNIVERSE)
                                  for i in range(c.choice("n_targets", [1, 2]))]
        n = c.choice("n_retained", ["omitted", 0, 1, 2] if many else ["omitted", 0, 1])
        if n != "omitted":
            retained = d["retained-species"] = [c.name("retained_%d" % i, UNIVERSE)
                                                for i in range(n)]
        ok += [is_in(s, KNOWN) for s in targets + list(retained or [])]
        kinds = c.choice("kinds", [("ignition",), ("psr",), ("flame",)]
                         + ([KINDS] if many else []))
        for k in kinds:
            if len(kinds) == 1:
                f, o, r = [c.name(x, KNOWN) for x in ("fuel", "oxidizer", "reactant")]
                d[KEYS[k]] = [case(k, 0, fuel=f, oxid=o), case(k, 1, react=r)]
                used += [f, o, r]
            else:
                r = c.name("reactant_" + k, KNOWN)
                d[KEYS[k]] = [case(k, 0, react=r)]
                used.append(r)
    if what == "kinds":
        targets = d["targets"] = [HName("S0")]
        if c.flag("has_retained"):
            retained = d["retained-species"] = [HName("S1")]
        for k in c.choice("kinds", [("ignition", "psr"), ("ignition", "flame"), ("psr", "flame"),
                                    KINDS]):
            r = c.name("reactant_" + k, UNIVERSE)
            d[KEYS[k]] = [case(k, 0, react=r)]
            used.append(r)
            ok.append(is_in(r, KNOWN))
    if what == "options":
        targets = d["targets"] = [HName("S0")]
        sa = put(c, d, "sensitivity-analysis", ["omitted", True])
        phase = put(c, d, "phase-name", ["omitted", "gas"])
        kind = put(c, d, "sensitivity-type", ["omitted", "initial", "greedy"])
        upper = floor = None
        if c.flag("has_upper"):
            upper = d["upper-threshold"] = c.real("upper", 0.0, 1.0, lo_open=True)
        if c.flag("has_floor"):
            floor = d["min-flame-speed"] = c.real("floor", 0.0, 1.0)
        for k in KINDS:
            d[KEYS[k]] = [case(k, i, fuel=HName("S1"), oxid=HName("S2")) for i in range(2)]
        used = [HName("S1"), HName("S2")]
    targets0, retained0 = list(targets), list(retained or [])
    given = {k: v for k, v in d.items()}
    good = core.And(*ok)
    try:
        got = env.mod("pymars").parse_inputs(d)
    except Exception:
        c.check(core.Not(good), "valid input is accepted", "rejected", str(sorted(given)))
        c.cover("rejected")
        return
    c.check(good, "invalid input raises an error", "accepted", str(sorted(given)))
    c.cover("accepted")
    c.check(got.model == "mech.yaml" and c.eq(got.error, err), "model and error limit", "model")
    c.check((got.method or None) == (method or None)
            and bool(got.sensitivity_analysis) == bool(sa), "method and sensitivity analysis",
            "method", "%s %s" % (got.method, got.sensitivity_analysis))
    c.check(len(got.target_species) == len(targets0) and core.And(*[
        a == b for a, b in zip(got.target_species, targets0)]), "targets", "targets")
    safe = list(got.safe_species)
    for s in used:
        c.check(core.Or(is_in(s, targets0), is_in(s, safe)),
                "species of the cases are retained", "case species")
    for s in retained0:
        c.check(is_in(s, safe), "retained species are retained", "retained")
    for s in safe:
        c.check(core.Or(is_in(s, retained0), is_in(s, used)), "nothing else is retained",
                "extra retained")
    for k in KINDS:
        want = d.get(KEYS[k]) or []
        cases = getattr(got, FIELDS[k])
        c.check(len(cases) == len(want) and all(
            x.temperature == w["temperature"] and x.pressure == w["pressure"]
            for x, w in zip(cases, want)), "the cases of every kind", "cases", k)
    if what == "options":
        c.check(got.phase_name == (phase or ""), "phase name", "phase")
        c.check(not kind or got.sensitivity_type == kind, "kind of sensitivity analysis", "kind")
        c.check(got.sensitivity_type in ("initial", "greedy"), "default kind", "default kind")
        if upper is not None:
            c.check(c.eq(got.upper_threshold, upper), "upper threshold", "upper")
        elif sa:
            c.check(c.eq(got.upper_threshold, 0.1), "default upper threshold", "default upper",
                    str(got.upper_threshold))
        c.check(got.min_flame_speed is None if floor is None
                else c.eq(got.min_flame_speed, floor), "minimum flame speed", "floor")
        c.check(all(x[1:] == ("mech.yaml", phase or "") for x in events),
                "the given model and phase are used", "source")


class Runs:
    """Stand-ins for the reduction methods."""

    def __init__(self, c, events):
        self.c, self.events, self.calls = c, events, []
        self.error = c.real("method_error", 0.0, 100.0)
        self.limbo = c.choice("limbo", [["S2"], []])
        rm = env.mod("reduce_model").ReducedModel
        self.reduced = rm(model=object(), filename="out/reduced_2.yaml", error=self.error,
                          limbo_species=list(self.limbo))
        self.final = rm(model=object(), filename="out/reduced_1.yaml", error=1.0,
                        limbo_species=[])
        for name, mod, attr in (("DRG", "drg", "run_drg"), ("DRGEP", "drgep", "run_drgep"),
                                ("PFA", "pfa", "run_pfa"), ("SA", "sensitivity_analysis", "run_sa")):
            self.stub(name, getattr(env.mod(mod), attr))

    def stub(self, name, real):
        sig = inspect.signature(real)

        def run(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls.append((name, dict(b.arguments)))
            self.events.append(("run", name, b.arguments["model_file"]))
            return self.final if name == "SA" else self.reduced

        env.patch_everywhere(self.c, real, run)

    def check(self, model, error, conds, method, targets, safe, phase, sa, upper, kind, path,
              threads, floor):
        c = self.c
        want = ([method] if method else []) + (["SA"] if sa else [])
        if [n for n, _ in self.calls] != want:
            c.fail("the requested methods run once, in order", "methods",
                   "%s instead of %s" % ([n for n, _ in self.calls], want))
            return
        for name, a in self.calls:
            same = {"model_file": model, "error_limit": error, "phase_name": phase,
                    "num_threads": threads, "path": path, "min_flame_speed": floor}
            if name == "SA":
                if method:
                    same["model_file"] = self.reduced.filename
                same["starting_error"] = self.error if method else 0.0
                same["algorithm_type"] = kind
                protected = list(a["species_safe"])
                c.check(all(s in protected for s in list(targets) + list(safe)),
                        "targets and retained species are protected", "protected",
                        str(protected))
                c.check(set(protected) <= set(targets) | set(safe), "nothing else is protected",
                        "extra protected")
                c.check(list(a["species_limbo"]) == (list(self.limbo) if method else []),
                        "the method's limbo species", "limbo")
            else:
                same["threshold_upper"] = upper
                c.check(list(a["species_targets"]) == list(targets), "targets", "targets")
                c.check(set(a["species_safe"]) == set(safe), "retained species", "retained",
                        str(a["species_safe"]))
            for k, v in zip(("ignition_conditions", "psr_conditions", "flame_conditions"), conds):
                c.check(len(a[k]) == len(v) and all(x is y or x == y for x, y in zip(a[k], v)),
                        "cases are passed on", name + " " + k)
            for k, v in same.items():
                if v is None or a[k] is None:
                    c.check(v is None and a[k] is None, "options are passed on unchanged",
                            "%s %s" % (name, k), str(a[k]))
                else:
                    c.check(c.eq(a[k], v) if not isinstance(v, str) else a[k] == v,
                            "options are passed on unchanged", "%s %s" % (name, k),
                            "%s instead of %s" % (a[k], v))
            c.cover(name)


@harness(
    quick=[{}], covers=list(METHODS) + ["SA", "SA only", "nothing requested"],
    bounds="every method with and without sensitivity analysis, with and without targets, arbitrary "
           "error limit, thresholds, minimum flame speed, process count, starting error, both kinds "
           "of sensitivity analysis")
def driver(c):
    env.install(c)
    env.scratch(c)
    events = []
    install_model(c, events)
    runs = Runs(c, events)
    method = c.choice("method", METHODS + (None,))
    sa = c.choice("sensitivity", [True, False])
    targets = c.choice("targets", [["S0", "S1"], ["S1"], []])
    safe = c.choice("safe", [["S2"], []])
    phase = c.choice("phase", ["gas", ""])
    error = c.real("error", 0.0, 100.0)
    upper = c.real("upper", 0.0, 1.0) if c.flag("has_upper") else None
    floor = c.real("floor", 0.0, 1.0) if c.flag("has_floor") else None
    kind = c.choice("kind", ["initial", "greedy"])
    threads = c.int("threads", 0, 8)
    s = env.mod("sampling")
    conds = [[s.InputIgnition("constant volume", 1000.0, 1.0, reactants={"S0": 1.0})],
             [s.InputPSR(1000.0, 1.0, reactants={"S0": 1.0})],
             [s.InputLaminarFlame(300.0, 1.0, reactants={"S0": 1.0})]]
    t0, s0 = list(targets), list(safe)
    try:
        got = env.mod("pymars").main(
            "mech.yaml", error, conds[0], psr_conditions=conds[1], flame_conditions=conds[2],
            method=method, target_species=t0, safe_species=s0, phase_name=phase,
            run_sensitivity_analysis=sa, upper_threshold=upper, sensitivity_type=kind, path="out",
            num_threads=threads, min_flame_speed=floor)
    except Exception:
        c.check(not (method or sa) or bool(method and not targets), "a valid request is run",
                "raised")
        c.check(not runs.calls, "nothing runs for an invalid request", "ran")
        if not method and not sa:
            c.cover("nothing requested")
        return
    c.check((method or sa) and not (method and not targets), "an invalid request raises",
            "accepted")
    runs.check("mech.yaml", error, conds, method, targets, safe, phase, sa, upper, kind, "out",
               threads, floor)
    if [n for n, _ in runs.calls]:
        c.check(got is (runs.final if sa else runs.reduced), "the last model is returned", "result")
    if sa and not method:
        c.cover("SA only")


def dump(path, d):
    import yaml

    def plain(x):
        if isinstance(x, dict):
            return {str(k): plain(v) for k, v in x.items()}
        if isinstance(x, list):
            return [plain(v) for v in x]
        return str(x) if isinstance(x, str) else x

    with open(path, "w") as f:
        yaml.safe_dump(plain(d), f)


@harness(
    quick=[{}], covers=["converted", "not converted"] + list(METHODS) + ["SA"], path_seconds=60,
    bounds="Cantera and Chemkin model files by extension, every method with and without sensitivity "
           "analysis, options given or omitted, --num_threads absent, without and with a number, "
           "--path, --thermo and --transport files; arbitrary error limit, thresholds and minimum flame speed")
def command_line(c):
    env.install(c)
    env.scratch(c)
    import yaml

    events = []
    install_model(c, events)
    runs = Runs(c, events)
    conv = env.mod("tools").convert
    sig = inspect.signature(conv)

    def convert(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        events.append(("convert", dict(b.arguments)))
        return "out/converted.yaml"

    env.patch_everywhere(c, conv, convert)
    model = c.choice("model", ["mech.yaml", "mech.inp", "dir.yaml/mech.yml", "chem", "mech.dat"])
    method = c.choice("method", METHODS + (None,))
    full = c.flag("all_options")
    sa = method is None or c.flag("sensitivity")
    d = {"model": model, "error": c.real("error", 0.0, 100.0, lo_open=True), "targets": ["S0"]}
    upper = floor = None
    if method:
        d["method"] = method
    if sa:
        d["sensitivity-analysis"] = True
    if full:
        d["retained-species"] = ["S2"]
        d["phase-name"] = "gas"
        d["sensitivity-type"] = c.choice("kind", ["initial", "greedy"])
        upper = d["upper-threshold"] = c.real("upper", 0.0, 1.0, lo_open=True)
        floor = d["min-flame-speed"] = c.real("floor", 0.0, 1.0)
    for k in KINDS:
        d[KEYS[k]] = [case(k, i, react="S1") for i in range(KINDS.index(k) + 1)]
    argv = ["-i", "input.yaml"]
    threads = 1
    path = ""
    thermo = transport = None
    if full:
        path = "out"
        argv += ["--path", "out", "--thermo", "th.dat", "--transport", "tr.dat"]
        thermo, transport = "th.dat", "tr.dat"
        threads = c.choice("threads", [1, 0, 3])
        argv += {1: [], 0: ["--num_threads"], 3: ["--num_threads", "3"]}[threads]
    if c.concrete:
        dump("input.yaml", d)
    else:
        open("input.yaml", "w").close()
        env.patch_module_attrs(c, yaml, {"safe_load": lambda *a, **k: dict(d),
                                         "load": lambda *a, **k: dict(d)})
    old = sys.argv
    sys.argv = ["pymars"] + argv
    c.on_exit(lambda: setattr(sys, "argv", old))
    try:
        env.mod("pymars").pymars(argv)
    except SystemExit as e:
        c.check(not e.code, "a valid command is run", "exit", str(e))
    chem = model in ("mech.inp", "chem", "mech.dat")
    convs = [e for e in events if e[0] == "convert"]
    c.check(len(convs) == (1 if chem else 0), "exactly a Chemkin model is converted", "convert",
            str(convs))
    if convs:
        a = convs[0][1]
        c.check((a["model_file"], a["thermo_file"], a["transport_file"], a["path"])
                == (model, thermo, transport, path), "conversion options", "convert options", str(a))
        c.check(events[0][0] == "convert", "the model is converted before it is used", "order",
                str(events[0]))
    used = "out/converted.yaml" if chem else model
    c.cover("converted" if chem else "not converted")
    c.check(all(e[1:] == (used, "gas" if full else "") for e in events if e[0] == "load"),
            "the (converted) model is the one that is used", "source", str(events))
    conds = []
    for k in KINDS:
        conds.append(getattr(env.mod("sampling"), "parse_%s_inputs" % k)(
            used, d[KEYS[k]], "gas" if full else ""))
    kind = d.get("sensitivity-type")
    if not kind and sa and runs.calls and runs.calls[-1][0] == "SA":
        kind = runs.calls[-1][1]["algorithm_type"]
        c.check(kind in ("initial", "greedy"), "default kind of sensitivity analysis", "kind")
    if upper is None:
        upper = 0.1 if sa else None
    runs.check(used, d["error"], conds, method, ["S0"], ["S2", "S1"] if full else ["S1"],
               "gas" if full else "", sa, upper, kind, path, threads, floor)


@harness(
    quick=[{"form": f} for f in ("yaml", "chemkin", "missing")],
    covers=["done"],
    bounds="--convert with each of the model, thermo, transport and path options given or omitted")
def convert_only(c, form):
    env.install(c)
    env.scratch(c)
    events = []
    install_model(c, events)
    runs = Runs(c, events)
    conv = env.mod("tools").convert
    sig = inspect.signature(conv)
    calls = []

    def convert(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        return ["a.inp", "b.dat"] if form == "yaml" else "mech.yaml"

    env.patch_everywhere(c, conv, convert)
    argv = ["--convert"]
    want = {"model_file": {"yaml": "mech.yaml", "chemkin": "mech.inp"}.get(form),
            "thermo_file": None, "transport_file": None, "path": ""}
    if form != "missing":
        argv += ["-m", want["model_file"]]
    for opt, key in (("--thermo", "thermo_file"), ("--transport", "transport_file"),
                     ("--path", "path")):
        if c.flag("has" + opt):
            argv += [opt, "x" + opt.strip("-")]
            want[key] = "x" + opt.strip("-")
    old = sys.argv
    sys.argv = ["pymars"] + argv
    err = sys.stderr
    sys.stderr = open(os.devnull, "w")

    def undo():
        sys.argv = old
        sys.stderr.close()
        sys.stderr = err

    c.on_exit(undo)
    try:
        env.mod("pymars").pymars(argv)
    except SystemExit as e:
        c.check(form == "missing" and e.code, "a conversion needs a model", "exit", str(e))
        c.check(not calls, "nothing is converted without a model", "converted")
        c.cover("done")
        return
    c.check(form != "missing", "a conversion without model is an error", "missing")
    c.check(calls == [want], "the conversion is run with the given options", "conversion",
            str(calls))
    c.check(not runs.calls, "conversion does not reduce", "reduction")
    c.cover("done")


@harness(
    quick=[{}], covers=["done"],
    bounds="Chemkin files in the working or another directory, with and without extension and dots "
           "in the name; thermodynamics, transport and path options each given or omitted")
def conversion(c):
    """Chemkin to Cantera."""
    env.install(c)
    env.scratch(c)
    from cantera import ck2yaml

    calls = []
    parser = ck2yaml.create_argparser()

    def main(argv=None):
        a = parser.parse_args(argv)
        calls.append((a.input, a.thermo or None, a.transport or None, a.output or None,
                      bool(a.permissive), a.surface or a.extra or None))

    def convert(input_file, thermo_file=None, transport_file=None, surface_file=None, *,
                extra_file=None, out_name=None, permissive=None, **k):
        calls.append((input_file, thermo_file or None, transport_file or None, out_name or None,
                      bool(permissive), surface_file or extra_file or None))
        return []

    env.patch_module_attrs(c, ck2yaml, {"main": main, "convert": convert})
    file, base = c.choice("file", [("m.inp", "m"), ("dir/m.dat", "m"), ("chem", "chem"),
                                   ("a.b.inp", "a.b"), ("d.yaml/m.txt", "m")])
    thermo, transport = [x if c.flag("has " + x) else None for x in ("th.dat", "tr.dat")]
    path = c.choice("path", ["", "out"])
    got = env.mod("tools").convert(file, thermo, transport, path)
    out = os.path.join(path, base + ".yaml")
    c.check(len(calls) == 1, "one conversion", "conversions", str(calls))
    for a in calls:
        c.check(a[:3] == (file, thermo, transport) and a[5] is None, "the given files are used",
                "files", str(a))
        c.check(a[3] is not None and os.path.normpath(str(a[3])) == out, "the output file",
                "output", str(a[3]))
        c.check(a[4], "recoverable errors of Chemkin files are tolerated", "permissive")
    c.check(isinstance(got, (str, os.PathLike)) and os.path.normpath(str(got)) == out,
            "the converted file is returned", "returned", str(got))
    c.cover("done")


COMBINED = [("", 1, None), ("out", 2, 0.01), ("", 0, 0), ("out", 1, 0), ("", 2, 0.01),
            ("out", 0, None), ("", 1, 0.01), ("out", 2, None), ("out", 0, 0.01)]


@harness(
    quick=[{"method": m, "sa": False} for m in METHODS]
    + [{"method": None, "sa": True}, {"method": None, "sa": True, "wide": True}],
    thorough=[{"method": m, "sa": True, "every": True} for m in METHODS]
    + [{"method": None, "sa": True, "wide": True, "every": True}],
    covers=["candidate simulated"], path_seconds=60,
    bounds="one or two cases of every phenomenon, a 2-species phase of a model with several phases, given or default "
           "minimum flame speed, process counts 1, 2 and 0 (4 cores), with and without output path "
           "(3 combinations, 9 thorough); arbitrary metrics of every candidate; also, for sensitivity "
           "analysis, a 4-species phase, with one arbitrary metric per candidate")
def options(c, method, sa, every=False, wide=False):
    """Every option reaches the simulations, from the driver down."""
    env.install(c)
    env.scratch(c)
    casework.write_model("mech.yaml")
    w = Cases(c, {"ignition": 2, "psr": 1, "flame": 1})
    path, threads, floor = c.choice("options", COMBINED if every else COMBINED[:3])
    if path:
        os.mkdir(path)
    phase = "wide" if wide else "small"
    species = ["H2", "O2", "OH", "AR"][:casework.SPECIES[phase]]
    if wide:
        full = w.metric
        w.metric = lambda kind, i, model="mech.yaml", phase="": (
            full(kind, i, model, phase)
            if (kind, i) == ("ignition", 0) and os.path.basename(str(model)) != "mech.yaml"
            else [1000.0] * casework.METRICS[kind])

    def touch(kind, i, sim):
        c.check(sim.phase_name == phase, "the given phase is simulated", "phase",
                "%s: %r" % (kind, sim.phase_name))
        if os.path.basename(str(sim.model)) == "mech.yaml":
            c.check(sim.path == path, "files go to the given directory", "path",
                    "%s: %r" % (kind, sim.path))
        if kind == "ignition" and threads != 1:
            c.check(p.current > 1, "cases run in parallel when requested", "parallel",
                    os.path.basename(str(sim.model)))
        if kind == "flame":
            want = 0.05 if floor is None else floor
            c.check(sim.min_flame_speed == want, "the minimum flame speed", "floor",
                    "%s instead of %s" % (sim.min_flame_speed, want))

    w.install(touch)
    p = PoolWorld(c, 4)
    p.order = lambda n: tuple(range(n))
    p.install()

    def matrix(state, solution):
        c.check(solution.n_species == len(state[2]) == len(species), "the given phase is reduced",
                "matrix phase")
        return env.arr(c, [[0.0, 0.25], [0.25, 0.0]])

    for m in ("drg", "drgep", "pfa"):
        env.patch_everywhere(c, getattr(env.mod(m), "create_%s_matrix" % m), matrix)
    got = env.mod("pymars").main(
        "mech.yaml", 20.0, w.conds["ignition"], psr_conditions=w.conds["psr"],
        flame_conditions=w.conds["flame"], method=method, target_species=["H2"] if method else [],
        safe_species=[] if method else ["H2"], phase_name=phase, run_sensitivity_analysis=sa,
        upper_threshold=0.5, sensitivity_type=c.choice("kind", ["initial", "greedy"]) if sa
        else "greedy", path=path, num_threads=threads, min_flame_speed=floor)
    cap = {1: 1, 2: 2, 0: 3}[threads]
    c.check(all(n <= cap for n in p.created), "the given number of processes", "processes",
            str(p.created))
    models = {}
    for kind, _, model, _ in w.ran:
        models.setdefault(os.path.basename(model), set()).add(kind)
    for model, kinds in sorted(models.items()):
        c.check(kinds == set(KINDS), "every model is evaluated on all cases", "cases",
                "%s: %s" % (model, sorted(kinds)))
    c.check(all(ph == phase for _, _, _, ph in w.ran), "the given phase is simulated", "phase ran")
    if len(models) > 1:
        c.cover("candidate simulated")
    c.check(set(got.model.species_names) <= set(species) and "H2" in got.model.species_names,
            "the reduced model is one of the given phase", "result")
    extra = [f for f in os.listdir(".") if f.endswith(".yaml") and f not in ("mech.yaml",)]
    c.check(not (path and extra), "model files go to the given directory", "files", str(extra))
