"""Check driver:  python -m symx.run C01 [--tier quick|thorough] [--jobs N]"""

import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from symx import core, env  # noqa: E402


class Harness:
    def __init__(self, fn, quick, thorough, covers, bounds, opts):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.covers = covers
        self.bounds = bounds
        self.opts = opts


def harness(quick=({},), thorough=None, covers=(), bounds="", **opts):
    def deco(fn):
        h = Harness(fn, list(quick), None if thorough is None else list(thorough),
                    list(covers), bounds, opts)
        mod = sys.modules[fn.__module__]
        if not hasattr(mod, "HARNESSES"):
            mod.HARNESSES = []
        mod.HARNESSES.append(h)
        return fn
    return deco


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def known_keys(prop):
    keys = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                keys[key.split("=", 1)[1]] = text
    return keys


def bind(h, params):
    def fn(c):
        c.params = params
        return h.fn(c, **params)
    return fn


_PROFILED = set()


def run_task(prop, hname, params, prefixes, seconds, known, validate):
    m = load(prop)
    h = [x for x in m.HARNESSES if x.name == hname][0]
    ex = core.Explorer(bind(h, params), known=known,
                       path_seconds=h.opts.get("path_seconds", 60),
                       timeout_ms=h.opts.get("timeout_ms", 10000),
                       max_validate=validate)
    tag = (hname, json.dumps(params, sort_keys=True))
    if tag not in _PROFILED:
        _PROFILED.add(tag)
        src = os.path.abspath(env.SRC) + os.sep

        def prof(frame, event, arg):
            if event == "call":
                f = frame.f_code.co_filename
                if f.startswith(src):
                    ex.stats.functions.add(
                        os.path.basename(f)[:-3] + "." + frame.f_code.co_qualname)

        sys.setprofile(prof)
        try:
            p0 = prefixes.pop()
            more = ex.one(p0)
        finally:
            sys.setprofile(None)
        prefixes = prefixes + more
    left = ex.explore(prefixes, time.time() + seconds)
    return {
        "left": left, "stats": ex.stats,
        "violations": [v.as_dict() for v in ex.violations],
        "unreproduced": ex.unreproduced, "known": ex.known_hits,
        "errors": ex.errors[:20],
    }


def worker_init():
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    budget = a.budget or (780.0 if tier == "quick" else 3600.0)
    t0 = time.time()
    deadline = t0 + budget
    seed = int(os.environ.get("VERIF_SEED", "1"))

    try:
        env.modules()
    except Exception as ex:  # the tree does not import: nothing can be decided
        print("ERROR: cannot import the code under test: %r" % (ex,))
        return 2
    m = load(prop)
    known = known_keys(prop)
    hs = [h for h in m.HARNESSES if a.only is None or a.only == h.name]

    queue = []  # (harness, params index, prefixes)
    plist = {}
    for h in hs:
        ps = h.quick if tier == "quick" else h.quick + [x for x in h.thorough if x not in h.quick]
        for i, p in enumerate(ps):
            plist[(h.name, i)] = p
            queue.append((h, i, [[]]))
    agg = {h.name: core.Stats() for h in hs}
    per = {k: {"paths": 0, "s": 0.0} for k in plist}
    violations, unrep, errors, known_hit = [], [], [], {}
    left_over = 0

    ctxm = multiprocessing.get_context("fork")
    pool = cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctxm, initializer=worker_init)
    running = {}
    found = False
    try:
        while queue or running:
            while queue and len(running) < a.jobs + 2 and not found:
                h, i, prefixes = queue.pop(0)
                left = deadline - time.time()
                if left <= 0:
                    left_over += len(prefixes)
                    continue
                sl = min(6.0 if len(queue) < a.jobs else 12.0, max(left, 0.5))
                f = pool.submit(run_task, prop, h.name, plist[(h.name, i)], prefixes, sl,
                                list(known), h.opts.get("validate", 12))
                running[f] = (h, i, time.time())
            if found and not running:
                break
            done, _ = cf.wait(list(running), return_when=cf.FIRST_COMPLETED, timeout=5)
            if not done and time.time() > deadline + 40:
                left_over += len(running)  # stuck inside the solver: give up on these
                break
            for f in done:
                h, i, ts = running.pop(f)
                try:
                    r = f.result()
                except Exception as ex:
                    errors.append("worker failed in %s: %r" % (h.name, ex))
                    continue
                per[(h.name, i)]["paths"] += r["stats"].paths
                per[(h.name, i)]["s"] += time.time() - ts
                agg[h.name].merge(r["stats"])
                for v in r["violations"]:
                    violations.append((h, i, v))
                unrep += ["%s: %s" % (h.name, u) for u in r["unreproduced"]]
                errors += ["%s: %s" % (h.name, e) for e in r["errors"]]
                known_hit.update(r["known"])
                if r["left"] and not violations:
                    chunks = max(1, min(a.jobs, len(r["left"])))
                    for k in range(chunks):
                        queue.append((h, i, r["left"][k::chunks]))
                if violations:
                    found = True
                    queue = []
    finally:
        for f in running:
            f.cancel()
        procs = list(getattr(pool, "_processes", {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.terminate()
            except Exception:
                pass
        for p in procs:
            p.join(2)
        for p in procs:
            import glob
            import shutil

            for d in glob.glob("/tmp/pymars-symx-*"):
                try:
                    owner = int(open(os.path.join(d, "pid")).read())
                except Exception:
                    continue
                if owner == p.pid:
                    shutil.rmtree(d, ignore_errors=True)

    total = core.Stats()
    for s in agg.values():
        total.merge(s)

    vacuous = []
    if not violations and not errors and not unrep and not left_over:
        for h in hs:
            st = agg[h.name]
            if st.paths == 0:
                vacuous.append("%s: no complete path" % h.name)
            for cv in h.covers:
                if not st.covers.get(cv):
                    vacuous.append("%s: coverage witness never reached: %s" % (h.name, cv))
            if st.obligations == 0:
                vacuous.append("%s: no assertion was reached" % h.name)

    wall = time.time() - t0
    replay_path = None
    if violations:
        h, i, v = violations[0]
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        replay_path = os.path.join(rd, "%s.json" % prop)
        with open(replay_path, "w") as f:
            json.dump({"property": prop, "harness": h.name, "params": plist[(h.name, i)],
                       "label": v["label"], "key": v["key"], "detail": v["detail"],
                       "values": v["values"],
                       "readable": {k: core.show(x) for k, x in v["values"].items()},
                       "how": "cd /verif && ./replay.sh %s" % os.path.relpath(replay_path, HERE)},
                      f, indent=1)

    if not a.no_evidence and a.only is None:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": total.paths,
                "transitions": total.decisions,
                "traces_validated_against_impl": total.validated,
                "samples": total.samples[:4] or ["no completed path"],
                "exhaustive": not (left_over or errors or violations or total.concretizations),
                "functions_encoded": sorted(total.functions),
                "bounds": {h.name: h.bounds for h in hs},
                "parameter_sets": {"%s#%d" % k: {"params": plist[k], "paths": per[k]["paths"],
                                                 "worker_s": round(per[k]["s"], 1)} for k in plist},
                "assertions": total.obligations,
                "assertions_discharged": total.discharged,
                "assertions_discharged_without_query": total.trivial,
                "solver_queries": total.queries,
                "solver_seconds": round(total.solver_s, 2),
                "symbolic_forks": total.forks,
                "infeasible_paths_cut": total.infeasible,
                "solver_unknown": total.unknown,
                "concretized_values": total.concretizations,
                "uninterpreted_operations": total.uninterpreted,
                "translator_mismatches": total.mismatches,
                "float_divergences": total.float_divergences,
                "coverage_witnesses": {h.name: agg[h.name].covers for h in hs},
                "unexplored_prefixes": left_over,
                "known_findings_seen": sorted(known_hit),
                "notes": total.notes[:10],
                "solver": "z3 %s" % core.z3.get_version_string(),
            },
            "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    print("%s %s: %d paths, %d forks, %d assertions (%d discharged), %d queries, solver %.1fs, "
          "validated %d (mismatch %d, float %d), wall %.1fs" % (
              prop, tier, total.paths, total.forks, total.obligations, total.discharged,
              total.queries, total.solver_s, total.validated, total.mismatches,
              total.float_divergences, wall))
    for n in total.notes[:5]:
        print("  note:", n[:600])
    for k, text in known.items():
        if k in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if violations:
        h, i, v = violations[0]
        print("  %s %s: %s" % (h.name, plist[(h.name, i)], v["label"]))
        if v["detail"]:
            print("  " + v["detail"][-600:])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    if errors or unrep:
        for e in errors[:5]:
            print("ERROR:", e[:800])
        for e in unrep[:5]:
            print("ERROR: counterexample did not reproduce:", e[:800])
        return 2
    if left_over:
        print("INCONCLUSIVE: budget used up with %d prefixes unexplored" % left_over)
        # a deep run that ends early has decided everything the quick tier does and more
        return 3 if tier == "quick" or any(
            not per[(h.name, i)]["paths"] for h in hs for i in range(len(h.quick))) else 0
    if vacuous:
        for e in vacuous:
            print("ERROR: vacuous:", e)
        return 4
    return 0


COMMON_ASSUMPTIONS = [
    "floating-point inputs are modelled as mathematical reals (constants at their exact "
    "binary value); rounding is outside the claim except where a harness says otherwise",
    "numpy, networkx, heapq and Python built-ins are executed for real on the proxies; the "
    "elementwise numpy semantics in symx/nparr.py are trusted (validated per path by the "
    "concrete re-runs counted in traces_validated_against_impl)",
    "outside the stated bounds nothing is claimed",
]


if __name__ == "__main__":
    rc = main()
    env.remove_base()
    sys.stdout.flush()
    os._exit(rc)
