"""C09: reuse of saved samples."""

import warnings

import numpy as np

from symx import core, env
from symx.run import harness
from checks import casework
from checks.casework import KINDS, METRICS, ROWS, SPECIES, Cases, filename

ASSUMPTIONS = casework.ASSUMPTIONS

warnings.simplefilter("ignore")

SEQ = [("ignition", "psr"), ("psr", "flame"), ("flame", "ignition")]


def prepare(c, w, kind, n, phase, metric_states, data_states):
    """Saved files of one phenomenon in an arbitrary state; returns (metrics, data)."""
    m_state = c.choice("file_" + kind, metric_states)
    d_state = c.choice("data_" + kind, data_states)
    k, r, width = n * METRICS[kind], n * ROWS[kind], 2 + SPECIES[phase]
    count = {"absent": None, "empty": 0, "right": k, "more": k + 1, "one": 1, "double": 2 * k,
             "fewer": k - 1}[m_state]
    metrics = None if count is None else [c.real("old_%s_%d" % (kind, j), 0.0, 3000.0)
                                          for j in range(count)]
    shape = {"absent": None, "empty": (0, 0), "right": (r, width), "more rows": (r + 1, width),
             "fewer rows": (r - 1, width), "more columns": (r, width + 1), "one row": (1, width),
             "fewer columns": (r, width - 1), "other case count": (r + ROWS[kind], width),
             "transposed": (width, r)}[d_state]
    data = None if shape is None else [[7e6 + 1e3 * i + j for j in range(shape[1])]
                                       for i in range(shape[0])]
    w.save("output_" + kind, metrics)
    w.save("data_" + kind, data)
    fits_m = count is not None and count == k
    fits_d = shape is not None and shape == (r, width)
    return metrics, data, fits_m, fits_d


M_Q = ["right", "absent", "more"]
D_Q = ["right", "absent", "more rows", "fewer columns"]
M_T = ["right", "absent", "more", "empty", "one", "double", "fewer"]
D_T = ["right", "absent", "empty", "more rows", "fewer rows", "more columns", "fewer columns",
       "one row", "other case count", "transposed"]


@harness(
    quick=[{"counts": {k: 1}, "deep": True, "phase": p} for k in KINDS for p in ("", "small")]
    + [{"counts": {k: 2}, "deep": True, "phase": "small"} for k in KINDS]
    + [{"counts": {a: 2, b: 1}, "deep": False, "phase": "big"} for a, b in SEQ]
    + [{"counts": {"ignition": 1, "psr": 1, "flame": 1}, "deep": None, "phase": ""}],
    thorough=[{"counts": {k: n}, "deep": True, "phase": p}
              for k in KINDS for n in (1, 2, 3) for p in ("", "big", "small")]
    + [{"counts": {a: n, b: m}, "deep": True, "phase": "small"} for a, b in SEQ
       for n, m in ((1, 1), (2, 1))]
    + [{"counts": {"ignition": 2, "psr": 1, "flame": 1}, "deep": False, "phase": ""}],
    covers=["reused", "recomputed", "mixed"],
    bounds="1-2 cases per phenomenon (3 thorough), one, two or all three phenomena, saved metric "
           "and data files absent, empty, fitting or of a wrong size in rows or columns (all "
           "combinations), arbitrary saved and simulated metric values")
def sampling(c, counts, deep, phase):
    env.install(c)
    env.scratch(c)
    casework.write_model("mech.yaml")
    w = Cases(c, counts)
    w.install()
    old, reuse = {}, {}
    ms, ds = {True: (M_T, D_T), False: (M_Q, D_Q), None: (["right", "absent"], ["right", "absent"])}[deep]
    for k in KINDS:
        n = counts.get(k, 0)
        if n:
            m, d, fm, fd = prepare(c, w, k, n, phase, ms, ds)
            reuse[k] = fm and fd
        else:  # not requested: its saved files must survive
            m, d = [c.real("old_" + k, 0.0, 9.0)], [[1.0, 2.0], [3.0, 4.0]]
            w.save("output_" + k, m)
            w.save("data_" + k, d)
        old[k] = (m, d)
    s = env.mod("sampling")
    metrics, data = s.sample("mech.yaml", w.conds["ignition"], w.conds["psr"], w.conds["flame"],
                             phase_name=phase)
    want_m, want_d = [], []
    for k in KINDS:
        if not counts.get(k):
            continue
        if reuse[k]:
            want_m += old[k][0]
            want_d += old[k][1]
        else:
            want_m += w.all_metrics(k, phase)
            want_d += w.all_rows(k, phase)
    w.check_equal(metrics, want_m, "metrics are the fitting saved ones or newly simulated ones",
                  "metrics")
    c.check(np.ndim(metrics) == 1, "metrics form one list", "ndim")
    c.check(np.shape(data) == (len(want_d), 2 + SPECIES[phase]), "one row per sampled state",
            "rows", str(np.shape(data)))
    w.check_equal(data, want_d, "sampled data are the fitting saved ones or newly simulated ones",
                  "data")
    for k in KINDS:
        if counts.get(k) and not reuse[k]:
            wm, wd = w.all_metrics(k, phase), w.all_rows(k, phase)
        else:
            wm, wd = old[k]
        w.check_equal(w.saved("output_" + k), wm, "the metric file holds the metrics in use",
                      "metric file")
        w.check_equal(w.saved("data_" + k), wd, "the data file holds the data in use", "data file")
    c.check(all(m == "mech.yaml" and p == phase for _, _, m, p in w.ran),
            "the given model and phase are simulated", "model")
    c.observe("metrics", list(metrics))
    for k in reuse:
        c.cover("reused" if reuse[k] else "recomputed")
    if len(set(reuse.values())) != 1 or len(reuse) == 1:
        c.cover("mixed")


@harness(
    quick=[{"counts": {k: n}} for k in KINDS for n in (1, 2)]
    + [{"counts": {a: 2, b: 1}} for a, b in SEQ]
    + [{"counts": {"ignition": 1, "psr": 2, "flame": 1}}],
    thorough=[{"counts": {k: n}} for k in KINDS for n in (1, 2, 3, 4)]
    + [{"counts": {a: n, b: m}} for a, b in SEQ for n, m in ((1, 1), (2, 1), (1, 2), (3, 3))]
    + [{"counts": {"ignition": a, "psr": b, "flame": d}} for a in (1, 2) for b in (1, 2)
       for d in (1, 2)],
    covers=["reused", "simulated although saved", "recomputed"],
    bounds="1-2 cases per phenomenon, saved metric files absent, empty, fitting or of a wrong "
           "length, reuse requested or not, arbitrary values")
def evaluation(c, counts):
    env.install(c)
    env.scratch(c)
    casework.write_model("mech.yaml")
    w = Cases(c, counts)
    w.install()
    reuse = c.flag("reuse_saved")
    want, old, sims = [], {}, {}
    states = ["right", "absent", "more", "one", "empty", "double", "fewer"] \
        if len(counts) < 3 else ["right", "absent", "more"]
    for k in KINDS:
        n = counts.get(k, 0)
        if not n:
            old[k] = [c.real("old_" + k, 0.0, 9.0)]
            w.save("output_" + k, old[k])
            continue
        m, _, fits, _ = prepare(c, w, k, n, "", states, ["absent"])
        old[k] = m
        if reuse and fits:
            want += m
            c.cover("reused")
        else:
            want += w.all_metrics(k, "", "candidate.yaml")
            c.cover("recomputed")
            if fits:
                c.cover("simulated although saved")
    got = env.mod("sampling").sample_metrics(
        "candidate.yaml", w.conds["ignition"], w.conds["psr"], w.conds["flame"],
        reuse_saved=reuse)
    w.check_equal(got, want, "metrics are the requested saved ones or those of the given model",
                  "metrics")
    c.check(np.ndim(got) == 1, "metrics form one list", "ndim")
    for k in KINDS:
        if old[k] is not None:
            w.check_equal(w.saved("output_" + k), old[k],
                          "evaluating a model leaves the saved metrics alone", "metric file")
        else:
            c.check(w.saved("output_" + k) is None, "evaluating a model saves no metrics",
                    "metric file")
    c.observe("metrics", list(got))


@harness(
    quick=[{"kinds": ks} for ks in (("ignition",), ("psr",), ("flame",), ("ignition", "flame"),
                                    ("ignition", "psr", "flame"))],
    covers=["read", "missing"],
    bounds="any subset of phenomena, saved files present or absent, arbitrary values")
def reading(c, kinds):
    env.install(c)
    env.scratch(c)
    counts = {k: 1 + (k == "ignition") for k in kinds}
    w = Cases(c, counts)
    want, missing = [], False
    for k in KINDS:
        there = c.flag("there_" + k)
        vals = [c.real("old_%s_%d" % (k, i), 0.0, 9.0)
                for i in range(METRICS[k] * counts.get(k, 1))]
        w.save("output_" + k, vals if there else None)
        if k in kinds:
            missing = missing or not there
            want += vals
    try:
        got = env.mod("sampling").read_metrics(w.conds["ignition"], w.conds["psr"], w.conds["flame"])
    except SystemError:
        c.check(missing, "saved metrics that exist are read", "read")
        c.cover("missing")
        return
    c.check(not missing, "missing saved metrics are an error", "missing")
    if not missing:
        w.check_equal(got, want, "saved metrics are read in order", "order")
        c.cover("read")


@harness(
    quick=[{"kinds": ("ignition",)}, {"kinds": ("psr",)}, {"kinds": ("flame",)},
           {"kinds": ("ignition", "psr", "flame")}],
    covers=["second run reuses", "second run recomputes"],
    bounds="two sampling runs in succession in one directory; between them nothing, one more "
           "case, one case fewer or another phase; arbitrary metrics")
def twice(c, kinds):
    env.install(c)
    env.scratch(c)
    casework.write_model("mech.yaml")
    what = c.choice("change", ["nothing", "more", "fewer", "phase"])
    n1 = 2 if what == "fewer" else 1
    n2 = 2 if what == "more" else 1
    w = Cases(c, {k: max(n1, n2) for k in kinds})
    w.install()
    s = env.mod("sampling")
    cs = {k: w.conds[k] for k in KINDS}

    def run(n, phase):
        return s.sample("mech.yaml", *[cs[k][:n] for k in KINDS], phase_name=phase)

    run(n1, "big")
    before = len(w.ran)
    phase = "small" if what == "phase" else "big"
    metrics, data = run(n2, phase)
    if what == "nothing":
        c.check(len(w.ran) == before, "fitting saved samples are reused", "reuse")
        c.cover("second run reuses")
    else:
        c.cover("second run recomputes")
    w.check_equal(metrics, [x for k in KINDS for i in range(len(cs[k][:n2]))
                            for x in w.metric(k, i, "mech.yaml", phase)],
                  "metrics after a second run", "metrics")
    w.check_equal(data, [r for k in KINDS for i in range(len(cs[k][:n2]))
                         for r in w.rows(k, i, phase)], "data after a second run", "data")
