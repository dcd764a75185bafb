#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


S = "src/pymars/"

prop("C01", "DRG direct interaction coefficients match their definition",
     "For every thermochemical state, the DRG graph weight from species A to species B is the sum of |net stoichiometric coefficient of A times net reaction rate| over the reactions that involve B as reactant or product, divided by the same sum over all reactions. "
     "Every weight lies in [0, 1], the diagonal is zero, and a species that takes part in no reaction with a nonzero net contribution has only zero weights out of it (never NaN or infinity). "
     "The matrix is evaluated at the given temperature, pressure and mass fractions.",
     ["inputs", "configurations"],
     "all stoichiometries (including species that appear on both sides of a reaction), all net rates (positive, negative, zero, arbitrarily small), all states",
     "The tests compare a handful of fixed mechanisms and states against precomputed numbers; sign cancellation, zero-rate columns, inert species and catalytic species in arbitrary combination are not sampled.",
     [S + "drg.py"], [("create_drg_matrix", S + "drg.py")], ["drg.create_drg_matrix"])

prop("C02", "DRGEP direct interaction coefficients match their definition",
     "For every thermochemical state, the DRGEP graph weight from species A to species B is |the sum of (net stoichiometric coefficient of A times net rate) over the reactions involving B| divided by the larger of A's total production and total consumption rate. "
     "Every weight lies in [0, 1], the diagonal is zero, and species that are neither produced nor consumed have only zero weights (never NaN or infinity). "
     "The matrix is evaluated at the given temperature, pressure and mass fractions.",
     ["inputs", "configurations"],
     "all stoichiometries, all net rates of either sign including zero, all states",
     "The tests use fixed small mechanisms; cancellation between producing and consuming reactions and the bound of one that the path search relies on hold or fail only over all rate combinations.",
     [S + "drgep.py"], [("create_drgep_matrix", S + "drgep.py")], ["drgep.create_drgep_matrix"])

prop("C03", "PFA interaction coefficients match their definition",
     "For every thermochemical state, the PFA graph weight from species A to species B is the sum of the first-generation production and consumption flux ratios of A via B and the second-generation ratios, each of which sums over all intermediate species other than A and B the product of the first-generation ratios of the same kind. "
     "First-generation ratios are A's production (or consumption) in reactions involving B divided by the larger of A's total production and consumption; the diagonal is zero and inert species give zero, never NaN or infinity. "
     "The matrix is evaluated at the given temperature, pressure and mass fractions.",
     ["inputs", "configurations"],
     "all stoichiometries, all net rates of either sign including zero, all states",
     "Tests check a few precomputed matrices; mixing of production and consumption fluxes, the exclusion of the end species as intermediates and zero-denominator rows need all combinations.",
     [S + "pfa.py"], [("create_pfa_matrix", S + "pfa.py")], ["pfa.create_pfa_matrix"])

prop("C04", "Graph search keeps exactly the species reachable above the threshold",
     "For DRG and PFA, the species kept for one state are exactly those reachable from at least one target through edges whose weight is at or above the threshold, the targets themselves always included. "
     "Raising the threshold never adds a species.",
     ["inputs", "configurations"],
     "all weight matrices, all thresholds (including weights exactly equal to the threshold), all target lists",
     "Tests check single example graphs; the boundary at equality, cycles, several targets and unreachable components in combination are not covered.",
     [S + "drg.py", S + "pfa.py"],
     [("trim_drg", S + "drg.py"), ("trim_pfa", S + "pfa.py"), ("graph_search", S + "drg.py")],
     ["drg.trim_drg", "pfa.trim_pfa"])

prop("C05", "DRGEP importance is the best path product over targets, paths and states",
     "The overall DRGEP importance of a species is the maximum, over all targets, all directed paths from that target and all sampled states, of the product of the edge weights along the path. "
     "Targets have importance exactly 1, species that no target reaches in any state have 0, and every species of the model gets a value.",
     ["inputs", "configurations"],
     "all weight matrices with weights in [0, 1] (including exact ties and weights of 0 and 1), all target lists, all sets of states",
     "Tests run a few example graphs; a wrong settling order or relaxation rule shows only for particular orderings of path products.",
     [S + "drgep.py"],
     [("mod_dijkstra", S + "drgep.py"), ("graph_search_drgep", S + "drgep.py"), ("get_importance_coeffs", S + "drgep.py")],
     ["drgep.get_importance_coeffs"])

prop("C06", "One reduction step removes exactly the species it must and reports its error",
     "Given a threshold, a DRG or PFA step keeps exactly the species reached in at least one sampled state plus the always-retained species, and a DRGEP step removes exactly the species whose importance is below the threshold and that are not always-retained. "
     "Target and retained species are never removed. "
     "The reported error is the error of the simulated reduced model relative to the starting model's metrics, and the returned file holds exactly the returned model.",
     ["inputs", "configurations"],
     "all weights or importance values, thresholds, retained-species lists, numbers of sampled states and metric values",
     "Tests run one or two thresholds on one mechanism; the union over states, the treatment of retained species and equality at the threshold are not varied.",
     [S + "drg.py", S + "drgep.py", S + "pfa.py"],
     [("reduce_drg", S + "drg.py"), ("reduce_drgep", S + "drgep.py"), ("reduce_pfa", S + "pfa.py")],
     ["drg.reduce_drg", "drgep.reduce_drgep", "pfa.reduce_pfa"])

prop("C07", "Threshold search ends with the last model that met the error limit",
     "A DRG, DRGEP or PFA reduction terminates and returns the model of the highest threshold reached before the error limit was first exceeded (or everything removable was removed); its error is the true error of exactly that model and does not exceed the limit, it contains all target and retained species, and it exists on disk at the returned path with exactly that content. "
     "If even the smallest permitted threshold exceeds the limit the reduction stops with SystemExit instead of returning a model. "
     "The user's starting model file is never deleted or altered.",
     ["inputs", "histories", "configurations"],
     "all sequences of candidate-model errors along the search (including non-monotone ones and ones that never exceed the limit), all error limits, all interaction weights",
     "Each end-to-end test follows one error history of one mechanism; searches that shrink the threshold, never exceed the limit, skip several species at once or repeat models are other histories.",
     [S + "drg.py", S + "drgep.py", S + "pfa.py"],
     [("run_drg", S + "drg.py"), ("run_drgep", S + "drgep.py"), ("run_pfa", S + "pfa.py")],
     ["drg.run_drg", "drgep.run_drgep", "pfa.run_pfa"],
     [("threshold", "current cut-off, raised by the increment after each accepted model, divided by ten while the first model fails", S + "drg.py"),
      ("previous_model", "last accepted model", S + "drg.py")])

prop("C08", "Reduction error is the largest relative metric deviation, 100% on failure",
     "The error of a candidate model, in percent, is 100 times the largest |original - candidate| / original over all metrics. "
     "If any candidate metric is zero (no ignition, no flame or no extinction curve) the error is at least 100%... exactly 100%.",
     ["inputs"],
     "all positive original metrics and all non-negative candidate metrics, for every number of metrics",
     "Tests use a few fixed arrays; the position of the largest deviation, deviations of either sign and zero metrics in any position are not varied together.",
     [S + "sampling.py"], [("calculate_error", S + "sampling.py")], ["sampling.calculate_error"])

prop("C09", "Saved samples are reused only when they fit, and recomputed otherwise",
     "Sampling of the starting model reuses previously saved data of a phenomenon only if both its metric file and its data file exist and match the requested number of cases and the model's number of species; otherwise the cases are simulated and the files rewritten with the new results. "
     "Metric evaluation reads saved metrics only when asked to and only if the file exists with the right number of entries; in every other case the metrics are those simulated for the given model. "
     "Reuse of one phenomenon never affects another, and the result is ordered autoignition, PSR, flame.",
     ["configurations", "histories", "inputs"],
     "all combinations of present, missing and mismatched saved files for the three phenomena, all case counts",
     "Tests cover a few file situations per phenomenon; the cross product of file existence, counts and flags is not explored.",
     [S + "sampling.py"],
     [("sample", S + "sampling.py"), ("sample_metrics", S + "sampling.py"), ("read_metrics", S + "sampling.py")],
     ["sampling.sample", "sampling.sample_metrics"],
     [("data_files", "names of the saved metric and data files per phenomenon", S + "sampling.py")])

prop("C10", "Case results do not depend on process count or completion order",
     "Metrics and sampled data are returned in case order and are the same for every number of worker processes (0 meaning all but one core) and every order in which workers finish. "
     "Each case's metric and data come from that case's own conditions and the given model and phase.",
     ["schedules", "configurations", "inputs"],
     "all completion orders of the worker pool, all thread counts, all numbers of cases of the three phenomena",
     "The tests run serially or observe one completion order; an order-dependent merge passes whenever workers happen to finish in order.",
     [S + "sampling.py"],
     [("_run_workers", S + "sampling.py"), ("_run_sampling_jobs", S + "sampling.py"), ("_run_metric_jobs", S + "sampling.py")],
     ["sampling.sample", "sampling.sample_metrics"])

prop("C11", "Ignition delay is the first time temperature has risen by 400 K",
     "For every temperature history, the autoignition delay is the time of the first integration step whose temperature is at least 400 K above the initial temperature, and the candidate evaluation, the baseline run and the delay recomputed from the saved profile agree on it. "
     "For the baseline model, a history without ignition, an integrator failure, or a run that uses up its steps without reaching steady state raises RuntimeError; for a candidate model, no ignition or an integrator failure gives a delay of exactly 0 and never raises. "
     "The saved profile consists of the initial state and every integration step in order, for both the fixed end-time and the run-to-steady-state modes.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "all temperature histories (monotone or not), integrator failures at any step, all step limits and end times",
     "The tests integrate a few real mixtures; crossing exactly at the threshold, temperature dipping afterwards, failure after ignition and convergence on the last permitted step are not reached.",
     [S + "simulation.py"],
     [("IgnitionSimulation.run_case", S + "simulation.py"), ("IgnitionSimulation.calculate", S + "simulation.py"), ("IgnitionSimulation.process_results", S + "simulation.py")],
     ["simulation.IgnitionSimulation"])

prop("C12", "A flame counts only above the minimum speed; failures are contained",
     "A solved flame speed at or below the active minimum (0.05 m/s unless overridden, an override of zero included) or a solver failure means no flame: the baseline run raises RuntimeError, the candidate evaluation returns exactly 0. "
     "Any higher speed is returned unchanged by both, and the baseline's sampled data belong to that solved flame.",
     ["inputs", "fault_sequences", "configurations"],
     "all solved speeds (negative, zero, exactly at the minimum, above), solver failures, all minimum-speed settings",
     "Tests exercise a few speeds with the default floor; the equality boundary and the override combinations are not covered for all values.",
     [S + "simulation.py"],
     [("FlameSimulation", S + "simulation.py")], ["simulation.FlameSimulation"])

prop("C13", "PSR metrics describe the extinction point and burning branch correctly",
     "Only converged steady states enter the traced PSR curve, and the extinction point is the one with the smallest residence time reached on the burning branch when the residence time starts to increase; the second reference point is the burning-branch point nearest 0.1 s and the third the one nearest the geometric mean of those two residence times, each reported with its own residence time, temperature and composition. "
     "The metrics are the extinction residence time and the temperatures at the geometric-mean and 0.1 s points, and the sampled rows are the three points' states at the case pressure. "
     "If the curve cannot be seeded or never turns, the baseline raises RuntimeError and a candidate gets all-zero metrics.",
     ["inputs", "fault_sequences", "histories"],
     "all sequences of corrector outcomes (residence times, temperatures, failures at any step)",
     "The tests trace a few real mixtures whose curves all behave; other sequences of residence times and corrector failures never occur in them.",
     [S + "psr_solver.py", S + "simulation.py"],
     [("trace_extinction_curve", S + "psr_solver.py"), ("PSRSimulation", S + "simulation.py")],
     ["psr_solver.trace_extinction_curve", "simulation.PSRSimulation"])

prop("C14", "The PSR solver's Jacobian is the exact derivative of its residual",
     "For every state, the analytic Jacobian handed to the nonlinear solver equals the derivative of the residual handed to it with respect to every unknown (mass fractions, temperature and log residence time), both for fixed residence time and for the continuation step. "
     "The residual itself is the steady adiabatic constant-pressure species and energy balance; for a trial state "
     "without a meaning (temperature not positive, a mass fraction that is not finite, a failure in Cantera) "
     "it is finite, of the same length, and far from zero.",
     ["inputs"],
     "all compositions (not necessarily normalised), temperatures, residence times, kinetics values and derivatives of an ideal gas mixture",
     "Tests compare against finite differences at a single state with a loose tolerance, which hides terms that are small there.",
     [S + "psr_solver.py"],
     [("_core_residual", S + "psr_solver.py"), ("_core_jacobian", S + "psr_solver.py"), ("trace_extinction_curve", S + "psr_solver.py")],
     ["residual and Jacobian passed to scipy.optimize.root"])

prop("C15", "Profile samples are genuine profile points at the rise fractions",
     "Sampling a temperature profile returns one row per fraction of the total temperature rise, each row the complete state (temperature, pressure, mass fractions) of a single profile point: the first point, not already used for a lower fraction, whose temperature has reached that fraction of the rise from the initial to the final temperature. "
     "A profile whose temperature increases through all fractions therefore never yields an unset (all-zero) row; in particular the final temperature always counts as reaching the full rise.",
     ["inputs"],
     "all temperature profiles, including non-monotone ones and any floating-point end values",
     "The only direct test uses one linear ramp whose end values round conveniently.",
     [S + "simulation.py"],
     [("BaseSimulation._sample_profile", S + "simulation.py")],
     ["FlameSimulation.process_results", "IgnitionSimulation.process_results"])

prop("C16", "Removing species keeps exactly the reactions that remain meaningful",
     "Removing a set of species from a model leaves every other species unchanged and in order, and keeps, unchanged and in order, exactly the reactions in which no removed species is a reactant, a product, the only explicit collider, or a species with an explicit reaction order. "
     "In kept reactions the third-body efficiencies of surviving species are unchanged and those of removed species are gone. "
     "The result is always a loadable model with the same temperature, pressure, transport model and phase name.",
     ["inputs", "programs"],
     "all models (any mix of reactants, products, third bodies with explicit or default efficiencies, reaction orders) and all sets of removed species",
     "Tests remove a few species from two mechanisms; combinations of explicit colliders, several efficiencies and shared species are only sampled.",
     [S + "reduce_model.py"], [("trim", S + "reduce_model.py")], ["reduce_model.trim"])

prop("C17", "Simulation-case input is accepted exactly when valid and carried over intact",
     "An autoignition, PSR or laminar-flame case is accepted exactly if temperature and pressure are positive, its kind (autoignition) or width (flame) is valid, and its mixture is given either as a positive equivalence ratio with non-empty fuel and oxidizer or as reactants (never both), with every amount positive, every species present in the model, and mass-based composition only together with reactants. "
     "Anything else raises an error before any simulation starts. "
     "Accepted cases carry exactly the given values, with the documented defaults for omitted ones.",
     ["inputs", "configurations"],
     "all combinations of present, missing, zero, negative and positive values and known and unknown species",
     "Tests try single malformed entries one at a time on fixed values.",
     [S + "sampling.py"],
     [("parse_ignition_inputs", S + "sampling.py"), ("parse_psr_inputs", S + "sampling.py"), ("parse_flame_inputs", S + "sampling.py")],
     ["sampling.parse_ignition_inputs", "sampling.parse_psr_inputs", "sampling.parse_flame_inputs"])

prop("C18", "Sensitivity analysis respects protected species and the error limit",
     "Sensitivity analysis removes only candidate species (the given limbo species, or all unprotected ones), never a protected one, and accepts a removal only if the resulting error does not exceed the limit; the returned error is the true error of exactly the returned model, which exists on disk at the returned path. "
     "The next species considered is the one whose removal error is closest to the current error, using the initial errors (initial algorithm) or errors re-evaluated after each removal (greedy); the analysis stops at the first removal that exceeds the limit or when no acceptable candidate is left. "
     "It always returns a model, and does not modify the caller's lists or files.",
     ["inputs", "histories", "configurations"],
     "all error values of all candidate subsets, all limits, limbo lists and protected lists, both algorithms",
     "Tests follow one error history per algorithm on one mechanism, and mostly with mocked candidates.",
     [S + "sensitivity_analysis.py"],
     [("run_sa", S + "sensitivity_analysis.py"), ("evaluate_species_errors", S + "sensitivity_analysis.py")],
     ["sensitivity_analysis.run_sa"])

prop("C19", "Model comparison finds every kind of difference",
     "Comparing a model with an identical one gives True, whatever the order of their species and of reactions with distinct equations. "
     "It gives False whenever any species differs in name, composition, heat capacity, enthalpy or entropy, or in any transport parameter the first model carries, or any reaction differs in type, stoichiometry, reversibility, duplicate flag, rate parameters (Arrhenius, falloff, chemically activated, P-log or Chebyshev; of any magnitude) or third-body efficiencies, beyond rounding (relative 1e-5).",
     ["inputs", "programs"],
     "all pairs of models and all magnitudes of their parameters",
     "Tests perturb a few fields of two mechanisms one at a time.",
     [S + "tools.py"], [("compare_models", S + "tools.py")], ["tools.compare_models"])

prop("C20", "Chemkin export preserves the model",
     "Every number written to the Chemkin mechanism, thermodynamics and transport files is, read by the Chemkin rules for its position and unit (cm-mol-s-cal, K, atm, Debye, Angstrom), the corresponding model parameter to at least three significant digits (thermodynamic coefficients to nine; temperature exponents to three decimals, activation energies and temperature limits to two and transport data to three decimals, or four significant digits). "
     "Every element, species, reaction, third-body efficiency, falloff parameter, pressure-dependent rate, Chebyshev coefficient and duplicate mark appears exactly once and with the reaction it belongs to. "
     "Export succeeds for every supported reaction type and every legal number of falloff parameters.",
     ["inputs", "programs"],
     "all parameter values, reaction orders and combinations of supported reaction types",
     "Tests convert two mechanisms and compare with a loose tolerance; third-order, chemically activated, short falloff and Chebyshev entries with arbitrary values are barely represented.",
     [S + "soln2ck.py"],
     [("write", S + "soln2ck.py"), ("build_arrhenius", S + "soln2ck.py"), ("build_falloff_arrhenius", S + "soln2ck.py"), ("build_falloff", S + "soln2ck.py"), ("write_thermo_data", S + "soln2ck.py"), ("write_transport_data", S + "soln2ck.py")],
     ["soln2ck.write"])

prop("C21", "Limbo species are exactly the weakly coupled survivors, run by run",
     "With an upper threshold, the limbo species a graph reduction hands to sensitivity analysis are exactly the species of its final model that the upper threshold would remove and that are neither targets nor always-retained; without one there are none. "
     "The set depends only on the current run: repeating a reduction in the same process gives the same limbo species.",
     ["inputs", "histories", "configurations"],
     "all interaction weights, thresholds, retained-species lists and sequences of reductions in one process",
     "Tests check one limbo list per method in a fresh state; repeated runs and varied weights are not explored.",
     [S + "drgep.py", S + "drg.py", S + "pfa.py", S + "reduce_model.py"],
     [("run_drgep", S + "drgep.py"), ("reduce_drg", S + "drg.py"), ("reduce_pfa", S + "pfa.py"), ("ReducedModel", S + "reduce_model.py")],
     ["drgep.run_drgep", "drg.run_drg", "pfa.run_pfa"])

prop("C22", "The driver honours every option and protects the mixture's species",
     "Reduction input is accepted exactly if it names a model, a nonzero error limit, a known method (with at least one target) or sensitivity analysis, at least one kind of condition, and only target and retained species that exist in the model; every fuel, oxidizer and reactant species of every case is then retained automatically unless already a target. "
     "The driver runs the selected method and then, if requested, sensitivity analysis on the method's reduced model with its error and limbo species and with all targets and retained species protected, passing every option on unchanged. "
     "From the command line, a Chemkin model is converted, with its thermodynamics and transport files, before it is used.",
     ["inputs", "configurations"],
     "all combinations of methods, options and simulation cases",
     "Tests check single option combinations with mocked stages.",
     [S + "pymars.py"],
     [("parse_inputs", S + "pymars.py"), ("main", S + "pymars.py"), ("pymars", S + "pymars.py")],
     ["pymars.parse_inputs", "pymars.main", "pymars.pymars"])

for p in P:
    if p["id"] == "C08":
        p["statement"] = ("The error of a candidate model, in percent, is 100 times the largest |original - candidate| / original over all metrics. "
                          "If any candidate metric is zero (no ignition, no flame or no extinction curve) the error is exactly 100.")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
