"""Regenerates MANIFEST.json from the table below."""
import json
T = {
 "C01": ("explicit enumeration of all batch compositions of bounded histories on the real Gram recursions against a batch reference model", "Every composition x weight vector x forget factor of the bounded histories is executed and compared after every step."),
 "C02": ("explicit enumeration of all histories and column selections of the real scaler against a reference model of discounted moments", "Every bounded history is executed and compared after every step."),
 "C03": ("explicit enumeration of all bounded fit/update histories of the real estimator against a batch least-squares reference model", "Every bounded history is executed and compared after every step."),
 "C04": ("exhaustive enumeration of a finite lattice of penalised problems and of all coordinate visiting orders on the real solver, optimality certificate and reference coordinate descent as oracle", "The random coordinate order is a schedule: all permutation sequences of the first sweeps are enumerated by controlling the random source."),
 "C05": ("explicit enumeration of criteria lattice and of all bounded fit/update histories, reference model of the selection as oracle", "Every bounded history is executed; selections decided by rounding are not judged."),
 "C06": ("exhaustive enumeration of configurations (families, links, equations, orders, weights), reference IRLS model in lock-step and likelihood certificate at convergence", "Each iteration count is checked against an independent reference iteration; convergence is certified by an independently written score."),
 "C07": ("explicit enumeration of all bounded update histories of the real estimator in lock-step with a reference model of the discounted IRLS recursion", "Every bounded history is executed and compared after every update; every boundary response is injected at every batch position."),
 "C08": ("exhaustive enumeration of a finite parameter x argument lattice on the real distributions against independently written laws", "Pure functions: the state space is the lattice; nothing is claimed between lattice points."),
 "C09": ("exhaustive enumeration of a finite parameter x argument lattice on the real derivatives against independently written laws", "Pure functions: the state space is the lattice; expectations are evaluated by quadrature."),
 "C10": ("exhaustive enumeration of a dense argument lattice, shapes and sub-batches of the real links against reference formulas", "Pure functions: the state space is the lattice incl. all switch points."),
 "C11": ("stateless exploration of all interleavings of two real estimators' operation sequences sharing user objects, solo runs as oracle", "All interleavings at call granularity are executed; the library has no threads of its own."),
 "C12": ("fault enumeration inside explicit-state exploration: every kind of invalid call at every position of every bounded history, fault-free run as oracle", "Every (position, fault) pair is executed, and after it every prediction and later update is compared with the fault-free history."),
 "C13": ("exhaustive enumeration of save/restore/copy/clone/refit points of bounded histories on the real estimators, uninterrupted run as oracle", "All subsets of restore points are executed."),
 "C14": ("exhaustive enumeration of equivalent configuration and container pairs over fit/update histories, differential oracle", "Every pair in the bounds is executed through a fit/update history."),
 "C15": ("exhaustive enumeration of families, options, history positions and sub-batches of prediction rows against a reconstructed distribution", "All sub-batches of the probe rows and quantile sets in the bounds are executed."),
 "C16": ("exhaustive enumeration of integer weightings and histories on the real estimators, row replication and closed-form counts as oracle", "Every weighting in the bounds is executed at every position."),
 "C17": ("exhaustive enumeration of row orders, column orders and unit changes over fit/update histories of the real estimators, the untransformed history as oracle", "All 24 row orders of each update, all column orders and all subsets of rescaled columns are executed and compared after every call."),
}
common = " Bounded: nothing is claimed beyond the bounds printed in the evidence file. Trusts numpy/scipy, CPython and the reference models in /verif/mc; traces run on the real code imported from /repo."
json.dump({
 "version": 1,
 "setup_cmd": "bash ./setup.sh",
 "checks": [{"property": k, "quick_cmd": f"./run.sh {k} --tier quick", "thorough_cmd": f"./run.sh {k} --tier thorough", "technique": t, "level": "model_checking", "level_note": n + common} for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "No hooks are needed: all nondeterminism (data, random coordinate order) is decided by the harness through public inputs and the random source.",
}, open("MANIFEST.json", "w"), indent=1)
