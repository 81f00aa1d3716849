LEVEL_NOTE = ("randomised, seeded workloads on the real code under online monitors; the bounds (cases, sizes) are in the evidence file; "
              "no exhaustive guarantee")
S = "runtime monitoring: "
TECH = {
 "C01": S + "shadow-state monitor over random operation histories, compared after every operation",
 "C02": S + "shadow-state monitor over random declaration histories; equations compared by evaluation at random points",
 "C03": S + "shadow-state monitor over composition histories, equations compared by evaluation; argument-mutation monitor",
 "C04": S + "two shadow-state monitors (copy, original) over random interleavings of changes",
 "C05": S + "offline checker of recorded trajectories against a reference integration (scipy); argument-mutation monitor",
 "C06": S + "residual monitor: results substituted back in the equations, finite differences",
 "C07": S + "reference-implementation monitor on numerical building blocks",
 "C08": S + "reference-list monitor on symbol-vector operations",
 "C09": S + "shadow constraint set compared with the solver's problem by violation at random points",
 "C10": S + "optimality-certificate monitor (feasibility + KKT by NNLS) over solve/change/solve histories; argument-mutation monitor",
 "C11": S + "shadow-problem monitor over random problem-building histories; expressions compared by evaluation",
 "C12": S + "shadow-problem and shadow-graph monitors over merges and networks",
 "C13": S + "offline checker of solutions: independent simulation of the returned control and evaluation of every constraint",
 "C14": S + "optimality-certificate monitor (finite differences of an independent simulation + NNLS; Pontryagin residuals)",
 "C15": S + "position-by-position monitor of solver inputs and result views against an independent reading of the raw vector",
 "C16": S + "history monitor: every answer of a re-used method judged against its own data; argument- and result-mutation monitors",
 "C17": S + "shadow-list monitor over random data-set histories (copies included), tables and drawn curves",
 "C18": S + "transport monitor with real worker processes; outcome, flag and signal-state monitor of time-limited blocks",
 "C19": S + "trace monitor of the outer iterations replayed in numpy, pointwise evaluation of the relaxed cost, comparison with the unrelaxed solution",
 "C20": S + "trace monitor of node solves and updates replayed in numpy, randomly interleaved stand-ins of remote nodes, injected node failures, comparison with the centralized solution",
 "C21": S + "independent re-integration of every recorded plant interval, event log of controller iterations checked for order and data, independent solution of the problem solved, noise statistics",
 "C22": S + "mean and covariance after every sample compared with Kalman recursions in numpy from the matrix exponential",
 "C23": S + "samples, polynomials and moments compared with numpy; solved conversions re-simulated scenario by scenario under the returned control",
}
NOT_APPLICABLE = {}
NOTES = "Known findings and fixed defects: KNOWN_FINDINGS.json. Run from /verif; VERIF_SEED and VERIF_TIER are honoured."
