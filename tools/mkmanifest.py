"""Regenerates MANIFEST.json from the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("runtime monitors on return values and warnings vs longdouble reference with propagated error bounds", "Held on every generated matrix; bounds are a-priori error models of the documented evaluators. Trusts numpy longdouble arithmetic."),
 "C02": ("runtime monitors on the action evaluator vs longdouble reference", "Held on every generated (Z,B,k). Trusts numpy longdouble arithmetic."),
 "C03": ("runtime monitors on every table evaluated by the real code vs mpmath rational functions", "All named tables are exercised; accuracy sampled over matrices/points. Trusts mpmath/longdouble."),
 "C04": ("trace-invariant monitors on returned Arnoldi factorisations (orthonormality, relation, breakdown)", "Held on all sampled operators/windows/breakdowns; tolerances scale with rounding."),
 "C05": ("runtime monitors vs unique projected approximation in longdouble, metamorphic relations", "Held on all sampled operators, including complete and incomplete subspaces."),
 "C06": ("runtime monitors vs longdouble linear combination and projected reference", "Held on all sampled vector lists."),
 "C07": ("online trace-specification checker over emitted point sequences (greedy rule, pairing, membership)", "Each emitted sequence is checked point by point against the specification."),
 "C08": ("runtime monitors vs high-precision (mpmath) divided differences", "Held entry by entry on all sampled point sets."),
 "C09": ("runtime monitors: convergence flag implies accuracy against longdouble exp action", "Held on all sampled problems; both converged and flagged outcomes are observed."),
 "C10": ("runtime monitors on integrator trajectories vs exact solutions", "Held on sampled linear/affine/time-linear systems."),
 "C11": ("runtime monitors: every step compared with an independent longdouble implementation of the scheme", "Held on sampled nonlinear non-autonomous systems."),
 "C12": ("runtime monitors on observed convergence under step halving", "Observed order on sampled smooth problems."),
 "C13": ("online model-based trace checker of accept/reject/reset histories", "Random operation histories judged against a reference state machine."),
 "C14": ("runtime monitors on returned trajectories, metamorphic chaining relations", "Held on all sampled configurations."),
 "C15": ("event-log monitors on callbacks, option plumbing and injected failures", "Exactly-once/order checked over recorded event logs."),
 "C16": ("runtime monitors vs analytic derivatives", "Held on sampled systems, states, directions."),
 "C17": ("runtime monitors: operator application vs dense form, linearity, non-mutation", "Held on sampled operators."),
 "C18": ("schedule stress with injected delays and faults, event-log and result monitors, mutation sentinels", "Held on all observed interleavings; not exhaustive over schedules."),
 "C19": ("conservation and reference monitors on generated matrices and solutions", "Held on random decay libraries."),
 "C20": ("runtime monitors vs exact polynomial integrals and Lagrange basis, stateful call sequences", "All supported orders; sampled evaluation points."),
 "C21": ("runtime monitors on assembled operators (conservation, dissipation, consistency)", "Held on sampled meshes/orders/parameters."),
 "C22": ("runtime monitors: RHS vs independent term-by-term evaluation", "Held on sampled states and meshes."),
 "C23": ("runtime monitors on estimates vs known spectra", "Held on operators with controlled spectra."),
 "C25": ("recorded integrate() calls; every reported number vs independent exact/reference evaluation", "Held on sampled driver arguments."),
}
checks = []
for i in list(range(1, 24)) + [25]:
    c = f"C{i:02d}"
    if os.path.exists(os.path.join(root, "ormon", "checks", c.lower() + ".py")):
        t, n = TECH[c]
        checks.append({"property": c, "quick_cmd": f"./check.sh {c}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {c}",
                       "evidence_file": f"evidence/{c}.json", "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
done = {c["property"] for c in checks}
na = [{"property": "C24", "reason": "the native crate needs faer/pyo3/numpy crates that are not in the offline cargo cache, so no native code can be built or executed here; runtime monitoring needs an execution"}]
na += [{"property": f"C{i:02d}", "reason": "check not built yet"} for i in list(range(1, 24)) + [25] if f"C{i:02d}" not in done]
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo'); import jax, ormatex_py\"", "checks": checks, "not_applicable": na,
           "notes": "All checks import ormatex_py from /repo's working tree; no hooks in /repo are needed (monitors wrap public functions and user callbacks from the harness)."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
