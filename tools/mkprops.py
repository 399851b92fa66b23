import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
o="ormatex_py/"
p("C01","Dense phi-function evaluators return phi_k(Z) within their error model",
"For every square real matrix Z (singular, defective, non-normal, stiff, 1x1 ...) and every supported order k, each dense evaluator returns the matrix phi_k(Z): the extension formula to the accuracy of the platform matrix exponential it is built on, the scaling-and-squaring evaluator to within the truncation error of its degree-4 Taylor start (argument scaled below 1/8 in the infinity norm), and every order returned by the return-all variants is the right order in the right slot. The inverse-based evaluator is accurate to the conditioning of its k triangular solves, and for an argument it cannot handle (singular or nearly singular in its QR diagonal) it must emit an accuracy warning rather than silently return a wrong matrix; it must not warn on well-conditioned arguments.",
["inputs"],"all square matrices of size 1..~12 (thorough ~24), norms from 1e-10 to ~1e4, all k accepted by each evaluator",
"The tests compare a few fixed 3x3/5x5 matrices with loose tolerances; correctness for singular/defective/stiff matrices, every k, and the warning threshold is quantified over all matrices.",
[o+"matexp_phi.py"],[("f_phi_k_ext block augmentation + expm",o+"matexp_phi.py:f_phi_k_ext"),("scaling and modified squaring",o+"matexp_phi.py:f_phi_k_sq_all"),("QR solve recursion and error estimate",o+"matexp_phi.py:f_phi_k_inv"),("warning",o+"matexp_phi.py:f_phi_k")],["return values and Python warnings of f_phi_k, f_phi_k_inv, f_phi_k_ext, f_phi_k_sq, f_phi_k_sq_all, f_phi_k_poly_all"])
p("C02","phi_k(Z)B action is exact per column, shape preserving and linear in B",
"For every square Z, every block B with one or more columns (or a flat vector) and every k >= 0, the dense action evaluator returns phi_k(Z)B with the shape of B, to within the truncation bound of its scaling-and-squaring core (machine precision for k = 0). Each column of the result is the action on that column alone, and a zero block maps to zero.",
["inputs"],"all (Z,B,k) with n in 1..10, 1..4 columns, k in 0..5, B scaled over many decades",
"One 3-vector example per k is tested; multi-column layout of the augmented matrix and k>2 are untested.",
[o+"matexp_phi.py"],[("augmented matrix [Z B 0;0 0 I;0 0 0]",o+"matexp_phi.py:f_phi_k_appl")],["return value of f_phi_k_appl"])
p("C03","Partial-fraction tables realise their named rational approximations",
"Every named partial-fraction table evaluates to the rational function it is named after: Pade (m,n) tables equal the (m,n) Pade approximant of exp, IE and CN equal 1/(1-z) and (1+z/2)/(1-z/2), the Chebyshev (CRAM) tables approximate exp (k = 0) and the real-pole tables phi_1 (k = 1) uniformly on the negative real axis within the error of their order, and the k = 0 action of every table approximates exp. For k >= 1 the same tables produce phi_k through the partial-fraction recursion z*r_k(z) = r_{k-1}(z) - r_{k-1}(0), for flat vectors and multi-column blocks and for matrices with real or complex spectrum.",
["inputs","configurations"],"all tables in the dictionary, k in 0..4, scalar arguments over (-1e6, 1], random stable matrices with real and complex spectra",
"The tests exercise two tables on one matrix and k; a wrong digit in one of ~300 poles or residues, or a wrong power of the pole for some k, passes them.",
[o+"matexp_phi.py",o+"matexp_phi_pfd_dict.py"],[("pole/residue sum 2*c/p^k (Z-pI)^-1 B + c0 B",o+"matexp_phi.py:f_phi_k_pfd"),("tables",o+"matexp_phi_pfd_dict.py:pfd_dict")],["return value of f_phi_k_pfd"])
p("C04","Arnoldi returns an orthonormal Krylov basis satisfying the Arnoldi relation",
"For every linear operator A, scale s and nonzero start vector b, the returned basis Q starts at b/|b|, spans the Krylov space of the returned dimension, and the returned matrix H is upper Hessenberg with s*A*Q = Q*H except for a residual confined to the last column; with full orthogonalisation Q is orthonormal, and with a window iom < m only the window is orthogonalised (H banded) while the relation still holds. The dimension is min(m, n) unless the Krylov space becomes invariant earlier (to the absolute breakdown tolerance), in which case the factorisation is truncated exactly there, the residual vanishes and no non-finite entry is returned.",
["inputs","configurations"],"operators (dense, sparse, diagonal, augmented, Jacobian), sizes 1..20, m below/equal/above n, iom 1..m, invariant subspaces of every dimension",
"One random 10x10 case is tested with full orthogonalisation; breakdown, m>n, n=1, windowing and scale handling are unexplored.",
[o+"arnoldi_jax.py"],[("windowed MGS and breakdown test",o+"arnoldi_jax.py:arnoldi_mgs_lop"),("while loop and truncation",o+"arnoldi_jax.py:arnoldi_lop")],["(Q,H) returned by arnoldi_lop"])
p("C05","Krylov exp/phi actions equal the projected approximation, exact when complete",
"For every operator, time step, start vector, order k and subspace size, the Krylov action of exp(A dt) or phi_k(A dt) on v equals |v| Q phi_k(H) e1 for the orthonormal Krylov basis, hence equals phi_k(A dt) v (to evaluator accuracy) whenever the subspace is complete, i.e. its size reaches the matrix size or the Krylov space is invariant. The result is homogeneous in v, zero for v = 0, finite, independent of whether the operator is given dense, sparse or matrix-free, and exp's action is the k = 0 case.",
["inputs","configurations"],"operators of size 1..20 incl. singular/defective/skew/stiff, dt of both signs and zero, k 0..4, m and iom of all relations to n",
"Tests compare one sparse matrix with expm for a couple of k; zero vectors, breakdown, dt<0, n=1, incomplete spaces and homogeneity are not covered.",
[o+"matexp_krylov.py",o+"arnoldi_jax.py"],[("normalise, project, evaluate, rescale",o+"matexp_krylov.py:phi_linop")],["return values of phi_linop, matexp_linop"])
p("C06","KIOPS evaluates the full linear combination sum_j phi_j(dt A) b_j",
"For every operator A, step dt and list of vectors b_0..b_p (p >= 1, any subset of them zero, magnitudes differing by many decades), the fixed-step KIOPS routine returns sum_j phi_j(dt A) b_j, with no tau or dt factor on the vectors other than those supplied by the caller, to accuracy relative to the largest vector when the Krylov space is complete. An all-zero list returns exactly zero.",
["inputs"],"p in 1..5, n in 1..12, zero subsets, scales 1e-8..1e8, dense/sparse/matrix-free operators",
"One list (p=2) and matrix is tested; ordering of b_j in the augmented matrix for p>2 and normalisation are not.",
[o+"matexp_krylov.py",o+"ode_sys.py"],[("augmented operator, max-norm normalisation",o+"matexp_krylov.py:kiops_fixedsteps"),("AugMatrixLinOp",o+"ode_sys.py:AugMatrixLinOp")],["return value of kiops_fixedsteps"])
p("C07","Leja sequence generators emit valid (fast) Leja points of the requested set",
"For every requested count and every admissible interval, imaginary segment, circle or ellipse, the generators return exactly that many distinct points of the set (one less for the imaginary-segment generator, which drops its duplicate zero), starting at the extreme points, each further real-interval point being the candidate (midpoint of neighbouring already chosen points) that maximises the product of distances to all previous points, so that no part of the set is left unsampled. Conjugate sequences are closed under conjugation pair by pair after the declared number of leading real points, the returned shift/scale map the points onto the requested box, invalid boxes are rejected, and reordering returns a permutation in greedy Leja order.",
["inputs"],"n in 3..300 (real), 4..300 (conjugate), intervals and boxes over several decades incl. non-symmetric, degenerate real and imaginary",
"Tests check one ellipse's conjugacy and one reordering; the greedy/filling property over all intervals and counts is not tested.",
[o+"matexp_leja.py",o+"matexp_poly.py"],[("fast Leja candidates/products",o+"matexp_leja.py:gen_leja_fast"),("circle by square roots and conjugate reorder",o+"matexp_leja.py:gen_leja_circle"),("ellipse mapping",o+"matexp_leja.py:gen_leja_conjugate"),("reordering",o+"matexp_poly.py:leja_seq_reordering")],["returned sequences, n_real, scale, shift"])
p("C08","Divided differences of exp are the Newton coefficients of exp on the points",
"For every Leja-ordered point set (real, imaginary, conjugate, padded with near-zeros), shift, scale and step fraction h, each divided-difference method returns, entry by entry, the divided differences of z -> exp(h(shift+scale z)) on those points: Taylor/scaling-and-squaring and Pade to small absolute error relative to the size of the exponentials involved, the recursive formula to its cancellation-limited accuracy. The shifted/scaled Taylor matrix exponential equals exp(shift) times exp(scale A) for every shift and scale within its truncation error, and padding with near-zeros keeps the supplied points in order.",
["inputs","configurations"],"point sets of size 2..40, shifts in [-40,5], scales in (0,20], h in (0,1], three methods plus the phi_k variants (dd_phi, ts_ss, ts_phi)",
"Tests use about ten hand-picked point sets with fixed shift/scale, and the methods are compared with each other rather than with an exact reference.",
[o+"matexp_poly.py"],[("bidiagonal expm",o+"matexp_poly.py:leja_coeffs_exp"),("Taylor + squaring with mean shift",o+"matexp_poly.py:dd_exp_taylor"),("recursive formula",o+"matexp_poly.py:newton_poly_div_diff"),("expm_taylor",o+"matexp_poly.py:expm_taylor")],["returned coefficient vectors"])
p("C09","Leja actions that report convergence are accurate; others are flagged",
"Whenever a Leja interpolation routine (real, conjugate-complex or imaginary; with or without substepping, zero padding, any divided-difference method) reports convergence, its result equals exp(A)v to a small multiple of the requested tolerance (plus rounding) relative to |v| and the growth of exp; if the polynomial cannot converge it reports non-convergence or raises, never silently returning a wrong vector as converged (unless the documented running error estimate, recomputed from the exact Newton terms, is itself fooled). Substepping covers the whole unit interval exactly once and returns only the requested leading components.",
["inputs","configurations"],"stable operators with real, complex and imaginary spectra inside the interpolation set, zero vectors, several tolerances, point counts and initial substep sizes",
"Tests check a single Bateman-like or LV integration; the implication 'converged => accurate' over spectra/tolerances/substep histories is not sampled.",
[o+"matexp_leja.py"],[("real recurrence",o+"matexp_leja.py:real_leja_expmv"),("conjugate recurrence",o+"matexp_leja.py:complex_conj_leja_expmv"),("substep loop",o+"matexp_leja.py:*_substep"),("augmented system",o+"matexp_leja.py:build_a_tilde")],["(result, iterations, converged, max substep) tuples"])
p("C10","Exponential integrators are exact on linear, affine and time-linear problems",
"For u' = A u + b (and u' = A u + b + c t for the methods that treat the time derivative) every exponential integrator reproduces the exact solution at every step to the accuracy of its phi-evaluator, for any step size including steps far beyond the explicit stability limit, any start time and any number of steps; split integrators are exact whenever the split operator is the full linear part.",
["inputs","configurations","histories"],"random A (stable, singular, oscillatory, stiff), b, c, dt over decades, t0 nonzero, all Rosenbrock/EPI/split/dense/partial-fraction/Leja methods",
"The Bateman test checks three methods on one decay chain and one dt.",
[o+"ode_exp.py"],[("Rosenbrock steps",o+"ode_exp.py:ExpRBIntegrator"),("split steps",o+"ode_exp.py:ExpSplitIntegrator"),("Leja steps",o+"ode_exp.py:ExpLejaIntegrator")],["trajectories from step/accept_step and integrate"])
p("C11","Each time step applies the published one-step formula of its method",
"For every nonlinear, non-autonomous system, state, time, step size and history, the step of each named method equals the documented scheme (EXPRB2, EXPRB3, PEXPRB4, EPI2, EPI3 with its start-up step, EXP1-3 in Krylov and dense form, partial-fraction variants, Leja variants, RK4) evaluated with the Jacobian and time derivative at the current (t, u), up to phi-evaluator accuracy. Variants of one scheme (Krylov/dense/partial fraction/Leja) therefore agree with each other, and the reported time and step of the result are t+dt and dt.",
["inputs","histories","configurations"],"random polynomial non-autonomous systems of size 1..6, random states/times/steps (large enough that every stage term matters), variable-step histories for multistep methods",
"Two Lotka-Volterra regression runs cover a few methods with loose tolerance; wrong stage weights that still look roughly right pass.",
[o+"ode_exp.py",o+"ode_explicit.py",o+"ode_sys.py"],[("stage formulas",o+"ode_exp.py:_step_*"),("remainder",o+"ode_sys.py:IntegrateSys._remf"),("rk4",o+"ode_explicit.py:_step_rk4_jit")],["StepResult of every method"])
p("C12","Every integrator converges at its declared order",
"On every smooth problem, autonomous or not, with exact or automatically differentiated Jacobian, the global error of each integrator at a fixed end time decreases at least at its declared order as the step size is halved. This holds for non-zero start times and for the multistep methods including their start-up step.",
["inputs","configurations"],"random smooth non-autonomous systems of size 1..4 plus the bundled Lotka-Volterra systems, all methods, step-size ladders",
"Tests check end-state closeness at a single dt for a few methods; order is a statement over all dt and problems.",
[o+"ode_exp.py",o+"ode_explicit.py",o+"integrate_wrapper.py"],[("order table",o+"ode_exp.py:_valid_methods")],["trajectories from integrate at several dt"])
p("C13","Integrator state changes only through accept and reset; history is exact",
"For every interleaving of trial steps, accepted steps, rejected (discarded) steps, step-size changes and resets, the integrator's time, state and history are exactly those of the last accepted results (newest first, no more than its order entries), a trial step never changes them, and repeating a trial with the same step size gives the same result. After a reset, the integrator behaves like a freshly constructed one at the new initial condition (no history or cached operator survives), and changing the step size always takes effect immediately.",
["histories","inputs"],"random operation sequences of length up to ~25 over all methods, step sizes (incl. negative and repeated), resets to other times/states",
"Tests only ever run a fixed-step loop; no test rejects a step, resets or changes dt.",
[o+"ode_sys.py",o+"ode_exp.py",o+"ode_explicit.py"],[("history deques",o+"ode_sys.py:IntegrateSys"),("dense phi cache keyed on dt",o+"ode_exp.py:_update_dense_phiLs"),("multistep start-up",o+"ode_exp.py:step")],["time/state properties, t_hist, y_hist, StepResult"],
[("t_hist/y_hist","accepted times/states, newest first",o+"ode_sys.py"),("_cached_phiLs","phi matrices for the current dt",o+"ode_exp.py")])
p("C14","integrate() returns the complete trajectory on the requested time grid",
"For every method, initial condition, start time, step size and step count, integrate() returns times t0, t0+dt, ..., t0+nsteps*dt (up to rounding) and the matching states, starting with the unmodified initial state and the same number of each, with a zero error code; the states equal those obtained by driving the integrator step by step, and k runs of n steps chained through the final state agree with one run of k*n steps for one-step methods.",
["inputs","configurations"],"all Python methods incl. the diffrax ones, t0 of any sign and size, nsteps 1..10, several dt, systems of size 1..6",
"Tests always start at t0=0 with a handful of methods.",
[o+"integrate_wrapper.py"],[("ormatex loop",o+"integrate_wrapper.py:integrate_ormatex"),("diffrax bridge",o+"integrate_wrapper.py:integrate_diffrax")],["IntegrateResult t, y, err_code"])
p("C15","Callbacks, options and errors of integrate() are honoured for every method",
"For every native method the before-step callback is called exactly once before every step with the system and the current time and state, the after-accept callback exactly once after every accepted step with the new time and state, and both sets of return values are recorded in order; values returned by the before-step callback reach every right-hand-side and Jacobian evaluation of that step for the Jacobian-based methods. Unknown methods, unavailable native bindings and Leja steps that fail to converge raise instead of returning a result, and options such as subspace size, orthogonalisation window or rational table passed to integrate() reach the integrator.",
["inputs","configurations","fault_sequences"],"all native methods x callback presence x return values x failing callbacks/RHS at any step",
"No test uses callbacks, invalid options or failing right-hand sides.",
[o+"integrate_wrapper.py",o+"ode_exp.py",o+"ode_explicit.py"],[("callback loop",o+"integrate_wrapper.py:integrate_ormatex"),("dispatch",o+"integrate_wrapper.py:integrate"),("kwargs",o+"ode_exp.py:__init__")],["callback logs, callback_res, exceptions"])
p("C16","Jacobian operators agree with the derivative of the right-hand side",
"For every differentiable system, time, state and direction, the automatic, custom and finite-difference Jacobian operators return the directional derivative of the right-hand side with respect to the state (exactly, as supplied, or to finite-difference accuracy, respectively, with the requested scale and diagonal shift for the finite-difference one), their time-derivative returns the partial time derivative, and their cached right-hand side equals the right-hand side at the linearisation point. This holds for the zero state, zero directions and non-zero times, and the dense form of each operator that offers one is the matrix of its action.",
["inputs"],"random polynomial/trigonometric non-autonomous systems, states incl. zero, times, directions, scale/shift/eps parameters",
"No test covers the Jacobian operators directly.",
[o+"ode_sys.py"],[("jax.linearize",o+"ode_sys.py:AdJacLinOp"),("user Jacobian with FD fallback",o+"ode_sys.py:CustomJacLinOp"),("finite differences",o+"ode_sys.py:FdJacLinOp")],["matvec, dense, time derivative and cached rhs of operators returned by fjac"])
p("C17","Linear operators are linear and consistent with their dense form",
"For every operator type (identity, diagonal, dense, sparse COO/CSR, augmented) and vector, applying the operator by call, matvec or NumPy-compatible matvec gives the same vector as multiplying the dense form, application is linear, and the augmented operator equals the block matrix [[dt*A, B],[0, K]]. Sparse and dense storage of one matrix are indistinguishable, operators never modify their inputs, non-square matrices are rejected, and system wrappers (NumPy wrapper, identity mass matrix, split operator) return the same values as the wrapped system.",
["inputs"],"sizes 1..12, densities 0..1, complex and real vectors, nested augmented operators",
"No test covers the operator classes directly.",
[o+"ode_sys.py"],[("LinOp subclasses",o+"ode_sys.py"),("AugMatrixLinOp",o+"ode_sys.py:AugMatrixLinOp")],["operator application results"])
p("C18","Results do not depend on thread schedule, other integrators, or call history",
"For every schedule of the two concurrent stage computations of the parallel fourth-order method, and for any number of integrators stepping concurrently in different threads or interleaved in one thread, every step result is identical to the one obtained alone and sequentially. A right-hand side that raises in any stage surfaces as an exception of that step and leaves the integrator's accepted time, state and history unchanged and usable; no call modifies caller-owned arrays, matrices or option dictionaries.",
["schedules","fault_sequences","histories"],"injected delays and faults at every right-hand-side evaluation of a step, both completion orders of the stage pair, 1..6 concurrent integrators",
"The tests run single-threaded with instantaneous right-hand sides; the parallel method's stage threads never overlap adversarially.",
[o+"ode_exp.py",o+"ode_sys.py"],[("stage futures",o+"ode_exp.py:_step_pexprb4"),("per-instance state",o+"ode_sys.py:IntegrateSys")],["StepResults and rhs event logs under injected schedules"])
p("C19","Bateman and transmutation matrices encode the decay library exactly",
"For every species list and decay library (single or multiple branches, any order of keys, sinks to nowhere), the generated matrix has each total decay constant negated on the diagonal and every branch added at (child, parent), so its column sums are minus the rate leaving the system, off-diagonals are non-negative and evolved concentrations stay non-negative and conserve total inventory when nothing leaves; the transmutation matrix is minus the flux times the same matrix. The analytic single-parent solution equals the matrix-exponential solution of the chain at all times.",
["inputs"],"random libraries of 1..12 species with random branching graphs, rates over many decades, random flux, random distinct-rate chains and time grids",
"One three-species chain is tested.",
[o+"progression/bateman_sys.py",o+"progression/bateman_nonlin_sys.py"],[("matrix assembly",o+"progression/bateman_sys.py:gen_bateman_matrix"),("analytic solution",o+"progression/bateman_sys.py:analytic_bateman_single_parent")],["matrices and solution arrays"])
p("C20","1-D spectral element quadrature and nodal basis are exact",
"For every supported polynomial order p, the Gauss-Lobatto rule integrates polynomials of degree up to 2p-1 exactly on the reference element, and the nodal element's basis functions are the Lagrange polynomials of its nodes: cardinal at the nodes, summing to one, with derivatives matching the polynomial derivative at any evaluation points. Evaluations are independent of earlier evaluations at other points.",
["inputs","histories"],"p in 1..4, all polynomial degrees, random evaluation point sequences of varying and equal lengths",
"No test touches the elements.",
[o+"progression/element_line_pp_nodal.py"],[("GLL tables and DoF ordering",o+"progression/element_line_pp_nodal.py:GLL_quad"),("barycentric basis with cache",o+"progression/element_line_pp_nodal.py:ElementLinePp_nodal.lbasis")],["quadrature tables, lbasis values"])
p("C21","Assembled advection-diffusion operator is conservative and consistent",
"For every mesh, order, diffusion, velocity of either sign or zero, and stabilisation constant, the assembled semi-discrete system has lumped mass summing to the domain length (every entry positive when unstabilised, and on uniform meshes with constant stabilisation up to one unless the velocity points out through the Dirichlet end), annihilates constants away from Dirichlet nodes when the velocity is constant, conserves total mass on periodic meshes, reproduces the advection-diffusion derivative of polynomials up to the element order at interior collocation points when unstabilised, and its stabilisation adds non-negative dissipation. Dirichlet nodes have zero time derivative (or the prescribed boundary rate in the non-autonomous variant), and the system's linear operator agrees with its right-hand side's Jacobian on all vectors vanishing there.",
["inputs","configurations"],"uniform and random non-uniform meshes of 2..12 elements, p 1..4, nu in [0,1], velocity in [-2,2], tau in [0,1], periodic and Dirichlet, constant and spatially varying user fields",
"No test assembles a system.",
[o+"progression/advection_diffusion_1d.py",o+"progression/element_line_pp_nodal.py"],[("weak forms and SUPG",o+"progression/advection_diffusion_1d.py"),("assembly, BC enforcement, lumping",o+"progression/advection_diffusion_1d.py:AdDiffSEM.assemble"),("affine system",o+"progression/advection_diffusion_1d.py:AffineLinearSEM")],["assembled A, M, b and system rhs"])
p("C22","Coupled reaction-transport systems apply each term per species and cell",
"For every state, the coupled systems' right-hand side equals transport of each species separately plus the decay/transmutation matrix applied at each node plus the local source terms, with species stacked column-major and Dirichlet nodes frozen, and their split linear operator is the transport part alone; phase-transfer terms move inventory between the two phases without creating or destroying any, in the direction of the concentration imbalance. Mass-transfer, bubble-area and Arrhenius source models follow their documented formulas for all non-negative inputs.",
["inputs","configurations"],"the 2-, 3- and 9-species systems and the nonlinear Bateman system on random meshes, random states, random source-model parameters",
"No test evaluates these systems.",
[o+"progression/rad_1d_2s.py",o+"progression/rad_1d_3s.py",o+"progression/rad_1d_9s.py",o+"progression/bateman_nonlin_sys.py",o+"progression/species_source_sink.py",o+"ode_utils.py"],[("rhs assembly",o+"progression/rad_1d_*.py:_frhs"),("stacking",o+"ode_utils.py"),("sources",o+"progression/species_source_sink.py")],["frhs values, source function values"])
p("C23","Spectral estimates used by the Leja methods bound the dominant real eigenvalue",
"For every operator with a dominant real eigenvalue, the power iteration converges to that eigenvalue (Rayleigh quotient within its stopping tolerance regime) with a unit eigenvector approximation in the reported number of iterations, never exceeding the requested maximum, and the derived shift and scale map the reference interval [-2,2] onto the interval between zero and the (safety-scaled) estimate. Re-using the previous eigenvector as start converges to the same value.",
["inputs","histories"],"random operators with controlled spectra (gap ratio, sign, non-normality), random starts, iteration caps, safety factors",
"No test covers the estimator.",
[o+"matexp_leja.py"],[("power iteration",o+"matexp_leja.py:power_iter"),("shift/scale",o+"matexp_leja.py:leja_shift_scale")],["returned estimates"])
p("C24","Native (Rust) integrators agree with their Python counterparts",
"For every system and step size, the native EPI, EXPRB, Runge-Kutta, BDF and Crank-Nicolson integrators produce the documented scheme's trajectory and agree with the Python implementation of the same method.",
["inputs","histories"],"all systems, states and step sizes accepted by the native interface",
"The native bindings are not built here; their tests are skipped.",
["src/ode_epirk.rs","src/ode_rk.rs","src/ode_bdf.rs","src/ormatex_rspy.rs"],[("native integrators","src/*.rs")],["native trajectories"])
p("C25","Study drivers report the true errors of the solutions they computed",
"For every method, step size, end time, mesh and boundary condition a bundled study driver accepts, run as a script or imported and called, the error norms, convergence orders, CFL numbers, spectral numbers, solution tables, trajectories and plotted curves that it returns, prints, plots or writes to its data files are those of the solution it computed: differences are taken between values at the same time and the same node against the exact (or reference) solution the driver provides, integrals use the nodal weights of the same nodes, time grids of computed and reference solutions coincide and cover the requested interval, and data columns carry the name of the quantity they hold.",
["inputs","configurations"],"all driver arguments: methods, step sizes and end times (including ones not exactly representable), mesh refinements and orders, boundary conditions, initial profiles, polynomial sizes",
"Only two drivers are called by tests, with fixed arguments, and their printed and written results are never looked at.",
[o+"progression/lotka_volterra.py",o+"progression/advection_diffusion_1d.py",o+"progression/rad_1d_3s.py",o+"progression/bateman_sys.py",o+"matexp_leja.py"],[("population model study",o+"progression/lotka_volterra.py:main"),("advection-diffusion study",o+"progression/advection_diffusion_1d.py:__main__"),("reactive transport study",o+"progression/rad_1d_3s.py:main"),("decay chain study",o+"progression/bateman_sys.py:analytic_bateman_s3"),("Leja error study",o+"matexp_leja.py:plot_leja_conjugate_ellipse_error")],["returned values","printed lines","written data files"])
assert len({x["id"] for x in P})==len(P)
for x in P:
    if len(x["title"])>80: print("LONG",x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
