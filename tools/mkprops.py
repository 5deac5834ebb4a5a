"""writes properties.jsonl"""
import json, os
O = "ormatex_py/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[O + f if not f.startswith("src") else f for f in files],
                     state=[dict(name=a, meaning=b, where=O + c) for a, b, c in state],
                     mechanism=[dict(name=a, where=(O + b if not b.startswith("src") else b)) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Rosenbrock-type exponential steps follow their published formulas",
  "For every system, state (t, y), step size dt and history, one step of exprb2, exprb3, pexprb4, epi2, epi3, exprb2_dense, exprb2_pfd and exp_pfd returns t+dt and exactly the combination of phi-functions of the Jacobian at (t, y), the right-hand side, its time derivative and the nonlinear remainders that defines the method (for epi3: epi2 with a first-step fallback to exprb3 while no previous point exists). exprb2, exprb3, pexprb4 and exprb2_pfd include the time-derivative correction only when its size exceeds the configured threshold; the other methods always include it, and exp_pfd applies phi_0 to the state. Every product uses the configured Krylov dimension, orthogonalisation depth and partial-fraction table, and taking a step changes nothing but its result.",
  ["inputs", "histories", "configurations"], "all right-hand sides, Jacobians, states, times, step sizes (also varying), problem sizes n>=1, thresholds, Krylov options and pfd tables",
  "The tests run two fixed systems with fixed settings and check a convergence rate or a loose error; a wrong coefficient in a higher-order or non-autonomous term, a stale stage or an ignored option passes them.",
  ["ode_exp.py", "ode_sys.py"], [("ExpRBIntegrator._step_*", "ode_exp.py"), ("IntegrateSys._remf", "ode_sys.py")],
  [("t_hist/y_hist", "accepted points, newest first", "ode_sys.py")], ["ExpRBIntegrator.step"])

p("C02", "Split exponential steps follow their published formulas",
  "For every split system, state, step size and history, one step of exp1, exp2, exp3, exp1_dense, exp2_dense and exp3_dense returns t+dt and exactly the published combination of phi-functions of the linear part L, the right-hand side and the remainders F(s)-F(t,y)-L(s-y). The dense variants evaluate L and its phi-functions at the first step after construction, after a reset and whenever the step size changes, and use those frozen values otherwise; the other variants evaluate L at every step.",
  ["inputs", "histories", "configurations"], "all split systems (also with L depending on t and u), states, sequences of step sizes, resets, n>=1",
  "Existing tests step one system with one fixed step size; stale phi caches after a step-size change or reset and wrong stage coefficients are invisible to them.",
  ["ode_exp.py"], [("ExpSplitIntegrator._step_*", "ode_exp.py"), ("_update_dense_phiLs cache", "ode_exp.py")],
  [("_cached_dt/_cached_phiLs", "frozen phi matrices and the step size they belong to", "ode_exp.py")], ["ExpSplitIntegrator.step"])

p("C03", "The explicit Runge-Kutta step is classical RK4",
  "For every system, state, time and step size, one rk4 step returns t+dt and y + dt/6 (k1 + 2 k2 + 2 k3 + k4) with the classical stages evaluated at their classical times, independently of earlier steps; unknown method names are rejected.",
  ["inputs", "histories"], "all right-hand sides (time dependent too), states, step sizes of either sign, sequences of steps",
  "A stage evaluated at the wrong time or with a wrong weight is only seen on non-autonomous systems; no test checks the formula.",
  ["ode_explicit.py"], [("RKIntegrator._step_rk4", "ode_explicit.py")], (), ["RKIntegrator.step"])

p("C04", "Step acceptance, history and reset of every integrator",
  "For every integrator and method, accepting a step result makes the current time and state exactly those of the result and keeps the newest min(order, accepted+1) accepted pairs, newest first; a step that is computed but not accepted leaves no trace on later results. Resetting the initial condition makes the integrator behave as a newly constructed one at that point (the warm starts of the Leja solver, which only affect solver effort, excepted). An unknown method name is rejected at construction.",
  ["histories", "configurations"], "all sequences of step, accept, reject and reset, all 18 methods, all systems and step sizes",
  "Tests only step-and-accept in a straight line from one start; none resets, rejects or changes step size.",
  ["ode_sys.py", "ode_exp.py", "ode_explicit.py"], [("IntegrateSys.accept_step/reset_ic", "ode_sys.py"), ("reset_ic overrides", "ode_exp.py")],
  [("t_hist/y_hist", "accepted points", "ode_sys.py"), ("_cached_dt", "validity of frozen phi matrices", "ode_exp.py")], ["accept_step", "reset_ic", "time", "state"])

p("C05", "The integration driver performs exactly the requested steps and reports them",
  "For every start point, step size and number of steps, integrate() builds the integrator its method name selects with the caller's options, takes exactly nsteps steps of size dt, and returns nsteps+1 times and states: the start followed by each accepted result in order. Callbacks are called once per step in order with the system and the current time and state (before the step, and after acceptance), their results are collected in order, and the before-step result is handed to the step. Methods delegated to diffrax take exactly nsteps (at least one) steps of size dt from t0 to t0+nsteps*dt, whatever the rounding of the end time, and report the start and each step, the implicit ones with the tolerances the caller gave; unknown method names raise AttributeError.",
  ["inputs", "histories", "configurations"], "every nsteps>=0, t0, dt, y0, all methods and options, any callbacks, any integrator",
  "Tests always start at t0=0, without callbacks and with few step counts.",
  ["integrate_wrapper.py"], [("integrate_ormatex loop", "integrate_wrapper.py"), ("dispatch", "integrate_wrapper.py"), ("integrate_diffrax", "integrate_wrapper.py")], (), ["integrate", "IntegrateResult"])

p("C06", "Jacobian operators represent the derivative of the right-hand side",
  "At every (t, u) and for every vector, the default (automatic differentiation) Jacobian operator of a system applies dF/du(t,u), its time derivative is dF/dt(t,u), its cached value is F(t,u) and its dense form is the matrix of its action. An operator built from user-supplied arrays returns exactly those arrays, and where no time derivative is supplied uses the forward difference of F in time at fixed u; the finite-difference operator is the forward difference quotient of F along the vector (scaled, plus shift times the vector) with an increment proportional to the size of u (of fixed size at the zero state), and forward difference in time. Keyword arguments given to the operator reach every evaluation of F.",
  ["inputs", "configurations"], "all right-hand sides, times, states (the zero state too), vectors, scale/shift/eps settings and keyword arguments",
  "Tests evaluate one Jacobian at one point of an autonomous system.",
  ["ode_sys.py"], [("AdJacLinOp", "ode_sys.py"), ("CustomJacLinOp", "ode_sys.py"), ("FdJacLinOp", "ode_sys.py"), ("OdeSys.fjac/frhs/fm", "ode_sys.py")], (), ["OdeSys.fjac", "LinOp.matvec", "LinOp.dense"])

p("C07", "Generic linear operators act as the matrices they stand for",
  "For all sizes and entries the identity, diagonal, matrix (dense or sparse) and augmented operators act on a vector exactly as the matrix they represent, every calling form gives the same result, and the dense form is that matrix. The augmented operator acts as [[dt*A, B], [0, K]] for every inner operator A, scalar dt, block B and square K, and matrices that are not square and blocks B and K of inconsistent width are rejected.",
  ["inputs"], "all n>=1, p>=1, all entries, all vectors, dense and sparse storage",
  "Tests use the augmented operator only implicitly with tiny sizes.",
  ["ode_sys.py"], [("EyeLinOp, DiagLinOp, MatrixLinOp, AugMatrixLinOp", "ode_sys.py")], (), ["LinOp.matvec", "LinOp.dense"])

p("C08", "Dense phi-function evaluators agree with the definition",
  "For every square matrix Z and every supported k, the dense evaluators return phi_k(Z), where phi_0 is the exponential and Z phi_{k+1}(Z) = phi_k(Z) - I/k!: the extension evaluator for every Z (all of phi_0..phi_k on request), the inverse-based one for nonsingular Z together with an error estimate that grows as Z approaches singularity and triggers a warning. The scaling-and-squaring evaluator first scales Z by a power of two so that its infinity norm is below 1/8, evaluates the Taylor polynomials, and then squares back with the exact doubling relations exactly as often as it halved.",
  ["inputs"], "all n>=1, all real matrices Z (singular, defective, zero, large norm), all k>=0 (k<=3 for the fixed-degree Taylor start)",
  "Tests compare one or two fixed well-conditioned matrices.",
  ["matexp_phi.py"], [("f_phi_k, f_phi_k_inv, f_phi_k_ext, f_phi_k_poly_all, f_phi_k_sq_all, f_phi_k_sq", "matexp_phi.py")], (), ["f_phi_k*"])

p("C09", "Products phi_k(Z)B of dense matrices",
  "For every square Z, every vector or block of vectors B and every supported k, the extension routine returns phi_k(Z)B in the shape of B. The partial-fraction routine returns, for every named table (poles p, weights c, constant c0), sum_i Re(2 c_i p_i^(-k) (Z - p_i I)^(-1) B), plus c0 B exactly when k = 0. Arguments of inconsistent shape are rejected.",
  ["inputs", "configurations"], "all n>=1, numbers of columns, Z, B, k>=0, all tables",
  "Tests use one matrix, one vector and small k.",
  ["matexp_phi.py"], [("f_phi_k_appl, f_phi_k_pfd", "matexp_phi.py")], (), ["f_phi_k_appl", "f_phi_k_pfd"])

p("C10", "Partial-fraction tables approximate the exponential as named",
  "Every shipped partial-fraction table stands, through f_phi_k_pfd, for the function its name says, for every z <= 0: IE and CN are exactly the implicit-Euler and Crank-Nicolson functions; a pade_p_q table is within 1e-8 of the (p,q) Pade approximant of exp, so r(0) and the derivatives at 0 up to order p+q are those of exp to the same accuracy; a cram_n table stays within (a factor 1.25 and rounding of) the best uniform approximation error of type (n,n) from exp, about 9.3^-n, and its phi_1, phi_2 and phi_3 stay within the errors shipped with its digits; the real-pole tables (2, 3, 6, 7, 9, 12), which approximate phi_1 and not exp, give phi_1 within 0.029, 0.045, 0.0044, 0.0115, 0.0034 and 0.0044. No pole of any table is zero or on the negative real axis.",
  ["inputs", "configurations"], "all tables, all z <= 0 (a continuum)",
  "Tests exercise one table on one matrix.",
  ["matexp_phi_pfd_dict.py"], [("pfd_dict", "matexp_phi_pfd_dict.py")], (), ["pfd_dict", "f_phi_k_pfd"])

p("C11", "The Arnoldi process yields an orthonormal Krylov basis and its projection",
  "For every linear operator A, scale s, start vector b and dimension m, the returned Q and H satisfy s A q_k = sum_{i<=k+1} h_{ik} q_i for every column k before the last, with the first column of Q equal to b/|b|, subdiagonal entries the norms of what remained after orthogonalisation, and zeros below the first subdiagonal; with full orthogonalisation depth the columns are orthonormal and H = Q^T (s A) Q. With incomplete depth iom each new direction is orthogonalised against the newest iom+1 basis vectors; on breakdown the process stops and exactly the columns built so far are returned, and never more than min(m, n) columns are built.",
  ["inputs", "histories"], "all operators, scales, vectors, n, m, iom, breakdown at any step",
  "Tests check the relation for one random matrix at one size.",
  ["arnoldi_jax.py"], [("arnoldi_mgs_lop", "arnoldi_jax.py"), ("arnoldi_lop_jit loop", "arnoldi_jax.py"), ("arnoldi_lop truncation", "arnoldi_jax.py")], (), ["arnoldi_lop"])

p("C12", "Krylov phi products are the projected phi function of the operator",
  "For every operator A, scalar dt, nonzero vector v and order k, the Krylov product returns |v| Q phi_k(H) e_1 for the basis Q and projection H of dt A built from v/|v| with the requested dimension and depth, so it is linear under scaling of v and equals phi_k(dt A) v whenever the space is invariant (in particular when the dimension reaches the size of the system). A zero vector gives the zero vector, and the exponential product is the case k = 0.",
  ["inputs", "configurations"], "all operators, n>=1, k>=0, dt of either sign, vectors of any magnitude including zero",
  "Tests compare two small matrices and unit-size vectors.",
  ["matexp_krylov.py"], [("phi_linop, matexp_linop", "matexp_krylov.py")], (), ["phi_linop", "matexp_linop"])

p("C13", "Combined phi products equal the sum of the single ones",
  "For every operator A, scalar dt and list of vectors b_0..b_p (p >= 1), the combined product equals phi_0(dt A) b_0 + ... + phi_p(dt A) b_p, independently of the relative magnitudes of the vectors, and is zero when all vectors are zero. The augmented system used for Leja interpolation is [[dt A, b_p .. b_1], [0, shift]] with start vector (b_0, e_p), so that the leading block of its exponential applied to the start vector is the same sum, and reports the size of the leading block.",
  ["inputs"], "all operators, n>=1, p>=1, any vectors (zero ones included), dt of either sign",
  "Tests use p<=2 with one fixed matrix.",
  ["matexp_krylov.py", "matexp_leja.py", "ode_sys.py"], [("kiops_fixedsteps", "matexp_krylov.py"), ("build_a_tilde", "matexp_leja.py")], (), ["kiops_fixedsteps", "build_a_tilde"])

p("C14", "Divided-difference routines return Newton coefficients of the exponential",
  "For every sequence of distinct points x, shift a, scale b and step fraction h in (0,1] (as long as the exponentials involved do not overflow), the recursive routine returns the divided differences of the given data, and the recursive, Pade and Taylor coefficient routines return the divided differences over x of z -> exp(h (a + b z)): the first column of exp(h (a I + b Z)) for the bidiagonal matrix Z with x on the diagonal and ones below it. The Taylor routine squares exactly as often as it halved its argument, often enough for its largest entry, and adds back the shift it took out. Confluent (repeated) points are supported by the Pade and Taylor routines, and the first coefficient is always exp(h (a + b x_0)).",
  ["inputs"], "all numbers of points m>=1, all point sequences (real or complex), shifts, scales, step fractions h",
  "Tests use one Leja sequence, h=1 and a loose tolerance.",
  ["matexp_poly.py"], [("newton_poly_div_diff, leja_coeffs_exp_dd, leja_coeffs_exp, dd_exp_taylor, expm_taylor", "matexp_poly.py")], (), ["coefficient routines"])

p("C15", "Leja interpolation evaluates its Newton polynomial and reports honestly",
  "For every operator A, vector u, points, coefficients and tolerance, the real interpolation returns the sum of the first i terms of the Newton polynomial in the scaled and shifted operator, where i is the reported count; the conjugate-pair interpolation returns the real-arithmetic equivalent for sequences of real points followed by conjugate pairs, and the imaginary-axis interpolation that for zero followed by conjugate imaginary pairs, whose count runs one past the terms summed. Each reports convergence only if its running error estimate at the last evaluated term is below tol*|u| (or u is zero), and stops at the latest when the points are exhausted or the estimate exceeds the abort level.",
  ["inputs", "histories"], "all operators, vectors, shifts, scales, numbers of points, tolerances, termination at any term",
  "Tests look at convergent runs only.",
  ["matexp_leja.py"], [("real_leja_expmv, complex_conj_leja_expmv, complex_conj_imag_leja_expmv", "matexp_leja.py")], (), ["expmv routines"])

p("C16", "Leja substepping covers exactly the unit interval or fails loudly",
  "For every initial substep size and every pattern of converged and failed substeps, the substepping routines advance only with converged results, apply substeps of positive length that sum to one, shrink the substep after a failure by the fixed factor and never exceed the remaining interval, and return the composition of the accepted substeps applied to the start vector, restricted to the leading block. The returned flag is true, the reported substep size is the largest accepted one and the reported effort is the sum over all attempts. If the interval is not covered within the substep limit they raise an error instead of returning; with substepping disabled they make exactly one full-size attempt and pass on its flag.",
  ["inputs", "histories", "fault_sequences"], "all initial sizes, all convergence/failure sequences of any length, all operators and vectors",
  "Tests never force a failed substep.",
  ["matexp_leja.py"], [("real_leja_expmv_substep, complex_conj_leja_expmv_substep", "matexp_leja.py")],
  [("tau, dts", "covered part of the interval and next substep", "matexp_leja.py")], ["*_substep"])

p("C17", "Generated Leja sequences lie where they claim and are distinct",
  "For every count n>=4 and interval [a,b] (as long as the products of distances neither overflow nor underflow), the fast Leja sequence consists of n distinct points of [a,b] starting with the end point of larger magnitude, the other end point and the midpoint, each next one maximising the product of distances to the previous ones over the midpoints of the gaps. The circle sequence consists of distinct points of modulus one starting with 1, -1, its first 2^k points are the 2^k-th roots of unity, and in conjugate order its later points form adjacent conjugate pairs. For every box [a,b]x[-c,c] with extents not of opposite sign and not both zero, the conjugate sequence consists of distinct points on the inscribed ellipse scaled to unit capacity (on the real or imaginary segment when the other normalised half axis is below 1e-4), leading real points followed by adjacent conjugate pairs, with the matching centre shift, mean-half-axis scale and number of leading real points; boxes whose extents have opposite signs are rejected. Padding prepends the requested number of near-zero points and changes nothing else, and reordering returns a permutation of its input in which every point after the first greedily maximises the product of distances to its predecessors.",
  ["inputs"], "all n, all intervals and boxes (degenerate and mirrored ones included), all input sequences for padding and reordering",
  "Tests only use the default interval with a few counts.",
  ["matexp_leja.py", "matexp_poly.py"], [("gen_leja_fast, gen_leja_circle, gen_leja_conjugate", "matexp_leja.py"), ("leja_seq_pad_zeros, leja_seq_reordering", "matexp_poly.py")], (), ["generators"])

p("C18", "Power iteration and the derived shift and scale",
  "For every operator and nonzero start vector, the power iteration performs at most the requested number of applications and at least one, stops only when successive estimates differ by at most the tolerance or the limit is reached, and returns the Rayleigh quotient of the last-but-one normalised iterate with the last iterate normalised to unit length and the number of applications. The spectral estimate used for interpolation is that quotient times the safety factor, its shift is half and its scale a quarter of its absolute value, a given start vector of the wrong length is rejected, and without one a fixed pseudo-random vector of the requested dimension is used.",
  ["inputs"], "all operators, start vectors, iteration limits, tolerances and safety factors",
  "Tests never inspect these quantities.",
  ["matexp_leja.py"], [("power_iter, leja_shift_scale", "matexp_leja.py")], (), ["power_iter", "leja_shift_scale"])

p("C19", "Decay and transmutation matrices and the analytic decay chain",
  "For every species list and decay library, entry (child, parent) of the decay matrix is the sum of the constants of the parent's branches to that child and each diagonal entry is minus the sum of all the species' constants, so the amount leaving a parent equals what its listed daughters gain plus what leaves to 'none'; the transmutation matrix is minus the flux times the same construction. The analytic chain solution satisfies the decay equations with the given initial amount of the first species and zero of the others at every time, and a matrix that is not a single chain is rejected.",
  ["inputs", "configurations"], "all species orderings, libraries (single and multiple branches, several parents of one child), constants, fluxes, times, chain lengths",
  "Tests use one three-species chain.",
  ["progression/bateman_sys.py"], [("gen_bateman_matrix, gen_transmute_matrix, analytic_bateman_single_parent", "progression/bateman_sys.py")], (), ["matrix generators"])

p("C20", "Reactive transport systems conserve species and freeze Dirichlet rows",
  "At every state of the shipped reaction-advection-diffusion systems, what phase transfer takes from the liquid species is exactly what the vapour species gains, at every node; node and species indices are kept apart by the column-major flattening, for which stacking and flattening are mutually inverse. The time derivative at Dirichlet nodes is zero for every species (the prescribed boundary rate in the non-autonomous case), and at all other nodes it is the sum of reaction, source and transport terms; the linear operator offered for splitting is the transport plus reaction matrix applied species by species, for every system that offers one; the well-mixed tank uses the volume and flux it was constructed with; the mass transfer models follow their formulas, so they vanish at phase equilibrium and carry the sign of the driving difference.",
  ["inputs"], "all states, times, mesh sizes and numbers of species; all concentrations and parameters of the transfer models",
  "Tests do not touch these systems.",
  ["progression/rad_1d_2s.py", "progression/rad_1d_3s.py", "progression/rad_1d_9s.py", "progression/bateman_nonlin_sys.py", "progression/species_source_sink.py", "ode_utils.py"],
  [("RAD_SEM._frhs", "progression/rad_1d_9s.py"), ("stack_u/flatten_u", "ode_utils.py"), ("mxf_*", "progression/species_source_sink.py")], (), ["frhs"])

p("C21", "Finite-element assembly: quadrature, basis and conservation",
  "The tabulated quadrature rules on the unit interval integrate every polynomial up to degree 2q-3 exactly with positive weights and contain both end points in the element's node order; the nodal basis of order p is one at its own node and zero at the others, sums to one with derivatives summing to zero, at every set of evaluation points. For every velocity (either sign, zero, or varying in space), source, diffusion and stabilisation parameter the weak forms are those of the conservative advection-diffusion equation with upwind stabilisation h tau/(2|v|): the same stabilised test function multiplies the transport, mass and source terms and the stabilisation is never anti-diffusive, so on a periodic mesh the assembled transport conserves the mass-weighted total, a field registered under the name of a parameter takes that parameter's place, and Dirichlet rows are replaced by identity rows with zero load. The affine system's right-hand side is (b - A u)/M with the operator -M^{-1}A as its linear part; at Dirichlet rows the rate is zero, or the time derivative of the prescribed boundary data in the non-autonomous system.",
  ["inputs", "configurations"], "all states, evaluation points, orders p, mesh sizes, parameters",
  "Tests do not touch the finite-element code.",
  ["progression/advection_diffusion_1d.py", "progression/element_line_pp_nodal.py"],
  [("GLL_quad, ElementLinePp_nodal", "progression/element_line_pp_nodal.py"), ("adv_diff_cons_supg, mass_supg, rhs_supg, robin", "progression/advection_diffusion_1d.py"), ("AdDiffSEM.assemble", "progression/advection_diffusion_1d.py")], (), ["AdDiffSEM.assemble", "lbasis"])

p("C22", "Hand-written Jacobians of the shipped systems are the true derivatives",
  "For all parameters, times and states, the hand-written Jacobian and time derivative of the shipped predator-prey systems (autonomous and with time-dependent hunting) and of the decay systems equal the derivatives of their right-hand sides, the right-hand sides are the documented equations, and every system's linear operator has the shape of its Jacobian. The wrapper for array back ends returns the inner system's right-hand side and Jacobian unchanged for column-shaped states.",
  ["inputs", "configurations"], "all parameter values, times and states",
  "Tests integrate with all parameters equal to one, where exchanging parameters changes nothing.",
  ["progression/lotka_volterra.py", "progression/bateman_sys.py", "progression/bateman_nonlin_sys.py", "ode_sys.py"],
  [("LotkaVolterra*._fjac", "progression/lotka_volterra.py"), ("TestBatemanSysJac._fjac", "progression/bateman_sys.py"), ("OdeSysNp", "ode_sys.py")], (), ["frhs", "fjac", "fl"])

p("C23", "Leja-interpolated exponential steps follow the EPI formulas or raise",
  "For every system, state, step size and history, a step of epi2_leja_re, epi2_leja_im and epi3_leja_im returns t+dt and the state plus the interpolated exponential of the augmented system encoding dt phi_1 F + dt^2 phi_2 dF/dt (plus the (2/3) dt phi_2 remainder for epi3 once a previous point exists), using the configured tolerance, points, padding, divided differences and spectral bounds (scaled by dt, estimated by power iteration when none are given). If the interpolation does not converge the step raises an error and changes neither state nor the learned substep size; otherwise the learned substep size becomes the running average (over at most the last ten steps) of the largest accepted substeps and the next step starts from 1.1 times it.",
  ["inputs", "histories", "configurations"], "all systems, states, step sizes, histories, solver options, convergence outcomes",
  "Tests integrate one system with converged steps only.",
  ["ode_exp.py", "matexp_leja.py"], [("ExpLejaIntegrator._step_epi_re/_step_epi_im", "ode_exp.py")],
  [("leja_substep_size, istep, _leja_bk", "warm start of substepping and power iteration", "ode_exp.py")], ["ExpLejaIntegrator.step"])

p("C24", "The Rust integrators agree with the Python ones",
  "For every system, step size and method offered by both, the Rust implementation takes the same step as the Python one, and its Arnoldi, phi and Krylov routines satisfy the same relations.",
  ["inputs", "configurations"], "all systems, states, step sizes and methods shared by both implementations",
  "Tests of the Rust bindings are skipped unless the extension has been built.",
  ["src/lib.rs"], [("Rust crate", "src")], (), ["ormatex_py.ormatex"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
