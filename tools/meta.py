"""Property texts."""
PROPS = []


def P(id, title, statement, quant, why, files, mech, over=('inputs',), **kw):
  PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why,
                    files=['jaxopt/_src/' + f for f in files],
                    mech=[(n, 'jaxopt/_src/' + w) for n, w in mech], over=list(over), **kw))


P('P01', 'Projections return the closest point of their set',
  'Every projection operator (non-negative orthant, box, hypercube, simplex, sparse simplex, l1/l2 '
  'spheres and balls, linf ball, hyperplane, halfspace, affine set, box section, transport and '
  'Birkhoff polytopes) returns, for every input and every valid set parameter, a point of the set that '
  'no other point of the set is closer to. Points already in the set come back unchanged, scalar and '
  'array parameters, pytrees, defaults and batches behave alike.',
  'every real input vector and every valid parameter (radius, bounds, weights, normal vectors), '
  'including ties, zeros and points on the boundary',
  'The tests project a few random vectors; ties, zero coordinates, boundary and large/small radii '
  'and non-default parameters are rarely drawn.',
  ['projection.py'],
  [('sort-and-threshold simplex projection', 'projection.py:_projection_unit_simplex'),
   ('closed forms', 'projection.py'), ('root search', 'projection.py:projection_box_section'),
   ('(semi-)dual transport', 'projection.py:projection_transport')],
  observe=['jaxopt.projection.*'])
P('P02', 'Proximal operators minimise their documented objective',
  'Each proximal operator returns, for every input, regularisation strength (scalar or per coordinate) '
  'and scaling, the minimiser of 0.5 ||x-y||^2 + scaling * penalty(y), as characterised by its '
  'optimality conditions. The operator made from a projection ignores scaling and equals that projection.',
  'every real input vector, regularisation strength >= 0 and scaling >= 0',
  'The tests use a handful of random vectors and strengths and mostly scaling 1 or one other value.',
  ['prox.py'], [('soft thresholding and scaling formulas', 'prox.py')], observe=['jaxopt.prox.*'])
P('P03', 'Losses equal their definitions and have the right gradients',
  'Every loss function returns its mathematical definition for every label and prediction (logistic, '
  'sparsemax, hinge, perceptron, Huber, binary and multiclass; Fenchel-Young losses from a potential), '
  'and its automatic derivative with respect to the prediction is the derivative of that definition.',
  'every label and every real prediction vector within the sizes',
  'Tests compare a few random predictions against reference implementations.',
  ['loss.py'], [('custom gradients and closed forms', 'loss.py')], observe=['jaxopt.loss.*'])
P('P04', 'Isotonic regression solves its constrained least squares',
  'isotonic_l2_pav returns, for every input sequence, the monotone sequence (increasing or decreasing as '
  'asked) closest in the least squares sense, clipped to the requested bounds, row by row under vmap.',
  'every real sequence and bounds y_min <= y_max',
  'Tests run a few random sequences; block merges are combinatorial (all orderings and ties).',
  ['isotonic.py'], [('pool adjacent violators', 'isotonic.py:isotonic_l2_pav')],
  observe=['jaxopt.isotonic.isotonic_l2_pav'])
P('P05', 'Derivatives of projections and prox operators are right',
  'Forward- and reverse-mode automatic derivatives of the projections, proximal operators and isotonic '
  'regression are finite, transposes of each other, and equal to the derivative of the operator wherever it '
  'is differentiable (with respect to the input and the operator parameters).',
  'every input, tangent and cotangent vector and valid parameter off the kinks of the operator',
  'Tests check finite differences at a few random points; custom derivative rules have special cases '
  'at zeros, ties and empty active sets.',
  ['projection.py', 'prox.py', 'isotonic.py'],
  [('custom jvp rules', 'projection.py'), ('root differentiation', 'projection.py:projection_box_section')],
  observe=['jax.jvp/jax.vjp of jaxopt.projection.*, jaxopt.prox.*, isotonic_l2_pav'])
P('P06', 'Bounded loops run the body exactly while allowed',
  'loop.while_loop applies the body as long as the condition holds and at most maxiter times, with the same '
  'result and the same derivatives whether it is a scan, an XLA while loop or a Python loop, and refuses '
  'unroll=False with jit=False.',
  'every condition and body function, initial state and iteration bound up to the unrolling',
  'Tests run a few concrete loops; an off-by-one or a stale condition shows only for particular stop times.',
  ['loop.py'], [('scan, while and Python variants', 'loop.py:while_loop')], observe=['jaxopt.loop.while_loop'])
P('P07', 'run is init_state followed by updates until the stopping rule',
  'For every iterative solver, run returns exactly the parameters and state produced by init_state followed by '
  'update, repeated while error > tol and fewer than maxiter times; maxiter=0 returns the initial point; the '
  'first update always happens; the iteration count in the state is the number of updates; jit, unroll and '
  'implicit_diff options do not change the result; run_iterator does the same over an iterator of batches.',
  'every objective, start point and data value; stopping after any number of iterations within maxiter',
  'Tests compare optima reached after many iterations, which hides an extra or missing update or a wrong '
  'early stop.',
  ['base.py', 'loop.py'], [('run loop', 'base.py:IterativeSolver.run'),
                           ('iterator loop', 'base.py:StochasticSolver.run_iterator')],
  observe=['run, run_iterator of all solvers'])
P('P08', 'Implicit differentiation follows the implicit function theorem',
  'root_vjp, root_jvp, custom_root and custom_fixed_point solve the linear system of the implicit function '
  'theorem for the given optimality function and pass derivatives to exactly the arguments they belong to '
  '(positional, keyword, pytree, aux outputs); run of solvers with implicit_diff=True has that derivative, '
  'computed with the solver the user passed as implicit_diff_solve.',
  'every optimality function, solution, parameter, cotangent and tangent',
  'Tests compare with a closed form on one or two regression problems; argument routing and signs for '
  'other signatures are not visible there.',
  ['implicit_diff.py', 'base.py', 'projected_gradient.py'],
  [('linear system and vjp', 'implicit_diff.py:root_vjp'), ('argument routing', 'implicit_diff.py:_custom_root')],
  observe=['jax.vjp/jax.jvp of decorated solvers, run of the solvers'])
P('P09', 'optimality_fun is zero exactly at the optimality conditions',
  'For every solver that has one, optimality_fun (and the residual that implicit differentiation uses) is the '
  'documented stationarity map of the problem the solver solves (gradient, prox or projection fixed point '
  'residual, KKT residual, root function, normal equations of least squares), evaluated with the solver\'s own '
  'hyper-parameters and all extra arguments; it vanishes exactly where the first-order conditions hold, and '
  'l2_optimality_error is its norm.',
  'every smooth objective, residual, constraint and map, every point and every problem data value',
  'Tests only look at the residual at a converged solution, where a wrong sign or a missing term of another '
  'argument is often invisible.',
  ['base.py', 'implicit_diff.py', 'gradient_descent.py', 'proximal_gradient.py', 'projected_gradient.py',
   'mirror_descent.py', 'block_cd.py', 'osqp.py', 'eq_qp.py', 'levenberg_marquardt.py', 'gauss_newton.py',
   'scipy_wrappers.py'],
  [('KKT residual', 'implicit_diff.py:make_kkt_optimality_fun'),
   ('residual norm', 'base.py:Solver.l2_optimality_error')],
  observe=['solver.optimality_fun', 'solver.l2_optimality_error'])
P('P10', 'Linear solvers solve the system they are given',
  'Each linear_solve routine returns, for every non-singular system (positive definite where the routine '
  'asks for it), right-hand side (vector, matrix or pytree), ridge and initial guess, the solution of '
  '(A + ridge I) x = b, or of the ridge normal equations for solve_normal_cg; the linear operator classes '
  'multiply, transpose and apply matvecs as the matrix they stand for does.',
  'every matrix, right-hand side, ridge >= 0 and initial guess within the sizes',
  'Tests solve a few random well-conditioned systems, mostly with vectors and no ridge.',
  ['linear_solve.py', 'linear_operator.py'],
  [('materialised and matrix-free solvers', 'linear_solve.py'), ('operators', 'linear_operator.py')],
  observe=['jaxopt.linear_solve.*'])
P('P11', 'Backtracking line search accepts exactly points meeting its rule',
  'BacktrackingLineSearch tries the initial stepsize capped at max_stepsize first and multiplies it by '
  'decrease_factor after each rejection; it is done exactly when the tried stepsize meets the chosen condition '
  '(Armijo, Goldstein, Wolfe, strong Wolfe, with coefficients c1, c2) and is failed when the iterations run '
  'out first. The returned stepsize, parameters, value, gradient and aux belong to the same point '
  'x + stepsize * direction, whether or not value, gradient or direction were passed in; NaN objective values '
  'are rejected.',
  'every smooth objective, point, direction, stepsize, coefficients and stopping time within maxiter',
  'Tests run a few functions from a few points and check the accepted point only.',
  ['backtracking_linesearch.py'], [('condition and backtracking', 'backtracking_linesearch.py:BacktrackingLineSearch.update')],
  observe=['BacktrackingLineSearch.run/init_state/update'])
P('P12', 'Zoom line search keeps its interval invariant and stops right',
  'Every update of ZoomLineSearch from any state satisfying its documented invariant (low end decreases '
  'sufficiently, is the best value so far, and slopes towards the high end) keeps that invariant and the recorded values and slopes, '
  'tries a point strictly inside a shrinking interval (or twice the previous stepsize, at most max_stepsize, while searching), and '
  'is done only at a stepsize meeting the strong Wolfe conditions (or the approximate Wolfe conditions). Upon failure '
  'it returns the best stepsize known to decrease sufficiently. Stepsize, parameters, value and gradient '
  'returned belong to the same point.',
  'every smooth objective (NaN on part of the line included), point, descent direction, stepsize and state',
  'Tests run a few functions; the interval logic has many branches that depend on the order of values and '
  'slopes.',
  ['zoom_linesearch.py'], [('search phase', 'zoom_linesearch.py:ZoomLineSearch._search_interval'),
                           ('zoom phase', 'zoom_linesearch.py:ZoomLineSearch._zoom_into_interval')],
  observe=['ZoomLineSearch.run/init_state/update'])
P('P13', 'Hager-Zhang line search keeps a valid shrinking bracket',
  'HagerZhangLineSearch starts from an interval whose low end has value at most the approximate Wolfe threshold '
  'and negative slope and whose high end slopes up or lies above the threshold; every update keeps that, stays '
  'inside the previous interval and shrinks it by at least shrinkage_factor. It returns the end with the lower '
  'value, is done exactly when that end meets the Wolfe or approximate Wolfe conditions, and fails when '
  'iterations run out. Stepsize, parameters, value, gradient and aux returned belong to the same point.',
  'every smooth objective, point, descent direction and bracket; inner loops up to the unrolling',
  'Tests run a few functions; bracket updates depend on the order of values and slopes at several points.',
  ['hager_zhang_linesearch.py'], [('bracket, secant2 and update', 'hager_zhang_linesearch.py')],
  observe=['HagerZhangLineSearch.init_state/update/run'])
P('P14', 'L-BFGS steps along the limited-memory BFGS direction',
  'LBFGS moves by minus stepsize (constant, callable of the iteration, or found by the chosen line search started '
  'from the documented initial stepsize) times the inverse Hessian approximation that the BFGS formula builds '
  'from the last history_size pairs, oldest first, starting from gamma I (I without use_gamma). Each update '
  'stores the newest (s, y, 1/s.y) pair in place of the oldest, sets gamma = s.y / y.y, and leaves value, '
  'gradient, aux, error = ||gradient||, stepsize and counters of the new point in the state. Warm starts '
  'carry the history over; stop_if_linesearch_fails stops exactly then.',
  'every smooth objective, pytree point, history contents, iteration number (before and after the buffer wraps)',
  'Tests only check that known problems converge, which L-BFGS does even with a mangled history.',
  ['lbfgs.py', 'linesearch_util.py'], [('two-loop recursion', 'lbfgs.py:inv_hessian_product'),
                                       ('circular history', 'lbfgs.py:LBFGS.update'),
                                       ('initial stepsize', 'linesearch_util.py')],
  observe=['LBFGS.init_state/update/run'])
P('P15', 'BFGS steps along the BFGS direction',
  'BFGS moves by minus stepsize (constant, callable of the iteration, or found by the chosen line search started '
  'from the documented initial stepsize) times the inverse Hessian approximation H times the gradient; each update '
  'replaces H by the BFGS formula for the newest pair s = change of parameters, y = change of gradient, which '
  'satisfies the secant equation H y = s and stays symmetric. Value, gradient, aux, error = ||gradient||, stepsize and '
  'counters in the state are those of the new point, for any pytree of parameters; stop_if_linesearch_fails stops exactly then.',
  'every smooth objective, pytree point, symmetric H, iteration number and stepsize',
  'Tests only check that known problems converge, which BFGS does even with a wrong H.',
  ['bfgs.py', 'linesearch_util.py'], [('inverse Hessian update', 'bfgs.py:BFGS.update'),
                                      ('initial stepsize', 'linesearch_util.py')],
  observe=['BFGS.init_state/update/run'])
P('P16', "Broyden steps along the limited-memory Broyden direction",
  "Broyden moves by minus stepsize (constant or callable of the iteration, or found by the backtracking line search on "
  "the squared norm) times the inverse Jacobian approximation that Broyden's (good) formula builds from the stored "
  "history times the residual. Each update adds the newest rank-one correction in its circular slot, so that the new "
  "approximation satisfies the secant equation; inner products run over all leaves of a pytree. Residual, "
  "error = ||residual||, aux, stepsize and counters in the state are those of the new point.",
  'every smooth map, pytree point, history contents and iteration number (before and after the buffer wraps)',
  'Tests check convergence on a few single-array problems.',
  ['broyden.py'], [('inverse Jacobian products', 'broyden.py:inv_jacobian_product'),
                   ('circular history', 'broyden.py:Broyden.update')],
  observe=['Broyden.init_state/update/run'])
P('P17', 'Nonlinear conjugate gradient updates direction and state right',
  'NonlinearCG moves along its stored direction by the stepsize the line search finds from the documented initial '
  'stepsize; the new direction is minus the new gradient plus beta times the old direction, with beta by the chosen '
  'documented formula (Polak-Ribiere, Fletcher-Reeves, Hestenes-Stiefel, clipped at zero). Value, gradient, aux, '
  'error = ||gradient at the returned parameters|| and counters are those of the new point, for any pytree of parameters.',
  'every smooth objective, pytree point, direction, stepsize and iteration number',
  'Tests check convergence only, which survives a wrong beta or a lagging error.',
  ['nonlinear_cg.py', 'linesearch_util.py'], [('beta formulas', 'nonlinear_cg.py:NonlinearCG.update')],
  observe=['NonlinearCG.init_state/update/run'])
P('P18', 'Proximal gradient takes prox-gradient steps, FISTA momentum included',
  'ProximalGradient moves to prox(y - eta grad(y), hyperparameters, eta), where y is the current point, or with '
  'acceleration the extrapolated point (t_next = (1 + sqrt(1 + 4 t^2)) / 2, momentum (t - 1) / t_next); eta is constant, '
  'a callable of the iteration, or the first of s, s * decrease_factor, ... meeting the sufficient decrease condition '
  'within maxls tries, enlarged for the next iteration. error = ||x_next - x|| / eta; aux and counters are consistent; '
  'optimality_fun is the prox-gradient residual with unit step.',
  'every smooth objective, every prox function, pytree point, momentum state and stepsize',
  'Tests check convergence, which survives wrong momentum or a wrong stepsize passed to the prox.',
  ['proximal_gradient.py'], [('line search', 'proximal_gradient.py:fista_line_search'),
                             ('momentum', 'proximal_gradient.py:ProximalGradient._update_accel')],
  observe=['ProximalGradient.init_state/update/run/optimality_fun'])
P('P19', 'Projected gradient and mirror descent step within the constraints',
  'ProjectedGradient moves to the projection of the (extrapolated) point minus stepsize times gradient, with constant, '
  'callable or searched stepsize; iterates are feasible from any start, and a point it does not move from '
  'solves the constrained problem when the objective is convex. MirrorDescent moves to '
  'projection(mirror map(x) - stepsize * gradient). error, aux and counters describe the step taken.',
  'every smooth objective, projection, mirror map, pytree point and state; for feasibility and optimality every '
  'separable convex quadratic and box, orthant, simplex and halfspace parameters',
  'Tests check convergence from a few starts.',
  ['projected_gradient.py', 'mirror_descent.py', 'prox.py'],
  [('projection as prox', 'prox.py:make_prox_from_projection'), ('mirror step', 'mirror_descent.py:MirrorDescent._update')],
  observe=['ProjectedGradient.init_state/update/run', 'MirrorDescent.init_state/update/run'])
P('P20', 'Block coordinate descent sweeps blocks with exact partial gradients',
  'BlockCoordinateDescent updates the blocks (rows) one after the other by a prox-gradient step with stepsize one over the '
  'block Lipschitz constant, each gradient taken at the parameters as already updated in the sweep; the predictions it '
  'maintains incrementally equal those of the new parameters, error is the norm of the change, and optimality_fun the '
  'prox-gradient residual. The coordinate Lipschitz constants of the multiclass SVM dual bound its curvature.',
  'every smooth function of the predictions, design matrix, linear term, Lipschitz constants, prox and point',
  'Tests compare solutions of a few regression problems, reached by many sweeps whatever one sweep does.',
  ['block_cd.py', 'objective.py', 'base.py'], [('incremental predictions', 'block_cd.py:BlockCoordinateDescent.update'),
                                               ('operators', 'base.py:LinearOperator')],
  observe=['BlockCoordinateDescent.update/run/optimality_fun'])
P('P21', 'BoxCDQP minimises exactly over each coordinate',
  'Each BoxCDQP update replaces the coordinates one after the other by the exact minimiser over [l_i, u_i] of the quadratic '
  'in that coordinate (the best bound when it is linear there), so that iterates stay feasible, the objective never '
  'increases, a fixed point solves the quadratic program, and error is the size of the sweep.',
  'every positive semidefinite Q, linear term, box and start within the sizes',
  'Tests solve a few well conditioned random problems.',
  ['cd_qp.py'], [('coordinate sweep', 'cd_qp.py:fori_loop_body_fun')],
  observe=['BoxCDQP.update/run/optimality_fun'])
P('P24', 'Fixed point iteration and Anderson acceleration step right',
  'FixedPointIteration moves to T(x) with error = ||T(x) - x||. AndersonAcceleration records the newest point and residual in '
  'its circular history (keeping the Gram matrix equal to the residual inner products) and, in mixing iterations, moves '
  'to the combination of history with weights that solve the ridge-regularised least squares problem and sum to one, '
  'mixed by beta; otherwise it moves to T(x). AndersonWrapper extrapolates the iterates of the wrapped solver in the same way.',
  'every function of a pytree, history contents, iteration number (before and after the buffer wraps) and ridge > 0',
  'Tests check convergence, which survives wrong weights as plain iteration converges too.',
  ['fixed_point_iteration.py', 'anderson.py', 'anderson_wrapper.py'],
  [('weights', 'anderson.py:minimize_residuals'), ('history', 'anderson.py:update_history')],
  observe=['FixedPointIteration.update', 'AndersonAcceleration.update', 'AndersonWrapper.update'])
P('P25', 'Bisection keeps a sign change bracketed and halves the bracket',
  'From any bracket with a sign change, a Bisection update evaluates the midpoint, returns it, keeps the half that has the '
  'sign change and sets error to the absolute value there (so that the run stops within tol of a root, ends of the initial '
  'bracket included); with check_bracket a bracket without sign change is refused. Increasing and decreasing functions, '
  'has_aux and extra arguments behave alike.',
  'every function, bracket and parameter',
  'Tests solve a few functions with roots well inside the bracket.',
  ['bisection.py'], [('sign bookkeeping', 'bisection.py:Bisection')],
  observe=['Bisection.init_state/update/run'])
P('P26', 'Stochastic solvers take their documented steps',
  'PolyakSGD steps along the (momentum) gradient with the capped Polyak stepsize (zero at a zero gradient), '
  'ArmijoSGD with the first stepsize from the documented start that meets the Armijo condition on the '
  'current batch (with its reset options and momentum), OptaxSolver applies the update of the wrapped '
  'transformation to the gradient of the current batch. Value, gradient error, aux, velocity, stepsize and counters belong to the '
  'batch and point of the step.',
  'every smooth objective, batch, pytree point, velocity, stepsize and iteration number',
  'Tests check that training converges, which survives a wrong stepsize.',
  ['polyak_sgd.py', 'armijo_sgd.py', 'optax_wrapper.py'],
  [('Polyak stepsize', 'polyak_sgd.py:PolyakSGD.update'), ('line search', 'armijo_sgd.py:armijo_line_search'),
   ('transformation', 'optax_wrapper.py:OptaxSolver._apply_updates')],
  observe=['PolyakSGD.update', 'ArmijoSGD.update', 'OptaxSolver.update'])
P('P27', 'Gauss-Newton and Levenberg-Marquardt take their documented steps',
  'GaussNewton steps by the solution of the normal equations. LevenbergMarquardt solves (J^T J + damping I) d = -J^T r with '
  'any of its linear solvers, accepts the point exactly when the gain ratio exceeds its threshold (never when the new residual is '
  'NaN or infinite), updates damping by its documented rule (either growth strategy), stops by the chosen criterion, '
  'and leaves residual, gradient, Jacobian, aux, error and counters of the retained point in the state, whether the Jacobian is '
  'materialised, given by the user, or used matrix-free, geodesic acceleration included.',
  'every smooth residual function, point, damping factor and state',
  'Tests solve a few classic problems; rejected steps, stopping variants and non-finite residuals are rarely met.',
  ['gauss_newton.py', 'levenberg_marquardt.py'],
  [('gain ratio and damping', 'levenberg_marquardt.py:LevenbergMarquardt.update_state_using_gain_ratio'),
   ('Gauss-Newton step', 'gauss_newton.py:GaussNewton.update')],
  observe=['GaussNewton.update/run', 'LevenbergMarquardt.update/run'])
P('P22', 'OSQP takes the ADMM step and its statuses are certified',
  'Each BoxOSQP iteration solves the ADMM linear system (indirect, or LU with its factors kept up to date with rho), then takes the '
  'relaxed x, projected z and y steps: z stays in [l,u] and multipliers keep the sign their bound demands. Error is the '
  'largest relative residual; status becomes solved, primal or dual infeasible exactly when the documented test '
  'holds (infeasibility needs a certificate of non-zero size, finite bounds only). The stepsize update rescales rho as documented and the next step '
  'uses it. OSQP is BoxOSQP on its equality and inequality form, with matvec, fun, pytrees and warm starts equivalent.',
  'every Q, c, A, l <= u, iterate, multiplier and rho > 0',
  'Tests check convergence on well-scaled problems; wrong statuses or a stale factorisation survive that.',
  ['osqp.py'],
  [('step', 'osqp.py:BoxOSQP._admm_step'), ('certificates', 'osqp.py:BoxOSQP._check_dual_infeasability'),
   ('standard form', 'osqp.py:OSQP_to_BoxOSQP')],
  observe=['BoxOSQP.update/run/init_params', 'OSQP.run'])
P('P23', 'Equality-constrained QPs are solved by their KKT system',
  'EqualityConstrainedQP.run returns a primal-dual pair that satisfies the KKT system of min 0.5 x\'Qx + c\'x s.t. Ax=b, '
  'whether the problem is given by matrices, matvecs or fun, on pytrees, with or without a start and with iterative refinement. IterativeRefinement adds '
  'the (optionally preconditioned) correction of the residual of its current point, the warm start included; when the inner solver is exact '
  'one update solves the system.',
  'every Q, A, c, b for which the inner linear solver meets its contract',
  'Tests solve a few random problems with one representation each.',
  ['eq_qp.py', 'iterative_refinement.py'],
  [('KKT operator', 'eq_qp.py:_make_eq_qp_kkt_matvec'), ('refinement', 'iterative_refinement.py:IterativeRefinement.update')],
  observe=['EqualityConstrainedQP.run', 'IterativeRefinement.init_state/update/run'])
P('P28', 'Pytree arithmetic acts leaf by leaf like a vector space',
  'tree_util operations (add, sub, mul, div, scalar multiples, inner products and vdot, sums, norms, where, zeros and ones, negative, '
  'average, Gram matrices, tree_dot) give what the same operation gives on the concatenated vector, for nested structures with '
  'scalars, vectors and matrices. Norms have their subgradient derivatives: no NaN at zero where documented safe.',
  'every leaf value, for dict, nested and single-array structures',
  'All solvers are built on these; tests sample a few trees.',
  ['tree_util.py'], [('tree operations', 'tree_util.py')], observe=['jaxopt.tree_util.*'])
P('P29', 'A run on a pytree is the run on the raveled vector',
  'Iterating a solver (gradient, proximal, projected, mirror descent, stochastic, BFGS, L-BFGS, L-BFGS-B, nonlinear CG, fixed point, Anderson, '
  'Broyden) or a line search on dict or nested parameters gives, leaf by leaf, the parameters that iterating on the concatenated '
  'vector gives, with the same error, value, stepsize, counters and optimality residual.',
  'every smooth objective, map and starting point',
  'Tests use arrays nearly everywhere; a per-leaf reduction is invisible on a single leaf.',
  ['gradient_descent.py', 'proximal_gradient.py', 'bfgs.py', 'lbfgs.py', 'lbfgsb.py', 'nonlinear_cg.py', 'broyden.py', 'anderson.py',
   'backtracking_linesearch.py', 'zoom_linesearch.py', 'tree_util.py'],
  [('tree reductions', 'tree_util.py')], observe=['update', 'optimality_fun', 'run of line searches'])
P('P30', 'Runs, line searches, projections and losses commute with vmap',
  'jax.vmap of a run gives each example the parameters and the state that its own run gives, also when the examples stop at different '
  'iterations: a finished example is frozen while others go on. The same holds for backtracking line searches, projections, proximal operators and losses '
  'under vmap.',
  'every smooth objective and every pair of examples',
  'Tests vmap a few well-behaved problems where all examples take the same path.',
  ['base.py', 'loop.py', 'projection.py', 'prox.py', 'loss.py', 'isotonic.py'],
  [('while loop', 'loop.py:while_loop'), ('run', 'base.py:IterativeSolver._run')],
  observe=['jax.vmap(solver.run)', 'jax.vmap(projection)'])
P('P32', 'Objectives, their curvature constants and linear operators are as documented',
  'The objective module computes the documented regularised mean losses for every data; columnwise (coordinate) Lipschitz '
  'constants bound the curvature of each block along every direction, so that a block step decreases the objective. The internal LinearOperator methods '
  '(matvec, rmatvec, column products, row and column updates) agree with the dense matrix, vector and matrix shaped, and the objectives\' '
  'subfun at the product X w equals the objective at w.',
  'every data matrix, target, weight, direction and regularisation',
  'Tests evaluate a few random data sets; an underestimated constant seldom shows up as divergence.',
  ['objective.py', 'base.py'],
  [('objectives', 'objective.py'), ('operator', 'base.py:LinearOperator')],
  observe=['jaxopt.objective.*', 'objective.*.columnwise_lipschitz_const'])
P('P34', 'has_aux and value_and_grad change what is passed, not what is computed',
  'For every minimiser, line search and root or fixed point solver, passing fun with has_aux, with value_and_grad=True (value and '
  'gradient returned together), with a separate value_and_grad callable, or any combination, gives the same parameters, state, '
  'optimality residual and run as the plain function. The aux in the state is the auxiliary output at the documented point '
  '(of evaluation for first order methods, the new parameters for quasi-Newton ones), from init_state on, for any aux pytree.',
  'every smooth objective, map, auxiliary function and starting point',
  'Tests exercise a few combinations with trivial aux.',
  ['base.py', 'proximal_gradient.py', 'bfgs.py', 'lbfgs.py', 'lbfgsb.py', 'nonlinear_cg.py', 'polyak_sgd.py', 'armijo_sgd.py',
   'optax_wrapper.py', 'mirror_descent.py', 'fixed_point_iteration.py', 'anderson.py', 'broyden.py'],
  [('wrapping', 'base.py:_make_funs_with_aux')], observe=['init_state', 'update', 'run', 'optimality_fun'])
P('P35', 'L-BFGS-B steps by its BFGS model and stays in the box',
  'An LBFGSB update moves along the direction to the minimiser found in the box for the quadratic model whose Hessian is the BFGS matrix of the stored pairs, oldest to '
  'newest also after the history wrapped: without active bounds it is the quasi-Newton step, without history the projected gradient step; '
  'it is a descent direction that does not increase the model, and vanishes at stationary points. Iterates stay within bounds; '
  'value, gradient, projected-gradient error, counters, scaling and history (updated only at positive curvature) belong to the new point.',
  'every point, box and gradient for given histories; every history in one variable',
  'Tests check convergence to a solution, which a wrong model matrix only slows down.',
  ['lbfgsb.py'],
  [('Cauchy point', 'lbfgsb.py:_find_cauchy_point'), ('subspace step', 'lbfgsb.py:_minimize_subspace'),
   ('model matrix', 'lbfgsb.py:LBFGSB.update')], observe=['LBFGSB.init_state/update/run'])
