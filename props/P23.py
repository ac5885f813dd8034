"""Equality constrained quadratic programs and iterative refinement."""
from props.lib import *
import jaxopt
from jaxopt import linear_solve as ls
from jaxopt._src import base
from jaxopt._src.iterative_refinement import IterativeRefinement, solve_iterative_refinement

FUNCTIONS = ['EqualityConstrainedQP.{run,l2_optimality_error}',
             'IterativeRefinement.{init_params,init_state,update,run,optimality_fun}', 'solve_iterative_refinement']
ASSUMPTIONS = ['the inner linear solver returns a solution of the system it is given (gmres: contract; or a solver that '
               'returns an arbitrary vector, whose residual is recorded)', 'Q symmetric']
KKT = base.KKTSolution
tm = jax.tree_util.tree_map
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
R0 = lambda n: np.array([R_(0)] * n, dtype=object)


def oracle(us, log):
  """A linear solver that returns the next of us and records its residual and start."""
  us = list(us)
  def solve(matvec, b, init=None, **kw):
    u = us[len(log)]
    log.append((tm(lambda p, q: p - q, matvec(u), b), init, kw))
    return u
  return solve


def problems(tier):
  T = tier == 'thorough'
  ps = []
  sym = lambda q: jnp.array([[q[0], q[1]], [q[1], q[2]]])
  V2 = Sp(2)

  def mkqp(mode, **k):
    if mode == 'matvec':
      return jaxopt.EqualityConstrainedQP(matvec_Q=lambda Q, x: 2 * (Q @ x), matvec_A=lambda A, x: A.T @ x, **k)
    if mode == 'fun':
      return jaxopt.EqualityConstrainedQP(fun=lambda x, p: 0.5 * x @ p[0] @ x + p[1] @ x + 3.0, **k)
    return jaxopt.EqualityConstrainedQP(**k)

  # The system handed to the linear solver, at any vector.
  def f_sys(mode, q, c, A, b, x, y, x0, y0):
    Q, log = sym(q), []
    sol = mkqp(mode, solve=oracle([(x, y)], log), jit=False, implicit_diff_solve=ls.solve_lu, tol=0.5, maxiter=7)
    p, st = sol.run(KKT(x0, y0), (Q, c), (A.T if mode == 'matvec' else A, b))
    res, init, kw = log[0]
    Q = 2 * Q if mode == 'matvec' else Q
    err = sol.l2_optimality_error(KKT(x, y), (sym(q), c), (A.T if mode == 'matvec' else A, b))
    k1, k2 = Q @ x + c + A.T @ y, A @ x - b
    return dict(p=p.primal, y=p.dual_eq, res=res, want=(k1, k2), init=init, err=err, sq=k1 @ k1 + k2 @ k2,
                kw=kw['tol'] == 0.5 and kw['maxiter'] == 7, none=p.dual_ineq is None and st is None)
  for mode in ('', 'matvec', 'fun'):
    ps.append(Problem('system' + ('_' + mode if mode else ''),
                      dict(q=Sp(3), c=V2, A=Sp(1, 2), b=Sp(1), x=V2, y=Sp(1), x0=V2, y0=Sp(1)),
                      lambda mode=mode, **i: f_sys(mode, **i), lambda s, i, o: [
        ('residual of the KKT conditions', s.eq(o['res'], o['want'])), ('start', s.eq(o['init'], (i['x0'], i['y0']))),
        ('solution is the solver\'s', s.And(s.eq(o['p'], i['x']), s.eq(o['y'], i['y']))),
        ('options reach the solver', sc(o['kw'])), ('no inequality multipliers', sc(o['none'])),
        ('l2_optimality_error', s.And(s.ge(sc(o['err']), 0), s.eq(sc(o['err']) * sc(o['err']), sc(o['sq']))))], live=True))

  TX = dict(a=Sp(1), b=Sp(1))
  def f_tree(mode, q, c, A, b, x, y):
    log = []
    if mode == 'fun':
      sol = jaxopt.EqualityConstrainedQP(fun=lambda x, p: sum(0.5 * x[k] @ (p[0][k] @ x[k]) + p[1][k] @ x[k] for k in 'ab'),
                                         solve=oracle([(x, y)], log), jit=False)
    else:
      sol = jaxopt.EqualityConstrainedQP(solve=oracle([(x, y)], log), jit=False)
    Q = dict(a=q['a'][:, None], b=q['b'][:, None])
    p, _ = sol.run(KKT(x, y), (Q, c), (A, b))
    return log[0][0], [(Q[k] @ x[k] + c[k] + A[k].T @ y[k], A[k] @ x[k] - b[k]) for k in 'ab']
  for mode in ('matrices', 'fun'):
    ps.append(Problem('pytree_' + mode, dict(q=TX, c=TX, A=dict(a=Sp(1, 1), b=Sp(2, 1)), b=dict(a=Sp(1), b=Sp(2)), x=TX,
                                             y=dict(a=Sp(1), b=Sp(2))), lambda mode=mode, **i: f_tree(mode, **i), lambda s, i, o: [
        ('residual of each block', s.And([s.And(s.eq(o[0][0][k], o[1][j][0]), s.eq(o[0][1][k], o[1][j][1]))
                                          for j, k in enumerate('ab')]))], live=True))

  # The solution, with the default solver.
  def f_sol(q, c, A, b, x, y, start):
    Q = sym(q)
    p, _ = jaxopt.EqualityConstrainedQP().run(KKT(x, y) if start else None, (Q, c), (A, b))
    return Q @ p.primal + c + A.T @ p.dual_eq, A @ p.primal - b, p.primal
  def c_sol(s, i, o):
    z = i['z']
    w = [a - b for a, b in zip(z, o[2])]
    q = i['q']
    f = lambda v: (q[0] * v[0] * v[0] + R_(2) * q[1] * v[0] * v[1] + q[2] * v[1] * v[1]) * R_(0.5) + i['c'][0] * v[0] + i['c'][1] * v[1]
    feas = s.xeq(i['A'][0, 0] * z[0] + i['A'][0, 1] * z[1], i['b'][0])
    return [('stationary', s.eq(o[0], R0(2))), ('feasible', s.eq(o[1], R0(1))),
            ('no feasible point is better', s.implies(feas, s.ge(f(z) - f(o[2]), 0)))]
  ok = lambda s, i: s.And([V.rle(V.ZERO, i['q'][0]), V.rle(V.ZERO, i['q'][2]),
                           V.rle(V.rmul(i['q'][1], i['q'][1]), V.rmul(i['q'][0], i['q'][2])),
                           V.rlt(V.ZERO, i['A'][0, 0] * i['A'][0, 0] * i['q'][2] + i['A'][0, 1] * i['A'][0, 1] * i['q'][0]
                                 - R_(2) * i['A'][0, 0] * i['A'][0, 1] * i['q'][1])])
  for start in (False, True):
    ps.append(Problem('solution' + ('_started' if start else ''),
                      dict(q=Sp(3), c=V2, A=Sp(1, 2), b=Sp(1), x=V2, y=Sp(1), z=V2),
                      lambda start=start, **i: f_sol(start=start, **i), c_sol, ghost=('z',), assume=ok, timeout=60,
                      bound='2 variables, 1 constraint, non-singular'))

  # Refinement of the regularised system.
  def f_ref(q, c, A, b, x0, y0, start):
    Q = sym(q)
    inner = lambda mv, r, init=None, **k: ls.solve_gmres(mv, r)
    go = lambda m: jaxopt.EqualityConstrainedQP(solve=inner, refine_regularization=0.25, refine_maxiter=m, tol=-1.0).run(
        KKT(x0, y0) if start else None, (Q, c), (A, b))[0]
    S = lambda x, y: jnp.concatenate([Q @ x + A.T @ y, A @ x])
    t = lambda x, y: S(x, y) + 0.25 * jnp.concatenate([x, -y])
    rhs = jnp.concatenate([-c, b])
    z = (x0, y0) if start else (0 * x0, 0 * y0)
    out = []
    for m in (1, 2):
      p = go(m)
      w = (p.primal, p.dual_eq)
      out.append((t(w[0] - z[0], w[1] - z[1]), rhs - S(*z)))
      z = w
    return out
  for start in (False, True):
    ps.append(Problem('refined' + ('_started' if start else ''),
                      dict(q=Sp(3), c=V2, A=Sp(1, 2), b=Sp(1), x0=V2, y0=Sp(1)),
                      lambda start=start, **i: f_ref(start=start, **i), lambda s, i, o: [
        (f'correction {k + 1} solves the regularised system of the residual', s.eq(*o[k])) for k in range(2)],
                      assume=lambda s, i: s.And([V.rle(V.ZERO, i['q'][0]), V.rle(V.ZERO, i['q'][2]),
                                                 V.rle(V.rmul(i['q'][1], i['q'][1]), V.rmul(i['q'][0], i['q'][2]))]),
                      timeout=60, bound='2 corrections'))

  # Iterative refinement.
  def f_upd(bar, mv, A, B, b, x, r, u, u0, it, nm, nb, ns):
    log = []
    k = dict(matvec_A=lambda A, x: A.T @ x) if mv else {}
    if bar:
      k['matvec_A_bar'] = (lambda B, x: 2 * (B @ x))
    sol = IterativeRefinement(solve=oracle([u], log), jit=False, **k)
    args = (A, b, B) if bar else (A, b)
    st = sol.init_state(x, *args)
    start = st
    st = st._replace(iter_num=it, target_residuals=r, init=u0, num_matvec_eval=nm, num_matvec_bar_eval=nb, num_solve_eval=ns)
    q, n = sol.update(x, st, *args)
    M = A.T if mv else A
    Mb = 2 * B if bar else M
    e = b - M @ (x + u)
    return dict(q=q, w=x + u, n=n, res=log[0][0], want=Mb @ u - r, init=log[0][1], e=e, sq=e @ e, it1=it + 1, nm=nm + 1, nb=nb + 1,
                ns=ns + 1, start=start, r0=b - M @ x, opt=sol.optimality_fun(x, *args), err=sol.l2_optimality_error(x, *args))
  I = Sp(kind='i', lo=0, hi=50)
  for bar, mv in ((False, False), (True, False), (False, True), (True, True)):
    ps.append(Problem('update' + ('_bar' if bar else '') + ('_matvec' if mv else ''),
                      dict(A=Sp(2, 2), B=Sp(2, 2), b=V2, x=V2, r=V2, u=V2, u0=V2, it=I, nm=I, nb=I, ns=I),
                      lambda bar=bar, mv=mv, **i: f_upd(bar, mv, **i), lambda s, i, o: [
        ('correction solves the approximate system of the residual', s.eq(o['res'], o['want'])),
        ('inner start', s.eq(o['init'], i['u0'])), ('correction is added', s.eq(o['q'], o['w'])),
        ('residual', s.eq(o['n'].target_residuals, o['e'])), ('next inner start is zero', s.eq(o['n'].init, R0(2))),
        ('error', s.And(s.ge(sc(o['n'].error), 0), s.eq(sc(o['n'].error) * sc(o['n'].error), sc(o['sq'])))),
        ('counters', s.And(s.eq(o['n'].iter_num, o['it1']), s.eq(o['n'].num_matvec_eval, o['nm']),
                           s.eq(o['n'].num_matvec_bar_eval, o['nb']), s.eq(o['n'].num_solve_eval, o['ns']))),
        ('starts from the residual of the start', s.And(s.eq(o['start'].target_residuals, o['r0']), s.eq(o['start'].iter_num, 0),
                                                        sc(o['start'].error).pinf)),
        ('optimality_fun is the residual', s.eq(o['opt'], o['r0'])),
        ('l2_optimality_error', s.And(s.ge(sc(o['err']), 0), s.eq(sc(o['err']) * sc(o['err']), s.dot(o['r0'], o['r0']))))], live=True))

  def f_run(how, A, b, x):
    solve = ls.solve_lu if how == 'lu' else ls.solve_gmres
    inner = lambda mv, r, init=None: ls.solve_gmres(mv, r)
    if how == 'fun':
      q = solve_iterative_refinement(lambda v: A @ v, b, maxiter=1, solve=inner)
    elif how == 'fun_init':
      q = solve_iterative_refinement(lambda v: A @ v, b, init=x, maxiter=1, solve=inner)
    else:
      q, _ = IterativeRefinement(solve=inner, maxiter=1).run(x if how == 'start' else None, A, b)
    return A @ q
  for how in ('none', 'start', 'fun', 'fun_init'):
    ps.append(Problem('exact_' + how, dict(A=Sp(2, 2), b=V2, x=V2), lambda how=how, **i: f_run(how, **i), lambda s, i, o: [
        ('an exact inner solver is done after one step', s.eq(o, i['b']))], timeout=60,
                      assume=lambda s, i: s.Not(s.xeq(i['A'][0, 0] * i['A'][1, 1], i['A'][0, 1] * i['A'][1, 0]))))
  return ps
