"""optimality_fun is zero exactly at the first-order optimality conditions."""
from props.lib import *
import warnings
import optax
import jaxopt
from jaxopt import prox, projection, objective as O, base
from jaxopt._src.implicit_diff import make_kkt_optimality_fun
from symjax.uf import UF

FUNCTIONS = ['optimality_fun and l2_optimality_error of every solver, '
             'implicit_diff.make_kkt_optimality_fun']
ASSUMPTIONS = ['objectives, residuals, constraint functions and maps are arbitrary smooth functions',
               'prox strengths >= 0, bounds ordered']

tm = jax.tree_util.tree_map


def problems(tier):
  T = tier == 'thorough'
  ps = []
  n1 = 2 if not T else 3

  def add(name, inputs, fn, claim, **kw):
    ps.append(Problem(name, inputs, fn, claim, **kw))

  f = UF('f', n1 + 2)
  r = UF('r', n1 + 2, (2,))
  mp = UF('T', n1 + 2, (n1 + 1,))
  X = dict(a=Sp(n1), b=Sp())
  obj = lambda x, d: f(*[x['a'][k] for k in range(n1)], x['b'], d)
  res = lambda x, d: r(*[x['a'][k] for k in range(n1)], x['b'], d)

  def mapf(x, d):
    y = mp(*[x['a'][k] for k in range(n1)], x['b'], d)
    return dict(a=y[:n1], b=y[n1])
  aux = lambda g: (lambda x, d: (g(x, d), dict(extra=d * 2)))
  vg = lambda g: (lambda x, d: jax.value_and_grad(g)(x, d))
  vga = lambda g: (lambda x, d: ((g(x, d), dict(extra=d)), jax.grad(g)(x, d)))
  grads = dict(
      gradient_descent=jaxopt.GradientDescent, bfgs=jaxopt.BFGS, lbfgs=jaxopt.LBFGS,
      nonlinear_cg=jaxopt.NonlinearCG, polyak_sgd=jaxopt.PolyakSGD, armijo_sgd=jaxopt.ArmijoSGD,
      optax=lambda fun, **k: jaxopt.OptaxSolver(fun, opt=optax.sgd(0.1), **k),
      scipy_minimize=lambda fun, **k: jaxopt.ScipyMinimize(fun=fun, **k),
      lbfgsb_unbounded=lambda fun, **k: jaxopt.LBFGSB(fun, **k))

  def err_claims(s, e, parts):
    return [('l2_optimality_error = norm', s.And(s.ge(sc(e), 0),
                                                 s.eq(s.sq(sc(e)), s.dot(parts, parts))))]
  D = dict(x=X, d=Sp())
  for nm, cls in grads.items():
    vs = [('', lambda: cls(obj)), ('_aux', lambda: cls(aux(obj), has_aux=True)),
          ('_value_and_grad', lambda: cls(vg(obj), value_and_grad=True)),
          ('_value_and_grad_aux', lambda: cls(vga(obj), value_and_grad=True, has_aux=True))]
    for tag, mk in vs:
      def fn(x, d, cls=cls, tag=tag, nm=nm):
        k = {}
        fun = obj
        if tag == '_aux':
          fun, k = aux(obj), dict(has_aux=True)
        elif tag == '_value_and_grad':
          fun, k = vg(obj), dict(value_and_grad=True)
        elif tag == '_value_and_grad_aux':
          fun, k = vga(obj), dict(value_and_grad=True, has_aux=True)
        sv = cls(fun, **k)
        pre = (None,) if nm == 'lbfgsb_unbounded' else ()
        return (sv.optimality_fun(x, *pre, d), jax.grad(obj)(x, d),
                sv.l2_optimality_error(x, *pre, d=d))
      add(nm + tag, D, fn, lambda s, i, o: [('is the gradient', s.eq(o[0], o[1]))]
          + err_claims(s, o[2], o[1]), ufs=[f], bound=f'{n1 + 1} coordinates in a pytree')

  # residual solvers
  for nm, cls, rf in (('gauss_newton', jaxopt.GaussNewton, res),
                      ('levenberg_marquardt', jaxopt.LevenbergMarquardt, res)):
    for ha in (False, True):
      def fn(x, d, cls=cls, ha=ha):
        sv = cls(aux(res) if ha else res, has_aux=ha)
        return (sv.optimality_fun(x, d), jax.grad(lambda x: 0.5 * jnp.sum(res(x, d) ** 2))(x),
                sv.l2_optimality_error(x, d=d))
      add(nm + ('_aux' if ha else ''), D, fn, lambda s, i, o: [('is J^T r', s.eq(o[0], o[1]))]
          + err_claims(s, o[2], o[1]), ufs=[r], bound='2 residuals')
  from jaxopt._src.scipy_wrappers import LS_RHO_FUNS
  for loss in LS_RHO_FUNS:
    def fn(x, d, loss=loss):
      sv = jaxopt.ScipyLeastSquares(fun=res, loss=loss)
      z = res(x, d)
      rho1 = dict(linear=lambda z: 1.0 + 0 * z, soft_l1=lambda z: 1 / jnp.sqrt(1 + z),
                  huber=lambda z: jnp.where(z <= 1, 1.0, 1 / jnp.sqrt(jnp.where(z <= 1, 1.0, z))),
                  cauchy=lambda z: 1 / (1 + z), arctan=lambda z: 1 / (1 + z * z))[loss]
      w = jax.vjp(lambda x: res(x, d), x)[1](rho1(z * z) * z)[0]
      return sv.optimality_fun(x, d), w, sv.l2_optimality_error(x, d)
    add(f'scipy_least_squares_{loss}', D, fn, lambda s, i, o: [
        ('zero exactly at stationary points', s.And(
            [s.eq(R_(2) * a, b) for a, b in zip(flat(o[0]), flat(o[1]))]))],
        ufs=[r], bound='2 residuals, mean of 2 losses', timeout=30)

  # fixed points and roots
  fps = dict(fixed_point_iteration=jaxopt.FixedPointIteration,
             anderson=lambda g, **k: jaxopt.AndersonAcceleration(g, history_size=2, **k))
  for nm, cls in fps.items():
    for ha in (False, True):
      def fn(x, d, cls=cls, ha=ha):
        sv = cls(aux(mapf) if ha else mapf, has_aux=ha)
        return sv.optimality_fun(x, d), mapf(x, d), x, sv.l2_optimality_error(x, d=d)
      add(nm + ('_aux' if ha else ''), D, fn, lambda s, i, o: [
          ('is T(x) - x', s.eq(o[0], [a - b for a, b in zip(flat(o[1]), flat(o[2]))])
           if False else s.And([s.eq(c, a - b) for c, a, b in
                                zip(flat(o[0]), flat(o[1]), flat(o[2]))]))]
          + err_claims(s, o[3], o[0]), ufs=[mp], bound=f'{n1 + 1} coordinates')
  def f_aw(x, d):
    sv = jaxopt.AndersonWrapper(jaxopt.GradientDescent(obj), history_size=2)
    return sv.optimality_fun(x, d), jax.grad(obj)(x, d), sv.l2_optimality_error(x, d)
  add('anderson_wrapper', D, f_aw, lambda s, i, o: [('is the wrapped solver\'s', s.eq(o[0], o[1]))]
      + err_claims(s, o[2], o[1]), ufs=[f])
  for ha in (False, True):
    def fn(x, d, ha=ha):
      sv = jaxopt.Broyden(aux(mapf) if ha else mapf, has_aux=ha)
      return sv.optimality_fun(x, d), mapf(x, d), sv.l2_optimality_error(x, d=d)
    add('broyden' + ('_aux' if ha else ''), D, fn, lambda s, i, o: [
        ('is the function', s.eq(o[0], o[1]))] + err_claims(s, o[2], o[1]), ufs=[mp])

  # proximal and projected methods: zero iff the composite first-order conditions
  def lasso_stat(s, x, g, l):
    c = []
    for a, b, w in zip(flat(x), flat(g), flat(l)):
      c.append(s.And(Implies(V.rlt(V.ZERO, a), V.veq((b + w).v, V.F0)),
                     Implies(V.rlt(a, V.ZERO), V.veq((b - w).v, V.F0)),
                     V.rle(b, w), V.rle(-w, b)))
    return s.And(c)

  def box_stat(s, x, g, lo, up):
    c = []
    for a, b, l, u in zip(flat(x), flat(g), flat(lo), flat(up)):
      c.append(s.And(V.rle(l, a), V.rle(a, u),
                     Implies(V.rlt(l, a), V.rle(b, V.ZERO)), Implies(V.rlt(a, u), V.rle(V.ZERO, b))))
    return s.And(c)

  def iff_claims(stat):
    def claim(s, i, o):
      st = stat(s, i, o)
      return [('zero at every stationary point', s.implies(st, s.eq(flat(o['opt']), 0))),
              ('non-zero elsewhere', s.implies(s.xeq(flat(o['opt']), 0), st))
              ] + err_claims(s, o['err'], o['opt'])
    return claim
  for accel in (True, False):
    def fn(x, d, l, accel=accel):
      sv = jaxopt.ProximalGradient(obj, prox=prox.prox_lasso, acceleration=accel)
      return dict(opt=sv.optimality_fun(x, l, d), g=jax.grad(obj)(x, d),
                  err=sv.l2_optimality_error(x, l, d=d))
    add(f'proximal_gradient_lasso{int(accel)}', dict(D, l=dict(a=Sp(n1), b=Sp())), fn,
        iff_claims(lambda s, i, o: lasso_stat(s, i['x'], o['g'], i['l'])), ufs=[f],
        assume=lambda s, i: s.And([s.xle(0, e) for e in flat(i['l'])]), bound=f'{n1 + 1} coordinates')
  bx = dict(D, lo=X, up=X)
  ordered = lambda s, i: s.And([s.xle(a, b) for a, b in zip(flat(i['lo']), flat(i['up']))])
  box_solvers = dict(
      projected_gradient=lambda fun, **k: jaxopt.ProjectedGradient(
          fun, projection=projection.projection_box, **k),
      lbfgsb=lambda fun, **k: jaxopt.LBFGSB(fun, **k),
      scipy_bounded_minimize=lambda fun, **k: jaxopt.ScipyBoundedMinimize(fun=fun, **k),
      mirror_descent=lambda fun, **k: jaxopt.MirrorDescent(stepsize=1.0, fun=fun,
          projection_grad=lambda x, g, t, h: projection.projection_box(
              tm(lambda a, b: a - t * b, x, g), h), **k))
  for nm, cls in box_solvers.items():
    for ha in (False, True):
      def fn(x, d, lo, up, cls=cls, ha=ha):
        sv = cls(aux(obj) if ha else obj, has_aux=ha)
        return dict(opt=sv.optimality_fun(x, (lo, up), d), g=jax.grad(obj)(x, d),
                    err=sv.l2_optimality_error(x, (lo, up), d=d))
      add(f'{nm}_box' + ('_aux' if ha else ''), bx, fn,
          iff_claims(lambda s, i, o: box_stat(s, i['x'], o['g'], i['lo'], i['up'])), ufs=[f],
          assume=ordered, bound=f'{n1 + 1} coordinates')

  def f_sbls(x, d, lo, up):
    sv = jaxopt.ScipyBoundedLeastSquares(fun=res)
    return dict(opt=sv.optimality_fun(x, (lo, up), d),
                g=jax.grad(lambda x: 0.5 * jnp.sum(res(x, d) ** 2))(x),
                err=sv.l2_optimality_error(x, (lo, up), d))
  add('scipy_bounded_least_squares_box', bx, f_sbls,
      iff_claims(lambda s, i, o: box_stat(s, i['x'], o['g'], i['lo'], i['up'])), ufs=[r],
      assume=ordered, bound='2 residuals')

  def f_cd(Q, c, x, l, u):
    sv = jaxopt.BoxCDQP()
    return dict(opt=sv.optimality_fun(x, (Q, c), (l, u)), g=Q @ x + c,
                err=sv.l2_optimality_error(x, (Q, c), (l, u)))
  add('box_cd_qp', dict(Q=Sp(2, 2), c=Sp(2), x=Sp(2), l=Sp(2), u=Sp(2)), f_cd,
      iff_claims(lambda s, i, o: box_stat(s, i['x'], o['g'], i['l'], i['u'])),
      assume=lambda s, i: s.And([s.xle(a, b) for a, b in zip(i['l'], i['u'])]), bound='2 variables')

  def f_bcd(X, y, x, l):
    sv = jaxopt.BlockCoordinateDescent(O.least_squares, block_prox=prox.prox_lasso)
    return dict(opt=sv.optimality_fun(x, l, (X, y)), g=X.T @ (X @ x - y) / 2,
                err=sv.l2_optimality_error(x, l, (X, y)))
  add('block_cd_lasso', dict(X=Sp(2, 2), y=Sp(2), x=Sp(2), l=Sp()), f_bcd,
      iff_claims(lambda s, i, o: lasso_stat(s, i['x'], o['g'], [sc(i['l'])] * 2)),
      assume=lambda s, i: s.xle(0, sc(i['l'])), bound='2 samples, 2 coordinates', timeout=60)

  # KKT conditions
  fo, fe, fi = UF('fo', 3), UF('fe', 3, (2,)), UF('fi', 3)
  xs = dict(a=Sp(), b=Sp(1))
  ob = lambda x, th: fo(x['a'], x['b'][0], th)
  eq = lambda x, th: fe(x['a'], x['b'][0], th)
  iq = lambda x, th: dict(q=fi(x['a'], x['b'][0], th))

  def f_kkt(x, y, z, to, te, ti, which):
    fun = make_kkt_optimality_fun(ob, eq, iq) if 'i' in which else make_kkt_optimality_fun(ob, eq)
    y_, z_ = (y if 'e' in which else None), (z if 'i' in which else None)
    out = fun((x, y_, z_), to, te, ti)
    L = jax.grad(ob)(x, to)
    if 'e' in which:
      L = tm(lambda p, q: p + q, L, jax.grad(lambda x: jnp.vdot(eq(x, te), y))(x))
    if 'i' in which:
      L = tm(lambda p, q: p + q, L, jax.grad(lambda x: iq(x, ti)['q'] * z['q'])(x))
    ref = [L]
    got = [out[0]]
    if 'e' in which:
      ref.append(eq(x, te)), got.append(out[1])
    if 'i' in which:
      ref.append(iq(x, ti)['q'] * z['q']), got.append(out[2]['q'])
    return got, ref, jnp.asarray(float((out[1] is None) + 2 * (out[2] is None)))
  for which in ('', 'e', 'i', 'ei'):
    add('kkt_' + (which or 'unconstrained'),
        dict(x=xs, y=Sp(2), z=dict(q=Sp()), to=Sp(), te=Sp(), ti=Sp()),
        lambda which=which, **k: f_kkt(which=which, **k),
        lambda s, i, o, which=which: [
            ('stationarity, feasibility, complementary slackness', s.eq(o[0], o[1])),
            ('None for absent blocks', s.eq(sc(o[2]), ('e' not in which) + 2 * ('i' not in which)))],
        ufs=[fo, fe, fi], bound='2 primal, 2 equality, 1 inequality')

  # QP solvers
  def f_eqqp(Q, c, A, b, x, y):
    sv = jaxopt.EqualityConstrainedQP()
    p = base.KKTSolution(x, y, None)
    o = sv.optimality_fun(p, (Q, c), (A, b))
    return ((o[0], o[1]), (0.5 * (Q + Q.T) @ x + c + A.T @ y, A @ x - b),
            sv.l2_optimality_error(p, (Q, c), (A, b)))
  qp = dict(Q=Sp(2, 2), c=Sp(2), A=Sp(1, 2), b=Sp(1), x=Sp(2), y=Sp(1))
  two = lambda s, i, o: [('KKT residuals', s.eq(o[0], o[1]))] + err_claims(s, o[2], o[1])
  add('eq_qp', qp, f_eqqp, two, bound='2 variables, 1 constraint')

  def f_eqqp_mv(Q, c, A, b, x, y):
    sv = jaxopt.EqualityConstrainedQP(matvec_Q=lambda M, v: 2 * (M @ v), matvec_A=lambda M, v: M.T @ v)
    p = base.KKTSolution(x, y, None)
    At = A.T
    o = sv.optimality_fun(p, (Q, c), (At, b))
    return ((o[0], o[1]), ((Q + Q.T) @ x + c + A.T @ y, A @ x - b),
            sv.l2_optimality_error(p, (Q, c), (At, b)))
  add('eq_qp_matvec', qp, f_eqqp_mv, two, bound='2 variables, 1 constraint')

  def f_eqqp_fun(Q, c, A, b, x, y):
    sv = jaxopt.EqualityConstrainedQP(fun=lambda x, P: 0.5 * x @ (P[0] @ x) + P[1] @ x + 3.0)
    p = base.KKTSolution(x, y, None)
    o = sv.optimality_fun(p, (Q, c), (A, b))
    return ((o[0], o[1]), (0.5 * (Q + Q.T) @ x + c + A.T @ y, A @ x - b),
            sv.l2_optimality_error(p, (Q, c), (A, b)))
  add('eq_qp_fun', qp, f_eqqp_fun, two, bound='2 variables, 1 constraint')

  def f_box(Q, c, A, l, u, x, z, y, mu, phi, inf=()):
    if 'l' in inf:
      l = l.at[0].set(-jnp.inf)
    if 'u' in inf:
      u = u.at[1].set(jnp.inf)
    sv = jaxopt.BoxOSQP(check_primal_dual_infeasability=False)
    p = base.KKTSolution((x, z), y, (mu, phi))
    o = sv.optimality_fun(p, (Q, c), A, (l, u))
    up = mu * (z - u) if 'u' not in inf else jnp.stack([mu[0] * (z[0] - u[0]), 0.0 * mu[1]])
    lw = phi * (l - z) if 'l' not in inf else jnp.stack([0.0 * phi[0], phi[1] * (l[1] - z[1])])
    # the multiplier of an infinite bound does not count in stationarity
    m2 = mu if 'u' not in inf else mu.at[1].set(0.0)
    p2 = phi if 'l' not in inf else phi.at[0].set(0.0)
    ref = (0.5 * (Q + Q.T) @ x + c + A.T @ y, -y + m2 - p2, A @ x - z, up, lw)
    return ((o[0][0], o[0][1], o[1], o[2][0], o[2][1]), ref,
            sv.l2_optimality_error(p, (Q, c), A, (l, u)), (mu, phi))
  bq = dict(Q=Sp(2, 2), c=Sp(2), A=Sp(2, 2), l=Sp(2), u=Sp(2), x=Sp(2), z=Sp(2), y=Sp(2),
            mu=Sp(2), phi=Sp(2))
  for inf in ('', 'l', 'u', 'lu'):
    def cl(s, i, o, inf=inf):
      a, b = list(o[0]), list(o[1])
      return [('KKT residuals', s.eq(a, b)),
              ('finite', s.finite(a))] + err_claims(s, o[2], a)
    add('box_osqp' + ('_inf_' + inf if inf else ''), bq, lambda inf=inf, **k: f_box(inf=inf, **k), cl,
        bound='2 variables, 2 constraints')

  def f_ir(A, b, x):
    sv = jaxopt.IterativeRefinement()
    return sv.optimality_fun(x, A, b), b - A @ x, sv.l2_optimality_error(x, A, b)
  add('iterative_refinement', dict(A=Sp(2, 2), b=Sp(2), x=Sp(2)), f_ir,
      lambda s, i, o: [('is b - Ax', s.eq(o[0], o[1]))] + err_claims(s, o[2], o[1]),
      bound='2 unknowns')
  return ps
