"""run = initialise, then update until the stopping rule."""
from props.lib import *
import jaxopt
from jaxopt import prox, projection
from symjax.uf import UF

FUNCTIONS = ['IterativeSolver.run of every iterative solver (custom_root wrapper, first unrolled '
             'update, bounded loop, maxiter=0), StochasticSolver.run_iterator']
ASSUMPTIONS = ['objectives, residuals and maps are arbitrary smooth functions',
               'linear solves inside an update meet their contract (fresh solution of the system)']


def ref_run(solver, K, x, *a, **k):
  st = solver.init_state(x, *a, **k)
  p = x
  if K == 0:
    return p, st
  p, st = solver.update(p, st, *a, **k)
  for _ in range(K - 1):
    def go(c):
      q, t = solver.update(c[0], c[1], *a, **k)
      return jax.tree_util.tree_map(lambda u, v: jnp.asarray(u, jnp.asarray(v).dtype), (q, t), c)
    if solver.jit:
      p, st = jax.lax.cond(st.error > solver.tol, go, lambda c: c, (p, st))
    elif st.error > solver.tol:
      p, st = go((p, st))
  return p, st


def configs():
  """name -> (factory(**kw), init spec, extra inputs, call args from inputs)."""
  f1 = UF('f', 1)
  f2 = UF('f', 2)
  fp = UF('T', 1, (1,))
  rs = UF('r', 1, (2,))
  g = UF('g', 1, (1,))
  obj = lambda x: f1(x)
  objd = lambda x, data: f2(x, data)
  none = (Sp(1), {}, lambda i: ())
  C = {}
  J = jaxopt
  for ls in ('', '_bt'):
    for acc in (True, False):
      C[f'gradient_descent_{"acc" if acc else "plain"}{ls}'] = (
          lambda acc=acc, ls=ls, **k: J.GradientDescent(
              obj, acceleration=acc, stepsize=0.0 if ls else 0.5, maxls=2, **k),) + none + ([f1],)
  C['proximal_gradient'] = (lambda **k: J.ProximalGradient(obj, prox=prox.prox_lasso, stepsize=0.5, **k),
                            Sp(1), dict(l=Sp()), lambda i: (i['l'],), [f1])
  C['projected_gradient'] = (lambda **k: J.ProjectedGradient(
      obj, projection=projection.projection_non_negative, stepsize=0.5, **k),) + none + ([f1],)
  mg = UF('pg', 2, (1,))
  C['mirror_descent'] = (lambda **k: J.MirrorDescent(
      obj, projection_grad=lambda x, g, t, h: mg(x, g), stepsize=0.5, **k), Sp(1), {},
      lambda i: (None,), [f1, mg])
  C['fixed_point_iteration'] = (lambda **k: J.FixedPointIteration(lambda x: fp(x), **k),) + none + ([fp],)
  C['anderson'] = (lambda **k: J.AndersonAcceleration(lambda x: fp(x), history_size=2, ridge=0.5, **k),) \
      + none + ([fp],)
  C['gauss_newton'] = (lambda **k: J.GaussNewton(lambda x: rs(x), **k),) + none + ([rs],)
  C['levenberg_marquardt'] = (lambda **k: J.LevenbergMarquardt(lambda x: rs(x), solver='inv',
                                                              materialize_jac=True, **k),) + none + ([rs],)
  C['bfgs'] = (lambda **k: J.BFGS(obj, stepsize=0.5, **k),) + none + ([f1],)
  C['lbfgs'] = (lambda **k: J.LBFGS(obj, stepsize=0.5, history_size=2, **k),) + none + ([f1],)
  C['lbfgs_bt'] = (lambda **k: J.LBFGS(obj, linesearch='backtracking', maxls=1, history_size=1, **k),) \
      + none + ([f1],)
  C['nonlinear_cg'] = (lambda **k: J.NonlinearCG(obj, linesearch='backtracking', maxls=1, **k),) + none + ([f1],)
  C['broyden'] = (lambda **k: J.Broyden(lambda x: g(x), stepsize=0.5, history_size=1, **k),) + none + ([g],)
  C['polyak_sgd'] = (lambda **k: J.PolyakSGD(obj, **k),) + none + ([f1],)
  C['armijo_sgd'] = (lambda **k: J.ArmijoSGD(obj, maxls=1, **k),) + none + ([f1],)
  import optax
  C['optax'] = (lambda **k: J.OptaxSolver(obj, opt=optax.sgd(0.5, momentum=0.5), **k),) + none + ([f1],)
  C['box_cd_qp'] = (lambda **k: J.BoxCDQP(**k), Sp(1), dict(Q=Sp(1, 1), c=Sp(1)),
                    lambda i: ((i['Q'], i['c']), (jnp.zeros(1), jnp.ones(1))), [])
  C['lbfgsb'] = (lambda **k: J.LBFGSB(obj, stepsize=0.5, history_size=1, **k), Sp(1), {},
                 lambda i: ((jnp.zeros(1), jnp.ones(1)),), [f1])
  b = UF('h', 1)
  C['bisection'] = (lambda **k: J.Bisection(lambda x: b(x), lower=-1.0, upper=2.0,
                                            check_bracket=False, **k), None, dict(dummy=Sp()),
                    lambda i: (), [b])
  from jaxopt._src import objective as O
  C['block_cd'] = (lambda **k: J.BlockCoordinateDescent(
      O.least_squares, block_prox=prox.prox_lasso, **k), Sp(2), dict(X=Sp(1, 2), y=Sp(1)),
      lambda i: (0.5, (i['X'], i['y'])), [])
  return C


def make(name, K, opts, live=False, **pk):
  fac, x, extra, args, ufs = configs()[name]
  inputs = dict(extra)
  if x is not None:
    inputs['x'] = x

  def fn(**i):
    s = fac(maxiter=K, **opts)
    x0 = i.get('x')
    p, st = s.run(x0, *args(i))
    s2 = fac(maxiter=K, **dict(opts))
    q, rt = ref_run(s2, K, x0, *args(i))
    err = st.error if K else jnp.asarray(0.0)
    return dict(p=p if p is not None else (), st=st, q=q if q is not None else (), rt=rt, err=err,
                it=st.iter_num, tol=jnp.asarray(float(s.tol)))

  def claim(s, i, o):
    n = sc(o['it'])
    cl = [('parameters', s.eq(o['p'], o['q'])), ('state', s.eq(o['st'], o['rt'])),
          ('iteration count', s.And(s.le(n, K), s.ge(n, min(K, 1))))]
    if K:
      cl.append(('stops early only below tol', s.Or(
          s.eq(n, K), s.Not(s.gt(sc(o['err']), sc(o['tol']))))))
    return cl
  tag = ''.join(f'_{k}{v}' for k, v in opts.items() if k in ('jit', 'unroll', 'implicit_diff'))
  return Problem(f'{name}_maxiter{K}{tag}', inputs, fn, claim, ufs=ufs, live=live,
                 bound=f'maxiter={K}, dimension 1', timeout=30, **pk)


def iterator(name, n, jit):
  f2 = UF('f', 2)
  objd = lambda x, data: f2(x, data)
  import optax
  fac = dict(polyak_sgd=lambda **k: jaxopt.PolyakSGD(objd, **k),
             armijo_sgd=lambda **k: jaxopt.ArmijoSGD(objd, maxls=1, **k),
             optax=lambda **k: jaxopt.OptaxSolver(objd, opt=optax.sgd(0.5, momentum=0.5), **k))[name]

  def fn(x, d):
    s = fac(maxiter=2, jit=jit)
    p, st = s.run_iterator(x, iter([d[k] for k in range(n)]))
    s2 = fac(maxiter=2, jit=jit)
    q, rt = x, s2.init_state(x, data=d[0])
    for k in range(1, min(n, 3)):
      q, rt = s2.update(q, rt, data=d[k])
    return p, st, q, rt
  return Problem(f'iterator_{name}_{n}_jit{int(jit)}', dict(x=Sp(1), d=Sp(n, 1)), fn,
                 lambda s, i, o: [('parameters', s.eq(o[0], o[2])), ('state', s.eq(o[1], o[3]))],
                 ufs=[f2], live=not jit, bound=f'{n} batches, maxiter=2', timeout=30)


def problems(tier):
  T = tier == 'thorough'
  ps = []
  for name in configs():
    lim = dict(max_paths=5, allow_cut=True) if name == 'lbfgsb' and not T else {}
    for K in ((0, 1, 2, 3) if T else (0, 2)):
      if K == 0 and name == 'bisection':
        continue    # init_params=None: there is no initial point to return
      ps.append(make(name, K, {}, **(lim if K > 1 else {})))
    ps.append(make(name, 2, dict(implicit_diff=False) if name not in ('bisection',)
                   else dict(unroll=True), **lim))
    ps.append(make(name, 2, dict(jit=False), live=True, **lim))
  for name in ('polyak_sgd', 'armijo_sgd', 'optax'):
    ps += [iterator(name, 2, True), iterator(name, 4, True), iterator(name, 3, False)]
  return ps
