"""Pytree transparency: a run on a pytree is the run on the raveled vector."""
from props.lib import *
import jaxopt
from jaxopt import prox, projection
from jax.flatten_util import ravel_pytree
from jaxopt._src.zoom_linesearch import ZoomLineSearch
from symjax.uf import UF

FUNCTIONS = ['init_state, update and optimality_fun of every solver on dict / nested parameters and on the raveled vector',
             'prox, projections and line searches on pytrees']
ASSUMPTIONS = ['objectives, residuals and maps are arbitrary smooth functions of two variables']

rv = lambda t: ravel_pytree(t)[0]
tree = lambda v: dict(a=v[:1], b=(v[1],))


def table():
  """name -> (factory(fun of a pytree), output dim of fun (0 = scalar), call args)."""
  import optax
  J = jaxopt
  h = dict(stepsize=0.5)
  bt = dict(linesearch='backtracking', maxls=1)
  T = {}
  T['gradient_descent_plain'] = (lambda f: J.GradientDescent(f, acceleration=False, **h), 0, None)
  T['gradient_descent_acc'] = (lambda f: J.GradientDescent(f, **h), 0, None)
  T['gradient_descent_bt'] = (lambda f: J.GradientDescent(f, acceleration=False, maxls=1), 0, None)
  T['proximal_gradient'] = (lambda f: J.ProximalGradient(f, prox=prox.prox_lasso, **h), 0, lambda wrap: (wrap(jnp.array([.5, .25])),))
  T['projected_gradient'] = (lambda f: J.ProjectedGradient(f, projection=projection.projection_box, **h), 0,
                             lambda wrap: ((wrap(jnp.zeros(2)), wrap(jnp.array([1., 2.]))),))
  T['projected_gradient_l2'] = (lambda f: J.ProjectedGradient(f, projection=projection.projection_l2_ball, **h), 0,
                                lambda wrap: (2.0,))
  T['mirror_descent'] = (lambda f: J.MirrorDescent(f, projection_grad=lambda x, g, t, hp: jax.tree_util.tree_map(
      lambda u, v: u - t * v, x, g), **h), 0, lambda wrap: (None,))
  T['polyak_sgd'] = (lambda f: J.PolyakSGD(f, momentum=0.5), 0, None)
  T['armijo_sgd'] = (lambda f: J.ArmijoSGD(f, maxls=1, momentum=0.5), 0, None)
  T['optax'] = (lambda f: J.OptaxSolver(f, opt=optax.sgd(0.5, momentum=0.5)), 0, None)
  T['bfgs'] = (lambda f: J.BFGS(f, **h), 0, None)
  T['lbfgs'] = (lambda f: J.LBFGS(f, history_size=1, **h), 0, None)
  T['lbfgs_bt'] = (lambda f: J.LBFGS(f, history_size=1, **bt), 0, None)
  T['lbfgsb'] = (lambda f: J.LBFGSB(f, history_size=1, **h), 0,
                 lambda wrap: ((wrap(jnp.zeros(2)), wrap(jnp.array([1., 2.]))),))
  T['nonlinear_cg'] = (lambda f: J.NonlinearCG(f, **bt), 0, None)
  T['fixed_point'] = (lambda f: J.FixedPointIteration(f), -1, None)
  T['anderson'] = (lambda f: J.AndersonAcceleration(f, history_size=2, ridge=0.5), -1, None)
  T['broyden'] = (lambda f: J.Broyden(f, history_size=1, **h), -1, None)
  T['broyden_bt'] = (lambda f: J.Broyden(f, history_size=1, **bt), -1, None)
  return T


def make(name, steps, **k):
  fac, kind, margs = table()[name]
  f = UF('f', 2) if kind == 0 else UF('g', 2, (2,))

  def fn(x):
    o = []
    for wrap in (lambda v: v, tree):
      if kind == -1:
        fun = lambda p, *a: wrap(f(rv(p)))
      else:
        fun = lambda p, *a: f(rv(p))
      s = fac(fun)
      args = margs(wrap) if margs else ()
      p = wrap(x)
      st = s.init_state(p, *args)
      for _ in range(steps):
        p, st = s.update(p, st, *args)
      opt = s.optimality_fun(p, *args)
      fields = {n: rv(getattr(st, n)) for n in ('error', 'value', 'stepsize', 'iter_num', 'num_fun_eval', 'num_grad_eval', 't', 'theta')
                if getattr(st, n, None) is not None}
      o.append(dict(p=rv(p), opt=rv(opt), st=fields))
    return o

  def claim(s, i, o):
    return [('parameters', s.eq(o[0]['p'], o[1]['p'])), ('optimality', s.eq(o[0]['opt'], o[1]['opt'])),
            ('state', s.eq(o[0]['st'], o[1]['st']))]
  return Problem(f'{name}_{steps}', dict(x=Sp(2)), fn, claim, ufs=[f], timeout=30, bound=f'{steps} updates, two leaves', **k)


def search(name):
  fac = dict(backtracking=lambda f: jaxopt.BacktrackingLineSearch(f, maxiter=2),
             strong=lambda f: jaxopt.BacktrackingLineSearch(f, maxiter=2, condition='strong-wolfe'),
             zoom=lambda f: ZoomLineSearch(f, maxiter=1))[name]
  f = UF('f', 2)

  def fn(x, d):
    o = []
    for wrap in (lambda v: v, tree):
      t, st = fac(lambda p: f(rv(p))).run(1.0, wrap(x), descent_direction=wrap(d))
      o.append(dict(t=t, p=rv(st.params), g=rv(st.grad), fail=st.failed, done=st.done, it=st.iter_num, err=st.error))
    return o
  return Problem(f'linesearch_{name}', dict(x=Sp(2), d=Sp(2)), fn,
                 lambda s, i, o: [(k, s.eq(o[0][k], o[1][k])) for k in o[0]], ufs=[f], timeout=30,
                 bound='two leaves', max_paths=6, allow_cut=True)


def problems(tier):
  T = tier == 'thorough'
  ps = []
  for n in table():
    if n == 'lbfgsb':
      ps.append(make(n, 1, **({} if T else dict(max_paths=2, allow_cut=True))))
      continue
    for k in (1, 2, 3) if T else (2,):
      ps.append(make(n, k))
  ps += [search(n) for n in ('backtracking', 'strong', 'zoom')]
  return ps
