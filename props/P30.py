"""vmap of a run equals the runs of the examples."""
from props.lib import *
from props.P07 import configs
import jaxopt
from jaxopt import projection as PJ, prox as PX, loss as LS
from symjax.uf import UF

FUNCTIONS = ['run of every jittable iterative solver and line search under jax.vmap',
             'projection.*, prox.*, loss.* and isotonic regression under jax.vmap']
ASSUMPTIONS = ['objectives, residuals and maps are arbitrary smooth functions',
               'solvers whose update solves a linear system (GaussNewton, LevenbergMarquardt) and L-BFGS-B are outside']
SKIP = ('lbfgsb', 'gauss_newton', 'levenberg_marquardt')
SLOW = ('gradient_descent_acc_bt', 'gradient_descent_plain_bt', 'armijo_sgd', 'lbfgs_bt', 'lbfgs', 'anderson', 'broyden')

tm = jax.tree_util.tree_map


def two(t):
  return tm(lambda s: Sp(2, *s.shape, kind=s.kind, lo=s.lo, hi=s.hi), t, is_leaf=lambda s: isinstance(s, Sp))


def vm(name, ins, run, ufs=(), **k):
  """run(i) -> pytree; vmapped over two examples against two single calls."""
  def fn(**i):
    return jax.vmap(run)(i), [run(tm(lambda a: a[e], i)) for e in range(2)]

  def claim(s, i, o):
    return [(f'example {e}', s.eq(tm(lambda l: l[e], o[0]), o[1][e])) for e in range(2)]
  k.setdefault('bound', '2 examples')
  return Problem(name, {n: two(v) for n, v in ins.items()}, fn, claim, ufs=list(ufs), timeout=30, **k)


def problems(tier):
  T = tier == 'thorough'
  ps = []
  for name, (fac, x, extra, args, ufs) in configs().items():
    if name in SKIP:
      continue
    ins = dict(extra)
    if x is not None:
      ins['x'] = x
    slow = name in SLOW
    if name == 'lbfgs' and not T:
      continue
    for K in ((1, 2, 3) if T and not slow else (2,)):
      def run(i, fac=fac, args=args, K=K):
        p, st = fac(maxiter=K).run(i.get('x'), *args(i))
        return (p if p is not None else (), st)
      lim = {} if T or name not in SLOW[:3] else dict(max_paths=12, allow_cut=True)
      ps.append(vm(f'{name}_maxiter{K}', ins, run, ufs, bound=f'2 examples, maxiter={K}, dimension 1', **lim))
  f1 = UF('f', 1)
  obj = lambda x: f1(x)
  ls = dict(
      backtracking=lambda **k: jaxopt.BacktrackingLineSearch(obj, maxiter=2, **k),
      strong=lambda **k: jaxopt.BacktrackingLineSearch(obj, maxiter=2, condition='strong-wolfe', **k))
  for n, fac in ls.items():
    def run(i, fac=fac):
      p, st = fac(max_stepsize=2.0).run(i['t'], i['x'], descent_direction=i['d'])
      return p, st
    ps.append(vm('linesearch_' + n, dict(t=Sp(lo=0, hi=2), x=Sp(1), d=Sp(1)), run, [f1],
                 **({} if T else dict(max_paths=12, allow_cut=True))))
  # maps, one row per example
  n = 3 if T else 2
  P_ = dict(
      simplex=lambda x, a: PJ.projection_simplex(x, jnp.abs(a) + 1.0),
      l1_ball=lambda x, a: PJ.projection_l1_ball(x, jnp.abs(a) + 1.0),
      l1_sphere=lambda x, a: PJ.projection_l1_sphere(x, jnp.abs(a) + 1.0),
      l2_ball=lambda x, a: PJ.projection_l2_ball(x, jnp.abs(a) + 1.0),
      box=lambda x, a: PJ.projection_box(x, (a, a + 1.0)),
      hyperplane=lambda x, a: PJ.projection_hyperplane(x, (jnp.ones(n), a)),
      halfspace=lambda x, a: PJ.projection_halfspace(x, (jnp.ones(n), a)),
      prox_lasso=lambda x, a: PX.prox_lasso(x, jnp.abs(a)),
      prox_non_negative_lasso=lambda x, a: PX.prox_non_negative_lasso(x, jnp.abs(a)),
      prox_elastic_net=lambda x, a: PX.prox_elastic_net(x, (jnp.abs(a), 0.5)),
      prox_ridge=lambda x, a: PX.prox_ridge(x, jnp.abs(a)),
      prox_non_negative_ridge=lambda x, a: PX.prox_non_negative_ridge(x, jnp.abs(a)),
      multiclass_sparsemax=lambda x, a: LS.multiclass_sparsemax_loss(0, x * a),
      multiclass_logistic=lambda x, a: LS.multiclass_logistic_loss(1, x + a),
      huber=lambda x, a: LS.huber_loss(x[0], a),
      binary_hinge=lambda x, a: LS.binary_hinge_loss(1, x[0] * a),
      binary_sparsemax=lambda x, a: LS.binary_sparsemax_loss(1, x[0] + a),
  )
  for name, f in P_.items():
    ps.append(vm('map_' + name, dict(x=Sp(n), a=Sp()), lambda i, f=f: f(i['x'], i['a']),
                 bound=f'2 examples, dimension {n}'))
  return ps
