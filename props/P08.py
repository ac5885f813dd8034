"""Implicit differentiation follows the implicit function theorem."""
from props.lib import *
import jaxopt
from jaxopt import implicit_diff as idf, prox, projection, objective
from symjax.uf import UF

FUNCTIONS = ['implicit_diff.{root_vjp,root_jvp,custom_root,custom_fixed_point}',
             'reverse-mode derivative of run of the solvers with implicit_diff=True']
ASSUMPTIONS = ['optimality functions are arbitrary smooth functions',
               'the linear solver given as solve= returns a solution of the system it is given',
               'for solvers: derivative = implicit function theorem applied to optimality_fun at the '
               'returned point (optimality_fun itself is P09)']

tm = jax.tree_util.tree_map


def oracle(u, log):
  """A linear solver that returns u and records A u - b."""
  def solve(matvec, b, **kw):
    log.append(tm(lambda p, q: p - q, matvec(u), b))
    return u
  return solve


def vjp_claim(tag=''):
  """A'u = -v and A dx + B t = 0 imply w.t = v.dx."""
  def claim(s, i, o):
    pre = s.And(s.xeq(s.flat(o['res']), 0), s.xeq(s.flat(o['lin']), 0))
    return [(tag + 'implicit derivative', s.implies(pre, s.eq(
        s.dot(o['w'], i['t']), s.dot(i['v'], i['dx']))))]
  return claim


def problems(tier):
  T = tier == 'thorough'
  ps = []

  def add(name, inputs, fn, claim, **kw):
    ps.append(Problem(name, inputs, fn, claim, **kw))

  F = UF('F', 4, (2,))
  x2 = dict(a=Sp(), b=Sp(1))

  def flatF(sol, th, ph):
    r = F(sol['a'], sol['b'], th, ph['z'])
    return dict(a=r[0], b=r[1:])
  common = dict(x=x2, th=Sp(), ph=dict(z=Sp(1)), u=x2, v=x2, dx=x2, t=(Sp(), dict(z=Sp(1))))

  def f_vjp(x, th, ph, u, v, dx, t):
    log = []
    w = idf.root_vjp(flatF, x, (th, ph), v, solve=oracle(u, log))
    lin = jax.jvp(flatF, (x, th, ph), (dx,) + t)[1]
    return dict(w=w, res=log[0], lin=lin)
  add('root_vjp', common, f_vjp, vjp_claim(), ufs=[F], bound='2 unknowns, 2 parameters, pytrees')

  def f_jvp(x, th, ph, dx, t):
    log = []
    out = idf.root_jvp(flatF, x, (th, ph), t, solve=oracle(dx, log))
    lin = jax.jvp(flatF, (x, th, ph), (dx,) + t)[1]
    return dict(out=out, res=log[0], lin=lin)
  add('root_jvp', {k: common[k] for k in ('x', 'th', 'ph', 'dx', 't')}, f_jvp,
      lambda s, i, o: [('system is A dx = -B t', s.eq(s.flat(o['res']), s.flat(o['lin']))),
                       ('returns the solution', s.eq(o['out'], i['dx']))],
      ufs=[F], bound='2 unknowns, 2 parameters, pytrees')

  # custom_root: argument order, keywords, aux, nested use
  def root_case(name, call, has_aux=False, fixed=False, th_only=False):
    def fn(x, th, ph, u, v, dx, t):
      log = []
      if fixed:
        deco = idf.custom_fixed_point(flatF, has_aux=has_aux, solve=oracle(u, log))
        G = lambda x, *a: tm(lambda p, q: p - q, flatF(x, *a), x)
      else:
        deco = idf.custom_root(flatF, has_aux=has_aux, solve=oracle(u, log))
        G = flatF

      @deco
      def solver(init, th, ph):
        del init
        sol = tm(lambda e: e * 1.0, jax.lax.stop_gradient(x))
        return (sol, (th * 2.0, ph)) if has_aux else sol
      init = tm(jnp.zeros_like, x)
      f = lambda init, th, ph: (call(solver, init, th, ph)[0] if has_aux
                                else call(solver, init, th, ph))
      y, vjp = jax.vjp(f, init, th, ph)
      w = vjp(v)
      lin = jax.jvp(G, (x, th, ph), (dx,) + t)[1]
      return dict(w=w[1:], w0=w[0], y=y, res=log[0], lin=lin)

    def claim(s, i, o):
      return vjp_claim()(s, i, o) + [
          ('value unchanged', s.eq(o['y'], i['x'])),
          ('no derivative in the initial point', s.eq(s.flat(o['w0']), 0))]
    add(name, common, fn, claim, ufs=[F], bound='2 unknowns, 2 parameters, pytrees')
  root_case('custom_root_positional', lambda f, i, a, b: f(i, a, b))
  root_case('custom_root_keyword', lambda f, i, a, b: f(i, th=a, ph=b))
  root_case('custom_root_keyword_swapped', lambda f, i, a, b: f(i, ph=b, th=a))
  root_case('custom_root_mixed', lambda f, i, a, b: f(i, a, ph=b))
  root_case('custom_root_aux', lambda f, i, a, b: f(i, a, b), has_aux=True)
  root_case('custom_root_jit', lambda f, i, a, b: f(i, a, b))
  root_case('custom_fixed_point', lambda f, i, a, b: f(i, a, b), fixed=True)
  root_case('custom_fixed_point_keyword_aux', lambda f, i, a, b: f(i, ph=b, th=a), fixed=True, has_aux=True)

  # catch-all keyword arguments, resolved through the reference signature
  def kwcase(order):
    def fn(x, th, ph, u, v, dx, t):
      log = []
      ref = lambda params, th, ph: None
      G = lambda params, *a: flatF(params, *a)

      @idf.custom_root(G, solve=oracle(u, log), reference_signature=ref)
      def solver(init, **kw):
        del init
        return tm(lambda e: e * 1.0, jax.lax.stop_gradient(x))
      init = tm(jnp.zeros_like, x)
      f = (lambda a, b: solver(init, th=a, ph=b)) if order else (lambda a, b: solver(init, ph=b, th=a))
      _, vjp = jax.vjp(f, th, ph)
      lin = jax.jvp(flatF, (x, th, ph), (dx,) + t)[1]
      return dict(w=vjp(v), res=log[0], lin=lin)
    add(f'custom_root_reference_signature_{order}', common, fn, vjp_claim(), ufs=[F],
        bound='2 unknowns, 2 parameters')
  kwcase(0)
  kwcase(1)

  # default linear solver, one unknown
  g1 = UF('g', 2, (1,))
  add('default_solve', dict(x=Sp(1), th=Sp(), v=Sp(1), t=Sp()),
      lambda x, th, v, t: dict(
          w=idf.root_vjp(lambda x, th: g1(x, th), x, (th,), v)[0],
          A=jax.jacobian(lambda x: g1(x, th))(x), B=jax.jacobian(lambda th: g1(x, th))(th)),
      lambda s, i, o: [('implicit derivative', s.implies(
          s.gt(s.abs(o['A'][0, 0]), Fraction(1, 10)),
          s.eq(sc(o['w']) * o['A'][0, 0], -i['v'][0] * o['B'][0])))],
      assume=lambda s, i: box_le(i['v'], 10), ufs=[g1], bound='1 unknown, 1 parameter', unwind=6,
      fork_select=True, allow_cut=True)

  # --- solvers: vjp of run(...) in the parameters of the problem
  J = jaxopt
  f = UF('f', 2)
  obj = lambda x, th: f(x, th)
  objk = lambda x, *, th: f(x, th)
  T1 = UF('T', 2, (1,))
  r2 = UF('r', 2, (2,))
  mg = UF('pg', 2, (1,))
  import optax
  S_ = {}
  S_['gradient_descent'] = (lambda **k: J.GradientDescent(obj, stepsize=0.5, **k), lambda th: (th,), [f])
  S_['proximal_gradient'] = (lambda **k: J.ProximalGradient(obj, prox=prox.prox_ridge, stepsize=0.5, **k),
                             lambda th: (0.5, th), [f])
  S_['projected_gradient'] = (lambda **k: J.ProjectedGradient(
      obj, projection=projection.projection_non_negative, stepsize=0.5, **k), lambda th: (None, th), [f])
  S_['bfgs'] = (lambda **k: J.BFGS(obj, stepsize=0.5, **k), lambda th: (th,), [f])
  S_['lbfgs'] = (lambda **k: J.LBFGS(obj, stepsize=0.5, history_size=1, **k), lambda th: (th,), [f])
  S_['nonlinear_cg'] = (lambda **k: J.NonlinearCG(obj, linesearch='backtracking', maxls=1, **k),
                        lambda th: (th,), [f])
  S_['polyak_sgd'] = (lambda **k: J.PolyakSGD(obj, **k), lambda th: (th,), [f])
  S_['armijo_sgd'] = (lambda **k: J.ArmijoSGD(obj, maxls=1, **k), lambda th: (th,), [f])
  S_['optax'] = (lambda **k: J.OptaxSolver(obj, opt=optax.sgd(0.5), **k), lambda th: (th,), [f])
  S_['fixed_point_iteration'] = (lambda **k: J.FixedPointIteration(lambda x, th: T1(x, th), **k),
                                 lambda th: (th,), [T1])
  S_['anderson'] = (lambda **k: J.AndersonAcceleration(lambda x, th: T1(x, th), history_size=2, ridge=0.5, **k),
                    lambda th: (th,), [T1])
  S_['anderson_wrapper'] = (lambda **k: J.AndersonWrapper(
      J.FixedPointIteration(lambda x, th: T1(x, th), maxiter=1), history_size=2, ridge=0.5,
      **{a: b for a, b in k.items() if a != 'maxiter'}), lambda th: (th,), [T1])
  S_['broyden'] = (lambda **k: J.Broyden(lambda x, th: T1(x, th), stepsize=0.5, history_size=1, **k),
                   lambda th: (th,), [T1])
  S_['gauss_newton'] = (lambda **k: J.GaussNewton(lambda x, th: r2(x, th), **k), lambda th: (th,), [r2])
  S_['levenberg_marquardt'] = (lambda **k: J.LevenbergMarquardt(
      lambda x, th: r2(x, th), solver='inv', materialize_jac=True, **k), lambda th: (th,), [r2])
  S_['mirror_descent'] = (lambda **k: J.MirrorDescent(
      obj, projection_grad=lambda x, g, t, h: mg(x, g), stepsize=0.5, **k), lambda th: (None, th), [f, mg])
  S_['lbfgsb'] = (lambda **k: J.LBFGSB(obj, stepsize=0.5, history_size=1, **k),
                  lambda th: ((-jnp.ones(1), jnp.ones(1)), th), [f])
  S_['block_cd'] = (lambda **k: J.BlockCoordinateDescent(
      objective.least_squares, block_prox=prox.prox_ridge, **k),
      lambda th: (0.5, (th.reshape(1, 1), jnp.ones(1))), [])
  S_['box_cd_qp'] = (lambda **k: J.BoxCDQP(**k),
                     lambda th: ((2.0 * jnp.ones((1, 1)), th.reshape(1)), (-jnp.ones(1), jnp.ones(1))), [])
  b1 = UF('h', 2)
  S_['bisection'] = (lambda **k: J.Bisection(lambda x, th: b1(x, th), lower=-1.0, upper=2.0,
                                             check_bracket=False, **k), lambda th: (th,), [b1])
  for name, (fac, args, ufs) in S_.items():
    def fn(x, th, u, v, dx, t, fac=fac, args=args, name=name):
      log = []
      if name == 'bisection':
        x, u, v, dx = x[0], u[0], v[0], dx[0]
        s = fac(maxiter=1, implicit_diff_solve=oracle(u, log))
        run = lambda th: s.run(None, *args(th)).params
      else:
        kw = dict(implicit_diff=True) if name in ('polyak_sgd', 'armijo_sgd', 'optax') else {}
        s = fac(maxiter=1, implicit_diff_solve=oracle(u, log), **kw)
        run = lambda th: s.run(x, *args(th)).params
      y, vjp = jax.vjp(run, th)
      w = vjp(v)
      opt = lambda x, th: s.optimality_fun(x, *args(th))
      lin = jax.jvp(opt, (y, th), (dx, t))[1]
      return dict(w=w[0], res=log[0], lin=lin)
    kw = dict(max_paths=10, allow_cut=True) if name == 'lbfgsb' else {}
    add('run_' + name, dict(x=Sp(1), th=Sp(), u=Sp(1), v=Sp(1), dx=Sp(1), t=Sp()), fn,
        (lambda s, i, o: vjp_claim()(s, i, o)), ufs=ufs, bound='maxiter=1, 1 unknown, 1 parameter', **kw)
  return ps
