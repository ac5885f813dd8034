"""has_aux / value_and_grad change what is passed around, not what is computed."""
from props.lib import *
import jaxopt
from jaxopt import prox, projection
from jaxopt._src.zoom_linesearch import ZoomLineSearch
from symjax.uf import UF

FUNCTIONS = ['init_state, update, optimality_fun and run of every solver with has_aux and / or value_and_grad',
             'base._make_funs_with_aux', 'base._make_funs_without_aux']
ASSUMPTIONS = ['objectives, maps and auxiliary outputs are arbitrary smooth functions']


def table():
  """name -> (factory(fun, **kw), kind, has value_and_grad, where aux is evaluated)."""
  import optax
  J = jaxopt
  half = dict(stepsize=0.5)
  bt = dict(linesearch='backtracking', maxls=1)
  T = {}
  T['gradient_descent_plain'] = (lambda f, **k: J.GradientDescent(f, acceleration=False, **half, **k), (), 'vg', 'in')
  T['gradient_descent_acc'] = (lambda f, **k: J.GradientDescent(f, **half, **k), (), 'vg', None)
  T['gradient_descent_bt'] = (lambda f, **k: J.GradientDescent(f, acceleration=False, maxls=1, **k), (), 'vg', 'in')
  T['proximal_gradient'] = (lambda f, **k: J.ProximalGradient(f, prox=prox.prox_lasso, acceleration=False, **half, **k),
                            (0.5,), 'vg', 'in')
  T['projected_gradient'] = (lambda f, **k: J.ProjectedGradient(
      f, projection=projection.projection_non_negative, acceleration=False, **half, **k), (None,), 'vg', 'in')
  T['mirror_descent'] = (lambda f, **k: J.MirrorDescent(f, projection_grad=lambda x, g, t, h: x - t * g, **half, **k),
                         (None,), '', 'in')
  T['polyak_sgd'] = (lambda f, **k: J.PolyakSGD(f, **k), (), 'vg', 'in')
  T['armijo_sgd'] = (lambda f, **k: J.ArmijoSGD(f, maxls=1, **k), (), 'vg', 'in')
  T['optax'] = (lambda f, **k: J.OptaxSolver(f, opt=optax.sgd(0.5, momentum=0.5), **k), (), 'vg', 'in')
  T['bfgs'] = (lambda f, **k: J.BFGS(f, **half, **k), (), 'vgc', 'out')
  T['bfgs_bt'] = (lambda f, **k: J.BFGS(f, **bt, **k), (), 'vgc', 'out')
  T['lbfgs'] = (lambda f, **k: J.LBFGS(f, history_size=1, **half, **k), (), 'vgc', 'out')
  T['lbfgs_bt'] = (lambda f, **k: J.LBFGS(f, history_size=1, **bt, **k), (), 'vgc', 'out')
  T['lbfgs_zoom'] = (lambda f, **k: J.LBFGS(f, history_size=1, linesearch='zoom', maxls=1, **k), (), 'vgc', 'out')
  T['lbfgsb'] = (lambda f, **k: J.LBFGSB(f, history_size=1, **half, **k), ((jnp.zeros(1), jnp.ones(1)),), 'vgc', 'out')
  T['nonlinear_cg'] = (lambda f, **k: J.NonlinearCG(f, **bt, **k), (), 'vgc', 'out')
  return T


def minimiser(name, steps, **k):
  fac, args, modes, where = table()[name]
  f1, h = UF('f', 1), UF('h', 1)
  val = lambda x, *a: f1(x)
  aux = lambda x: dict(a=h(x))
  vg = lambda x, *a: jax.value_and_grad(val)(x)
  V_ = {'plain': (val, {}), 'aux': (lambda x, *a: (val(x), aux(x)), dict(has_aux=True))}
  if 'vg' in modes:
    V_['vg'] = (vg, dict(value_and_grad=True))
    V_['vg_aux'] = (lambda x, *a: ((val(x), aux(x)), vg(x)[1]), dict(value_and_grad=True, has_aux=True))
  if 'c' in modes:
    V_['callable'] = (val, dict(value_and_grad=vg))
    V_['callable_aux'] = (lambda x, *a: (val(x), aux(x)), dict(
        value_and_grad=lambda x, *a: ((val(x), aux(x)), vg(x)[1]), has_aux=True))

  def fn(x):
    o = {}
    for v, (fun, kw) in V_.items():
      s = fac(fun, maxiter=1, **kw)
      st = s.init_state(x, *args)
      if name == 'mirror_descent' and 'aux' in v:    # evaluates fun once more, for aux
        st = st._replace(num_fun_eval=st.num_fun_eval - 1)
      p, q = x, x
      i0 = st.aux if 'aux' in v else None
      for _ in range(steps):
        q = p
        p, st = s.update(p, st, *args)
      opt = s.optimality_fun(p, *args) if name != 'lbfgsb' else s.optimality_fun(p, args[0])
      rp, rs = s.run(x, *args)
      if name == 'mirror_descent' and 'aux' in v:
        rs = rs._replace(num_fun_eval=rs.num_fun_eval - 1)
      o[v] = dict(p=p, st=st._replace(aux=None), opt=opt, aux=st.aux, q=q, i0=i0, rp=rp,
                  rs=rs._replace(aux=None), raux=rs.aux, want0=aux(x), win=aux(q), wout=aux(p), rout=aux(rp))
    return o

  def claim(s, i, o):
    cl = []
    b = o['plain']
    for v, r in o.items():
      if v != 'plain':
        cl += [(f'{v}: {n}', s.eq(r[k], b[k])) for k, n in (
            ('p', 'parameters'), ('st', 'state'), ('opt', 'optimality'), ('rp', 'parameters of run'), ('rs', 'state of run'))]
      if 'aux' in v:
        cl.append((f'{v}: initial aux', s.eq(r['i0'], r['want0'])))
        if where == 'in':
          cl += [(f'{v}: aux at the point of evaluation', s.eq(r['aux'], r['win'])),
                 (f'{v}: aux of run', s.eq(r['raux'], r['want0']))]
        elif where == 'out':
          cl += [(f'{v}: aux at the new parameters', s.eq(r['aux'], r['wout'])),
                 (f'{v}: aux of run', s.eq(r['raux'], r['rout']))]
      else:
        cl.append((f'{v}: no aux', r['aux'] is None))
    return cl
  return Problem(f'{name}_{steps}', dict(x=Sp(1)), fn, claim, ufs=[f1, h], timeout=30, **k,
                 bound=f'{steps} updates, dimension 1')


def search(name, tier):
  J = jaxopt
  fac = dict(backtracking=lambda f, **k: J.BacktrackingLineSearch(f, maxiter=2, condition='strong-wolfe', **k),
             goldstein=lambda f, **k: J.BacktrackingLineSearch(f, maxiter=2, condition='goldstein', **k),
             zoom=lambda f, **k: ZoomLineSearch(f, maxiter=2, **k))[name]
  f1, h = UF('f', 1), UF('h', 1)
  val = lambda x: f1(x)
  aux = lambda x: dict(a=h(x))
  vg = jax.value_and_grad(val)
  V_ = {'plain': (val, {}), 'aux': (lambda x: (val(x), aux(x)), dict(has_aux=True)),
        'vg': (vg, dict(value_and_grad=True)),
        'vg_aux': (lambda x: ((val(x), aux(x)), vg(x)[1]), dict(value_and_grad=True, has_aux=True)),
        'callable': (val, dict(value_and_grad=vg)),
        'callable_aux': (lambda x: (val(x), aux(x)), dict(
            value_and_grad=lambda x: ((val(x), aux(x)), vg(x)[1]), has_aux=True))}

  def fn(x):
    o = {}
    for v, (fun, kw) in V_.items():
      t, st = fac(fun, **kw).run(1.0, x)
      o[v] = dict(t=t, st=st._replace(aux=None), aux=st.aux, want=aux(st.params))
    return o

  def claim(s, i, o):
    cl = []
    for v, r in o.items():
      if v != 'plain':
        cl += [(f'{v}: stepsize', s.eq(r['t'], o['plain']['t'])), (f'{v}: state', s.eq(r['st'], o['plain']['st']))]
      if 'aux' in v:
        cl.append((f'{v}: aux at the accepted point', s.eq(r['aux'], r['want'])))
      else:
        cl.append((f'{v}: no aux', r['aux'] is None))
    return cl
  lim = {} if tier == 'thorough' else dict(max_paths=6, allow_cut=True)
  return Problem('linesearch_' + name, dict(x=Sp(1)), fn, claim, ufs=[f1, h], timeout=30, bound='maxiter=2', **lim)


def maps():
  J = jaxopt
  T = {}
  T['fixed_point'] = (lambda f, **k: J.FixedPointIteration(f, **k), 1, False, 'in')
  T['anderson'] = (lambda f, **k: J.AndersonAcceleration(f, history_size=2, ridge=0.5, **k), 1, True, None)
  T['broyden'] = (lambda f, **k: J.Broyden(f, history_size=1, stepsize=0.5, **k), 1, True, 'out')
  T['broyden_bt'] = (lambda f, **k: J.Broyden(f, history_size=1, linesearch='backtracking', maxls=1, **k), 1, True, 'out')
  T['levenberg_marquardt'] = (lambda f, **k: J.LevenbergMarquardt(f, solver='inv', materialize_jac=True, **k),
                              2, True, None)
  T['bisection'] = (lambda f, **k: J.Bisection(lambda x: (jax.tree_util.tree_map(lambda l: l[0], f(x)) if k.get('has_aux')
                                                          else f(x)[0]),
                                               lower=-1.0, upper=2.0, check_bracket=False, **k), 1, False, None)
  return T


def mapper(name, steps):
  fac, m, i0, where = maps()[name]
  g, h = UF('g', 1, (m,)), UF('h', 1, (1,))
  aux = lambda x: dict(a=h(x))

  def fn(x):
    o = {}
    for v, fun, kw in (('plain', lambda x: g(x), {}), ('aux', lambda x: (g(x), aux(x)), dict(has_aux=True))):
      if name == 'bisection':
        fun = (lambda f: lambda x: f(x[None]))(fun)
      s = fac(fun, maxiter=1, **kw)
      x0 = x[0] if name == 'bisection' else x
      st = s.init_state(x0)
      a0 = st.aux
      p, q = x0, x0
      for _ in range(steps):
        q = p
        p, st = s.update(p, st)
      opt = s.optimality_fun(p)
      rp, rs = s.run(None if name == 'bisection' else x)
      ax = (lambda z: z) if name != 'bisection' else (lambda z: z)
      w = (lambda z: aux(z[None])) if name == 'bisection' else aux
      o[v] = dict(p=p, st=st._replace(aux=None), opt=opt, rp=rp, rs=rs._replace(aux=None), a0=a0, aux=st.aux,
                  w0=w(x0), win=w(q), wout=w(p))
    return o

  def claim(s, i, o):
    b, r = o['plain'], o['aux']
    cl = [(n, s.eq(r[k], b[k])) for k, n in (('p', 'parameters'), ('st', 'state'), ('opt', 'optimality'),
                                            ('rp', 'parameters of run'), ('rs', 'state of run'))]
    if i0:
      cl.append(('initial aux', s.eq(r['a0'], r['w0'])))
    if where:
      cl.append(('aux', s.eq(r['aux'], r['win' if where == 'in' else 'wout'])))
    return cl
  return Problem(f'{name}_{steps}', dict(x=Sp(1)), fn, claim, ufs=[g, h], timeout=30,
                 bound=f'{steps} updates, dimension 1')


def problems(tier):
  T = tier == 'thorough'
  ps = []
  for n in table():
    if n == 'lbfgs_zoom' and not T:
      continue
    for k in (1, 2) if T else (1,) if n == 'lbfgsb' else (2,):
      ps.append(minimiser(n, k, **(dict(max_paths=3, allow_cut=True) if n == 'lbfgsb' and not T else {})))
  ps += [search(n, tier) for n in ('backtracking', 'goldstein', 'zoom')]
  for n in maps():
    for k in (1, 2) if T else (2,):
      ps.append(mapper(n, k))
  return ps
