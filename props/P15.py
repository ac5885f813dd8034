"""BFGS and nonlinear conjugate gradient steps."""
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['BFGS.{init_state,update,run}']
ASSUMPTIONS = ['the objective is an arbitrary smooth function of a pytree with two leaves']
tm = jax.tree_util.tree_map
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
unvec = lambda v: dict(a=v[:1], b=v[1])


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f = UF('f', 3)
  obj = lambda x, p: f(x['a'][0], x['b'], p)
  vg = jax.value_and_grad(obj)
  X = dict(a=Sp(1), b=Sp())

  def mk(mode, **k):
    if mode == 'aux':
      return jaxopt.BFGS(lambda x, p: (obj(x, p), {'e': x['a'] * 3}), has_aux=True, **k)
    if mode == 'vg':
      return jaxopt.BFGS(vg, value_and_grad=True, **k)
    return jaxopt.BFGS(obj, **k)

  def f_upd(mode, step, x, g, v, p, H, it):
    sol = mk(mode, stepsize=(lambda k: 0.25 * (k + 1)) if step == 'fun' else 0.5)
    st = sol.init_state(x, p)
    st = st._replace(iter_num=it, grad=g, value=v, H=H)
    q, n = sol.update(x, st, p)
    eta = 0.25 * (it + 1) if step == 'fun' else jnp.asarray(0.5)
    want = vec(x) - eta * H @ vec(g)
    v1, g1 = vg(q, p)
    s, y = vec(q) - vec(x), vec(g1) - vec(g)
    sy = s @ y
    rho = 1 / sy
    W = jnp.eye(2) - rho * jnp.outer(s, y)
    H2 = W @ H @ W.T + rho * jnp.outer(s, s)
    return dict(q=vec(q), want=want, n=n._replace(aux=None), sy=sy, H2=H2, v1=v1, g1=g1, eta=eta,
                it1=it + 1, aux=n.aux if mode == 'aux' else {}, a3=q['a'] * 3, err2=vec(g1) @ vec(g1),
                dH=n.H[0, 1] - n.H[1, 0], dH0=H[0, 1] - H[1, 0])

  def c_upd(mode):
    def claim(s, i, o):
      n, sy = o['n'], sc(o['sy'])
      nz, z = s.Not(s.xeq(sy, 0)), s.xeq(sy, 0)
      cl = [('step is minus stepsize times H times gradient', s.eq(o['q'], o['want'])),
            ('value and gradient at the new point', s.And(s.eq(n.value, o['v1']), s.eq(n.grad, o['g1']))),
            ('BFGS update of H', s.implies(nz, s.eq(n.H, o['H2']))),
            ('H kept when s.y is zero', s.implies(z, s.eq(n.H, i['H']))),
            ('H stays symmetric', s.implies(s.xeq(sc(o['dH0']), 0), s.eq(sc(o['dH']), 0))),
            ('stepsize recorded', s.eq(sc(n.stepsize), sc(o['eta']))),
            ('error is the gradient norm', s.And(s.ge(sc(n.error), 0), s.eq(
                sc(n.error) * sc(n.error), sc(o['err2'])))),
            ('counters', s.And(s.eq(n.iter_num, o['it1']), s.eq(n.num_fun_eval, 2), s.eq(n.num_grad_eval, 2)))]
      if mode == 'aux':
        cl.append(('aux at the new point', s.eq(o['aux']['e'], o['a3'])))
      return cl
    return claim
  for mode, step in (('', 'const'), ('aux', 'fun'), ('vg', 'const')):
    ps.append(Problem('update' + ('_' + mode if mode else '') + ('_callable' if step == 'fun' else ''),
                      dict(x=X, g=X, v=Sp(), p=Sp(), H=Sp(2, 2), it=Sp(kind='i', lo=0, hi=50)),
                      lambda mode=mode, step=step, **i: f_upd(mode, step, **i), c_upd(mode), ufs=[f],
                      timeout=30, bound='any state, dimension 2'))

  # secant equation and positive curvature, from a multiple of the identity
  def f_sec(x, g, p, t):
    sol = jaxopt.BFGS(obj, stepsize=0.5)
    st = sol.init_state(x, p)._replace(grad=g, H=t * jnp.eye(2))
    q, n = sol.update(x, st, p)
    s, y = vec(q) - vec(x), vec(vg(q, p)[1]) - vec(g)
    return n.H @ y, s, s @ y, n.H[0, 0], n.H[1, 1]
  ps.append(Problem('secant_equation', dict(x=X, g=X, p=Sp(), t=Sp()), f_sec, lambda s, i, o: [
      ('H maps the change of gradient to the step', s.implies(s.Not(s.xeq(sc(o[2]), 0)), s.eq(o[0], o[1]))),
      ('diagonal of H not negative when s.y is positive', s.implies(
          s.xlt(0, sc(o[2])), s.And(s.ge(sc(o[3]), 0), s.ge(sc(o[4]), 0))))],
      assume=lambda s, i: s.xlt(0, sc(i['t'])), ufs=[f], timeout=60, required=False,
      bound='H = t I before the update, dimension 2'))

  def f_ls(ls, init, x, g, v, p, H, t):
    kw = dict(maxls=1 if ls != 'backtracking' else 2, max_stepsize=0.75, min_stepsize=1e-3)
    sol = mk('aux', linesearch=ls, linesearch_init=init, increase_factor=1.25, **kw)
    st = sol.init_state(x, p)._replace(grad=g, value=v, H=H, stepsize=t)
    q, n = sol.update(x, st, p)
    d = unvec(-H @ vec(g))
    cls = dict(backtracking=jaxopt.BacktrackingLineSearch, zoom=jaxopt.ZoomLineSearch)[ls]
    t0 = dict(max=0.75, current=t, increase=jnp.where(t <= 1e-3, 0.75, t * 1.25))[init]
    eta, lst = cls(lambda x, p: (obj(x, p), {'e': x['a'] * 3}), has_aux=True, maxiter=kw['maxls'],
                   max_stepsize=0.75).run(t0, x, value=v, grad=g, descent_direction=d, fun_args=(p,))
    return dict(q=q, n=n, eta=eta, lq=lst.params, lv=lst.value, lg=lst.grad, la=lst.aux,
                nf=1 + lst.num_fun_eval, ng=1 + lst.num_grad_eval, nl=lst.iter_num)

  def c_ls(s, i, o):
    n = o['n']
    return [('new point is the line search\'s', s.eq(o['q'], o['lq'])),
            ('stepsize', s.eq(sc(n.stepsize), sc(o['eta']))), ('aux', s.eq(n.aux, o['la'])),
            ('value', s.eq(n.value, o['lv'])), ('gradient', s.eq(n.grad, o['lg'])),
            ('counters', s.And(s.eq(n.num_fun_eval, o['nf']), s.eq(n.num_grad_eval, o['ng']),
                               s.eq(n.num_linesearch_iter, o['nl'])))]
  for ls, init in (('backtracking', 'increase'), ('backtracking', 'max'), ('backtracking', 'current'),
                   ('zoom', 'increase')):
    ps.append(Problem(f'{ls}_{init}', dict(x=X, g=X, v=Sp(), p=Sp(), H=Sp(2, 2), t=Sp()),
                      lambda ls=ls, init=init, **i: f_ls(ls, init, **i), c_ls, ufs=[f],
                      timeout=30, assume=lambda s, i: s.xlt(0, sc(i['t'])),
                      bound='at most 2 line search steps, any state'))

  def f_init(x, p):
    sol = jaxopt.BFGS(obj, max_stepsize=0.75)
    return sol.init_state(x, p), vg(x, p)
  ps.append(Problem('cold_start', dict(x=X, p=Sp()), f_init, lambda s, i, o: [
      ('value and gradient', s.And(s.eq(o[0].value, o[1][0]), s.eq(o[0].grad, o[1][1]))),
      ('identity matrix and first stepsize', s.And(
          s.eq(o[0].H, np.array([[R_(1), R_(0)], [R_(0), R_(1)]], dtype=object)),
          s.eq(sc(o[0].stepsize), R_(0.75)), s.eq(o[0].iter_num, 0), sc(o[0].error).pinf))], ufs=[f]))

  def f_run(x, p, jit):
    sol = jaxopt.BFGS(obj, stepsize=0.5, maxiter=2, tol=-1.0, jit=jit)
    q, st = sol.run(x, p)
    g0 = vec(vg(x, p)[1])
    y1 = vec(x) - 0.5 * g0
    g1 = vec(vg(unvec(y1), p)[1])
    s, y = y1 - vec(x), g1 - g0
    W = jnp.eye(2) - jnp.outer(s, y) / (s @ y)
    H = W @ W.T + jnp.outer(s, s) / (s @ y)
    return vec(q), y1 - 0.5 * H @ g1, s @ y, st.iter_num
  ps.append(Problem('run_2', dict(x=X, p=Sp()), lambda x, p: f_run(x, p, False), lambda s, i, o: [
      ('two BFGS iterations', s.implies(s.Not(s.xeq(sc(o[2]), 0)), s.eq(o[0], o[1]))),
      ('all iterations', s.eq(o[3], 2))], ufs=[f], live=True, timeout=30, bound='2 iterations, dimension 2'))
  return ps
