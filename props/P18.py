"""Proximal gradient and FISTA steps."""
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['ProximalGradient.{init_state,update,run,optimality_fun}', 'fista_line_search']
ASSUMPTIONS = ['the objective is an arbitrary smooth function and the prox an arbitrary function of a pytree with '
               'two leaves, of its hyperparameters and of the scaling']
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
unvec = lambda v: dict(a=v[:1], b=v[1])
DF = 0.25


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f, pa, pb = UF('f', 3), UF('pa', 4), UF('pb', 4)
  obj = lambda x, p: f(x['a'][0], x['b'], p)
  vg = jax.value_and_grad(obj)
  prox = lambda x, l, s=1.0: dict(a=pa(x['a'][0], x['b'], l, s)[None], b=pb(x['a'][0], x['b'], l, s))
  X = dict(a=Sp(1), b=Sp())

  def mk(mode, **k):
    if mode == 'aux':
      return jaxopt.ProximalGradient(lambda x, p: (obj(x, p), {'e': x['a'] * 3}), prox, has_aux=True, **k)
    if mode == 'vg':
      return jaxopt.ProximalGradient(vg, prox, value_and_grad=True, **k)
    if mode == 'vgaux':
      return jaxopt.ProximalGradient(lambda x, p: ((obj(x, p), {'e': x['a'] * 3}), vg(x, p)[1]), prox,
                                     value_and_grad=True, has_aux=True, **k)
    return jaxopt.ProximalGradient(obj, prox, **k)

  def state(sol, x, y, t, s, l, p, it, accel):
    st = sol.init_state(x, l, p)._replace(iter_num=it, stepsize=s, t=t)
    return st._replace(velocity=y) if accel else st

  def after(x, y, t, xn, eta, n, accel):
    """Momentum and error, from the new point."""
    t2 = 0.5 * (1 + jnp.sqrt(1 + 4 * t ** 2))
    d = vec(xn) - vec(x)
    return dict(t2=t2, y2=vec(xn) + (t - 1) / t2 * d, sq=d @ d, eta2=eta * eta)

  def f_fix(mode, accel, step, x, y, t, s, l, p, it):
    sol = mk(mode, acceleration=accel, stepsize=(lambda k: 0.25 * (k + 1)) if step == 'fun' else 0.5)
    q, n = sol.update(x, state(sol, x, y, t, s, l, p, it, accel), l, p)
    z = y if accel else x
    eta = 0.25 * (it + 1) if step == 'fun' else jnp.asarray(0.5)
    want = prox(unvec(vec(z) - eta * vec(vg(z, p)[1])), l, eta)
    return dict(q=q, n=n, want=want, eta=eta, it1=it + 1, a3=z['a'] * 3, vel=vec(n.velocity) if accel else 0.0,
                **after(x, y, t, q, eta, n, accel))

  def common(s, i, o, accel, mode):
    n = o['n']
    cl = [('error is the distance moved over the recorded stepsize', s.And(
        s.ge(sc(n.error), 0), s.eq(sc(n.error) * sc(n.error) * sc(o['eta2']), sc(o['sq'])))),
          ('stepsize recorded', s.eq(sc(n.stepsize), sc(o['eta']))), ('iteration count', s.eq(n.iter_num, o['it1']))]
    if accel:
      cl += [('momentum parameter', s.eq(sc(n.t), sc(o['t2']))),
             ('extrapolated point', s.eq(o['vel'], o['y2']))]
    if 'aux' in mode:
      cl.append(('aux of the evaluation', s.eq(n.aux['e'], o['a3'])))
    return cl
  I = Sp(kind='i', lo=0, hi=50)
  ins = lambda: dict(x=X, y=X, t=Sp(), s=Sp(), l=Sp(), p=Sp(), it=I)
  tpos = lambda s, i: s.And(V.rle(R_(1), sc(i['t'])), V.rlt(V.ZERO, sc(i['s'])))
  for mode, accel, step in (('', True, 'const'), ('aux', True, 'fun'), ('vg', True, 'const'), ('vgaux', False, 'const'),
                            ('', False, 'fun'), ('aux', False, 'const')):
    ps.append(Problem(f'step_{mode}_{"fista" if accel else "plain"}_{step}', ins(),
                      lambda mode=mode, accel=accel, step=step, **i: f_fix(mode, accel, step, **i),
                      lambda s, i, o, mode=mode, accel=accel: [('forward-backward step', s.eq(o['q'], o['want']))] +
                      common(s, i, o, accel, mode), assume=tpos, ufs=[f, pa, pb], timeout=30, bound='any state'))

  def f_ls(mode, accel, maxls, x, y, t, s, l, p, it):
    sol = mk(mode, acceleration=accel, stepsize=0.0, maxls=maxls, decrease_factor=DF)
    q, n = sol.update(x, state(sol, x, y, t, s, l, p, it, accel), l, p)
    z = y if accel else x
    v, g = vg(z, p)
    trials = []
    e = s
    for k in range(maxls + 1):
      w = prox(unvec(vec(z) - e * vec(g)), l, e)
      d = vec(w) - vec(z)
      # Upper quadratic model of f with curvature 1 / e, times e.
      trials.append((w, e, e * (obj(w, p) - v), e * (d @ vec(g)) + 0.5 * (d @ d),
                     jnp.where(e <= 1e-6, 1.0, e / DF)))
      e = e * DF
    return dict(q=q, n=n, trials=trials, eta=n.stepsize, it1=it + 1, a3=z['a'] * 3,
                vel=vec(n.velocity) if accel else 0.0, **after(x, y, t, q, n.stepsize, n, accel))

  def c_ls(s, i, o, accel, mode, maxls):
    eps = R_(float(np.finfo(np.float64).eps))
    eps32 = R_(float(np.finfo(np.float32).eps))
    good, is_k = [], []
    for w, e, a, b, nx in o['trials']:
      good.append(s.le(sc(a), V.radd(sc(b), eps32)))
      is_k.append(s.And(s.eq(o['q'], w), s.eq(sc(o['n'].stepsize), sc(nx))))
    cl = [('result is one of the trial steps', s.Or(is_k))]
    return cl + common(s, i, o, accel, mode)
  sys_ls = []
  for mode, accel, maxls in (('', True, 2), ('aux', False, 2), ('vg', True, 1), ('vgaux', True, 1)):
    def claim(s, i, o, mode=mode, accel=accel, maxls=maxls):
      tr = o['trials']
      eps = R_(float(np.finfo(np.float64).eps))
      def pick(k):
        w, e, a, b, nx = tr[k]
        here = s.And(s.eq(o['q'], w), s.eq(sc(o['n'].stepsize), sc(nx)))
        if k == maxls:
          return here
        bad = V.rlt(V.radd(sc(b), eps), sc(a))
        return V.And(V.Implies(V.Not(bad), here), V.Implies(bad, pick(k + 1)))
      return [('first trial step under the quadratic model, or the last', pick(0))] + common(s, i, o, accel, mode)
    ps.append(Problem(f'search_{mode}_{"fista" if accel else "plain"}', ins(),
                      lambda mode=mode, accel=accel, maxls=maxls, **i: f_ls(mode, accel, maxls, **i), claim,
                      assume=tpos, ufs=[f, pa, pb], timeout=60, bound=f'at most {maxls} reductions, any state'))

  def f_init(mode, accel, x, l, p):
    sol = mk(mode, acceleration=accel)
    return sol.init_state(x, l, p), x['a'] * 3
  for mode, accel in (('', True), ('aux', False), ('vgaux', True)):
    ps.append(Problem(f'start_{mode}_{"fista" if accel else "plain"}', dict(x=X, l=Sp(), p=Sp()),
                      lambda x, l, p, mode=mode, accel=accel: f_init(mode, accel, x, l, p),
                      lambda s, i, o, accel=accel: [('start', s.And(
                          s.eq(o[0].iter_num, 0), s.eq(sc(o[0].stepsize), 1), s.eq(sc(o[0].t), 1), sc(o[0].error).pinf,
                          s.eq(o[0].velocity, i['x']) if accel else True))], ufs=[f, pa, pb]))

  # run: textbook FISTA / ISTA.
  def f_run(accel, jit, x, l, p):
    sol = mk('', acceleration=accel, stepsize=0.5, maxiter=3, tol=-1.0, jit=jit)
    q, st = sol.run(x, l, p)
    y, t, z = x, 1.0, x
    for _ in range(3):
      zn = prox(unvec(vec(y) - 0.5 * vec(vg(y, p)[1])), l, 0.5)
      tn = 0.5 * (1 + jnp.sqrt(1 + 4 * t ** 2)) if accel else 1.0
      y = unvec(vec(zn) + (t - 1) / tn * (vec(zn) - vec(z))) if accel else zn
      z, t = zn, tn
    return q, z, st.iter_num
  for accel in (True, False):
    ps.append(Problem(f'run_{"fista" if accel else "plain"}', dict(x=X, l=Sp(), p=Sp()),
                      lambda x, l, p, accel=accel: f_run(accel, False, x, l, p), lambda s, i, o: [
        ('three iterations of the method', s.eq(o[0], o[1])), ('count', s.eq(o[2], 3))],
                      ufs=[f, pa, pb], live=True, timeout=30, bound='3 iterations'))

  # A fixed point of the proximal gradient map is a zero of optimality_fun and stops the plain method at once.
  def f_opt(mode, x, l, p):
    sol = mk(mode)
    return sol.optimality_fun(x, l, p), vec(prox(unvec(vec(x) - vec(vg(x, p)[1])), l, 1.0)) - vec(x)
  for mode in ('', 'aux', 'vgaux'):
    ps.append(Problem('optimality' + mode, dict(x=X, l=Sp(), p=Sp()), lambda x, l, p, mode=mode: f_opt(mode, x, l, p),
                      lambda s, i, o: [('residual of the proximal gradient map', s.eq(
                          np.concatenate([o[0]['a'], [sc(o[0]['b'])]]), o[1]))], ufs=[f, pa, pb]))

  # Descent: with the soft threshold and a quadratic, an accepted plain step never increases the objective.
  def f_desc(q, c, x, l, s):
    h = lambda z: 0.5 * q * z * z - c * z
    sol = jaxopt.ProximalGradient(h, jaxopt.prox.prox_lasso, acceleration=False, stepsize=0.0, maxls=2)
    st = sol.init_state(x, l)._replace(stepsize=s)
    z, n = sol.update(x, st, l)
    F = lambda z: h(z) + l * jnp.abs(z)
    return F(z) - F(x), q * s
  ps.append(Problem('descent_lasso', dict(q=Sp(), c=Sp(), x=Sp(), l=Sp(), s=Sp()), f_desc, lambda s, i, o: [
      ('objective does not increase once the step is below 1/L', s.implies(
          V.rle(sc(o[1]), R_(1)), s.le(sc(o[0]), 0)))],
      assume=lambda s, i: s.And(V.rle(V.ZERO, sc(i['q'])), V.rle(V.ZERO, sc(i['l'])), V.rlt(V.ZERO, sc(i['s']))),
      timeout=60, required=False, bound='one coordinate'))
  return ps
