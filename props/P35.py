"""L-BFGS-B: direction, feasibility, history and error."""
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['LBFGSB.{init_state,update,run}', 'lbfgsb._find_cauchy_point, _minimize_subspace, _get_error through LBFGSB.update']
ASSUMPTIONS = ['the objective is an arbitrary smooth function', 'lower <= x <= upper',
               'distances to a bound are zero or at least 1e-9 times the gradient']


def problems(tier):
  T = tier == 'thorough'
  ps = []

  def inbox(s, i, n, eps=True, g='g'):
    c = [And(V.rle(i['l'][k], i['x'][k]), V.rle(i['x'][k], i['u'][k])) for k in range(n)]
    if eps:
      # away from the absolute thresholds eps of the breakpoint computation
      for k in range(n):
        G = s.abs(i[g][k])
        c.append(Or(s.xeq(G, 0), V.rle(R_(1e-9), G)))
        for d in (i['x'][k] - i['l'][k], i['u'][k] - i['x'][k]):
          c.append(Or(s.xeq(d, 0), V.rle(R_(1e-9) * G, d)))
    return c

  def smp(n, *fixed):
    def f(r):
      x = np.array([r.uniform(-1, 1) for _ in range(n)])
      return dict(x=x, l=x - r.random(), u=x + r.random())
    return f

  # ---- empty history: projected gradient step with the initial scaling
  def first(n, theta, stepsize):
    f = UF('f', n)

    def fn(x, l, u, g):
      s = jaxopt.LBFGSB(lambda z: f(z), stepsize=stepsize, history_size=1, theta=theta)
      st = s.init_state(x, (l, u))
      p, st2 = s.update(x, st._replace(grad=g), (l, u))
      v1, g1 = jax.value_and_grad(lambda z: f(z))(p)
      f0, g0 = jax.value_and_grad(lambda z: f(z))(x)
      err = jnp.max(jnp.abs(jnp.clip(p - g1, l, u) - p))
      err0 = jnp.max(jnp.abs(jnp.clip(x - g0, l, u) - x))
      return dict(p=p, st=st2, v1=v1, g1=g1, err=err, s=p - x, y=g1 - g, sy=(p - x) @ (g1 - g), yy=(g1 - g) @ (g1 - g),
                  i0=[st.value, st.grad, st.error], w0=[f0, g0, err0], it0=st.iter_num)

    def claim(s, i, o):
      cl = []
      for k in range(n):
        c = s.max(i['l'][k], s.min(i['u'][k], i['x'][k] - i['g'][k] * R_(1 / theta)))
        cl.append((f'coordinate {k} moves to the minimiser of the model in the box',
                   s.eq(o['p'][k], i['x'][k] + (c - i['x'][k]) * R_(stepsize))))
      t = o['st']
      pos = s.gt(sc(o['sy']), 0)
      cl += [('value and gradient at the new point', s.And(s.eq(t.value, o['v1']), s.eq(t.grad, o['g1']))),
             ('error is the projected gradient', s.eq(t.error, o['err'])),
             ('initial value, gradient and error', s.And(s.eq(o['i0'], o['w0']), s.eq(o['it0'], 0))),
             ('counters', s.And(s.eq(t.iter_num, 1), s.eq(t.num_fun_eval, 2), s.eq(t.num_grad_eval, 2))),
             ('pair stored when the curvature is positive', s.implies(pos, s.And(
                 s.eq(t.s_history[0], o['s']), s.eq(t.y_history[0], o['y']), s.eq(t.num_updates, 1),
                 s.eq(sc(t.theta) * sc(o['sy']), sc(o['yy']) * R_(theta))))),
             ('pair skipped otherwise', s.implies(s.lt(sc(o['sy']), 0), s.And(
                 s.eq(t.s_history, 0), s.eq(t.y_history, 0), s.eq(t.num_updates, 0), s.eq(t.theta, theta))))]
      return cl
    return Problem(f'first_step_{n}_theta{theta}_{stepsize}', dict(x=Sp(n), l=Sp(n), u=Sp(n), g=Sp(n)), fn, claim,
                   assume=lambda s, i: inbox(s, i, n), ufs=[f], sample=smp(n), timeout=40, bound=f'{n} variables, no history')
  ps += [first(1, 1.0, 1.0), first(1, 2.0, 0.5)]

  # ---- the line search stays in the box
  def search(ls, mx, init, **k):
    f = UF('f', 1)

    def fn(x, l, u, t0):
      s = jaxopt.LBFGSB(lambda z: f(z), linesearch=ls, linesearch_init=init, maxls=k.get('maxls', 1), history_size=1,
                        max_stepsize=mx)
      st = s.init_state(x, (l, u))._replace(stepsize=t0)
      p, st2 = s.update(x, st, (l, u))
      v1, g1 = jax.value_and_grad(lambda z: f(z))(p)
      g0 = jax.grad(lambda z: f(z))(x)
      return dict(p=p, v=st2.value, g=st2.grad, v1=v1, g1=g1, t=st2.stepsize, c=x + st2.stepsize * (jnp.clip(x - g0, l, u) - x))

    def claim(s, i, o):
      if ls == 'zoom':     # a point of the segment from x to the projected gradient point
        return [('on the segment', s.eq(o['p'], o['c'])), ('stepsize at most one', s.And(s.ge(o['t'], 0), s.le(o['t'], 1))),
                ('value and gradient at the new point', s.And(s.eq(o['v'], o['v1']), s.eq(o['g'], o['g1'])))]
      return [('inside the box', s.And(s.ge(o['p'], i['l']), s.le(o['p'], i['u']))),
              ('value and gradient at the new point', s.And(s.eq(o['v'], o['v1']), s.eq(o['g'], o['g1'])))]
    return Problem(f'search_{ls}_{mx:g}_{init}', dict(x=Sp(1), l=Sp(1), u=Sp(1), t0=Sp(lo=0, hi=mx)), fn, claim, dce=True,
                   assume=lambda s, i: [And(V.rle(i['l'][0], i['x'][0]), V.rle(i['x'][0], i['u'][0]), V.rlt(V.ZERO, sc(i['t0'])))],
                   ufs=[f], timeout=40, sample=smp(1), bound='1 variable, no history, 1 line search step',
                   **({} if T or ls != 'zoom' else dict(max_paths=3, allow_cut=True)))
  ps += [search('backtracking', 1.0, 'increase'), search('backtracking', 1.0, 'max'), search('backtracking', 2.0, 'max'),
         search('zoom', 1.0, 'increase')]

  # ---- history: one pair, one variable, everything symbolic
  def history1(bounded):
    f = UF('f', 1)

    def fn(x, g, S_, Y, th, l=None, u=None):
      s = jaxopt.LBFGSB(lambda z: f(z), stepsize=1.0, history_size=1)
      b = (l, u) if bounded else None
      st = s.init_state(x, b)
      p, st2 = s.update(x, st._replace(grad=g, s_history=S_[None], y_history=Y[None], theta=th, num_updates=jnp.asarray(1)), b)
      return dict(p=p)

    def claim(s, i, o):
      d = o['p'][0] - i['x'][0]
      S1, Y1, g = i['S_'][0], i['Y'][0], i['g'][0]
      return [('secant step', s.eq(Y1 * d, -g * S1))]   # B = y / s in one variable
    ins = dict(x=Sp(1), g=Sp(1), S_=Sp(1), Y=Sp(1), th=Sp(lo=0, hi=10))
    return Problem('history_1_symbolic', ins, fn, claim,
                   assume=lambda s, i: [V.rlt(V.ZERO, sc(i['th'])), V.rlt(V.ZERO, i['S_'][0] * i['Y'][0]),
                                        Or(s.xeq(i['g'][0], 0), V.rle(R_(1e-9), s.abs(i['g'][0])))],
                   ufs=[f], timeout=40, sample=lambda r: dict(S_=np.ones(1), Y=np.array([2.0]), th=np.array(2.0)),
                   bound='1 variable, 1 pair')
  ps.append(history1(False))

  # ---- given pairs: every point, box and (unbounded) gradient
  HIST = {'none': (1, 0, [], [], 1.0),
          'one': (1, 1, [[1.0, 0.5]], [[2.0, 0.25]], 2.0),
          'skew': (1, 1, [[1.0, -1.0]], [[1.0, 0.5]], 0.5),
          'two': (2, 2, [[1.0, 0.5], [0.25, 1.0]], [[2.0, 0.25], [0.5, 1.0]], 1.0),
          'wrapped': (2, 3, [[0.5, 1.0], [1.0, 0.5]], [[0.25, 1.0], [2.0, 0.5]], 1.0),
          'partial': (2, 1, [[1.0, 0.5]], [[2.0, 0.25]], 2.0),
          'three': (1, 1, [[1.0, 0.5, -0.5]], [[2.0, 0.25, 0.5]], 2.0)}

  def bfgs(h):
    m, upd, S_, Y, th = HIST[h]
    n = 3 if h == 'three' else 2
    k0 = upd % m if upd >= m else 0
    B = th * np.eye(n)
    for q in range(min(m, upd)):
      s_, y_ = (np.array(t[(k0 + q) % m]) for t in (S_, Y))
      Bs = B @ s_
      B = B - np.outer(Bs, Bs) / (s_ @ Bs) + np.outer(y_, y_) / (y_ @ s_)
    return n, B

  def given(h, g=None):
    m, upd, S_, Y, th = HIST[h]
    n, B = bfgs(h)
    f = UF('f', n)
    Sh, Yh = np.zeros((m, n)), np.zeros((m, n))
    for k in range(len(S_)):
      Sh[k], Yh[k] = S_[k], Y[k]
    bounded = g is not None

    def fn(x, g, l=None, u=None):
      s = jaxopt.LBFGSB(lambda z: f(z), stepsize=1.0, history_size=m, max_stepsize=1.0)
      b = (l, u) if bounded else None
      st = s.init_state(x, b)
      st = st._replace(grad=jnp.asarray(g), s_history=jnp.asarray(Sh), y_history=jnp.asarray(Yh), theta=jnp.asarray(th),
                       num_updates=jnp.asarray(upd))
      out = s.update(x, st, b)[0]
      if not bounded:
        return dict(p=out)
      # the same step without clipping of the result: the direction itself
      s2 = jaxopt.LBFGSB(lambda z: f(z), stepsize=0.5, history_size=m)
      return dict(p=out, half=s2.update(x, st, b)[0])

    def claim(s, i, o):
      d = [o['p'][k] - i['x'][k] for k in range(n)]
      Bd = [sum((d[j] * R_(float(B[k, j])) for j in range(n)), V.ZERO) for k in range(n)]
      if not bounded:
        return [(f'quasi-Newton equation {k}', s.eq(Bd[k], -i['g'][k])) for k in range(n)]
      cl = [('inside the box', s.And([s.And(s.ge(o['p'][k], i['l'][k]), s.le(o['p'][k], i['u'][k])) for k in range(n)])),
            ('the direction itself stays in the box', s.And([s.eq((o['half'][k] - i['x'][k]) * R_(2), d[k]) for k in range(n)]))]
      gd = sum((d[k] * R_(float(g[k])) for k in range(n)), V.ZERO)
      cl.append(('descent direction', s.le(gd, 0)))
      stat = And([V.req(s.max(i['l'][k], s.min(i['u'][k], i['x'][k] - R_(float(g[k])))), i['x'][k]) for k in range(n)])
      cl.append(('a stationary point stays', s.implies(stat, s.eq(o['p'], i['x']))))
      if h == 'none':
        cl.append(('without history: gradient step projected on the box', s.And([s.eq(
            o['p'][k], s.max(i['l'][k], s.min(i['u'][k], i['x'][k] - R_(float(g[k]))))) for k in range(n)])))
      q = gd + sum((d[k] * Bd[k] for k in range(n)), V.ZERO) * R_(0.5)
      cl.append(('the model does not increase', s.le(q, 0)))
      # first order optimality on coordinates strictly inside, unless truncated by another coordinate
      inside = [And(V.rlt(i['l'][k], o['p'][k]), V.rlt(o['p'][k], i['u'][k])) for k in range(n)]
      cl.append(('interior step is the quasi-Newton step', s.implies(And(inside), s.And(
          [s.eq(Bd[k], R_(-float(g[k]))) for k in range(n)]))))
      return cl
    ins = dict(x=Sp(n), l=Sp(n), u=Sp(n)) if bounded else dict(x=Sp(n), g=Sp(n))
    fn2 = (lambda x, l, u: fn(x, np.array(g, dtype=float), l, u)) if bounded else fn

    def assume(s, i):
      if bounded:
        return inbox(s, dict(i, g=np.array([R_(float(t)) for t in g], dtype=object)), n)
      return [Or(s.xeq(i['g'][k], 0), V.rle(R_(1e-9), s.abs(i['g'][k]))) for k in range(n)]
    tag = '' if not bounded else '_' + '_'.join(f'{t:g}' for t in g)
    return Problem(f'given_{h}{tag}', ins, fn2, claim, assume=assume, ufs=[f], sample=smp(n) if bounded else None,
                   fork_select=bounded, dce=True, timeout=40, bound=f'{n} variables, history {h}' + (f', gradient {g}' if bounded else ''))
  for h in HIST if T else ('one', 'skew', 'wrapped'):
    if h != 'three':
      ps.append(given(h))
  G = [(2, -1), (-1, 0), (1, 4)] if not T else [(2, -1), (-1, 0), (1, 4), (-1, -1), (0, 2), (4, -0.5)]
  for h in ('none', 'one', 'skew', 'two') + (('wrapped', 'partial') if T else ()):
    for g in G if T or h != 'skew' else G[:1]:
      ps.append(given(h, g))
  if T:
    ps += [given('three', (1, -2, 0.5)), given('three', (-1, 0, 1))]
  return ps
