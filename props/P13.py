"""Hager-Zhang line search: initial bracket, one update from any bracket, whole runs."""
from props.lib import *
import jaxopt
from jaxopt import HagerZhangLineSearch
from symjax.uf import UF

DCE = True   # drop what the claims do not depend on
FUNCTIONS = ['HagerZhangLineSearch.{init_state,update,run} with its bracket, secant and update loops']
ASSUMPTIONS = ['the objective is an arbitrary smooth function', 'the direction is a descent direction',
               'runs in which a bracketing or bisection loop needs more iterations than the unrolling '
               'are outside the bound',
               'update problems start from any bracket with the properties init_state is shown to establish']


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f = UF('f', 2)
  obj = lambda x, p: f(x['a'][0], p)
  X = dict(a=Sp(1))
  EPS = 1e-6

  def line(x, d, p):
    def phi(s):
      y = dict(a=x['a'] + s * d['a'])
      v, g = jax.value_and_grad(obj)(y, p)
      return v, g['a'][0] * d['a'][0], y, g
    return phi

  def facts(phi, s, v0, s0, c1, c2):
    v, sl, _, _ = phi(s)
    thr = v0 + EPS * jnp.abs(v0)
    curv = sl >= c2 * s0
    return dict(v=v, sl=sl, thr=thr, wolfe=(v <= v0 + c1 * s * s0) & curv,
                approx=(sl <= (2 * c1 - 1) * s0) & curv & (v <= thr))

  def mk(mode, **k):
    if mode == 'aux':
      return HagerZhangLineSearch(lambda x, p: (obj(x, p), {'e': x['a'] * 3}), has_aux=True, **k)
    if mode == 'vg':
      return HagerZhangLineSearch(jax.value_and_grad(obj), value_and_grad=True, **k)
    if mode == 'vgfun':
      return HagerZhangLineSearch(obj, value_and_grad=jax.value_and_grad(obj), **k)
    return HagerZhangLineSearch(obj, **k)

  def bracket(s, low, high):
    return [('low: f below the threshold', s.le(sc(low['v']), sc(low['thr']))),
            ('low: f goes down', s.xlt(sc(low['sl']), 0)),
            ('high: f goes up or is above the threshold', s.Or(
                s.xle(0, sc(high['sl'])), s.xlt(sc(high['thr']), sc(high['v']))))]

  def ends(s, o, don, fai):
    st, at = o['st'], o['at']
    return [('params at the returned stepsize', s.eq(st.params, o['y'])),
            ('value at the returned stepsize', s.eq(st.value, o['v'])),
            ('gradient at the returned stepsize', s.eq(st.grad, o['g'])),
            ('done: Wolfe or approximate Wolfe', s.implies(don, s.Or(sc(at['wolfe']), sc(at['approx'])))),
            ('meeting the conditions means done', s.implies(
                s.And(s.Or(sc(at['wolfe']), sc(at['approx']))), don)),
            ('stepsize is the better end of the bracket', s.And(
                s.Or(s.eq(sc(o['s']), sc(st.low)), s.eq(sc(o['s']), sc(st.high))),
                s.le(sc(at['v']), sc(o['low']['v'])), s.le(sc(at['v']), sc(o['high']['v'])))),
            ('stepsize not negative', s.ge(sc(o['s']), 0)),
            ('out of iterations means failed', s.implies(s.And(s.Not(don), o['last']), fai))]

  def f_init(x, d, p, mode, given, direction, c1, c2):
    ls = mk(mode, c1=c1, c2=c2)
    v0, g0 = jax.value_and_grad(obj)(x, p)
    dd = d if direction else dict(a=-g0['a'])
    st = ls.init_state(1.0, x, *((v0, g0) if given else ()),
                       descent_direction=d if direction else None, fun_args=(p,))
    phi = line(x, dd, p)
    s0 = g0['a'][0] * dd['a'][0]
    F = lambda t: facts(phi, t, v0, s0, c1, c2)
    low, high = F(st.low), F(st.high)
    best = jnp.where(low['v'] < high['v'], st.low, st.high)
    return dict(st=st._replace(aux=None), low=low, high=high, s0=s0, v0=v0, g0=g0, x=x, at=F(best))

  def c_init(s, i, o):
    st = o['st']
    pre = s.xlt(sc(o['s0']), 0)
    cl = bracket(s, o['low'], o['high'])
    cl += [('ordered', s.And(s.ge(sc(st.low), 0), s.le(sc(st.low), sc(st.high)), s.xlt(0, sc(st.high)))),
           ('done iff the better end meets the conditions', s.iff(
               sc(st.done), s.Or(sc(o['at']['wolfe']), sc(o['at']['approx'])))),
           ('not failed', s.Not(sc(st.failed))),
           ('base point', s.And(s.eq(st.params, o['x']), s.eq(st.value, o['v0']), s.eq(st.grad, o['g0'])))]
    return [(l, s.implies(pre, c)) for l, c in cl]
  for mode, given, direction in (('', False, True), ('aux', False, True), ('vg', False, True),
                                 ('vgfun', False, True), ('', True, True), ('', False, False)):
    tag = ('_' + mode if mode else '') + ('_given' if given else '') + ('' if direction else '_negative_gradient')
    ps.append(Problem('init' + tag, dict(x=X, d=X, p=Sp()),
                      lambda x, d, p, mode=mode, given=given, direction=direction: f_init(
                          x, d, p, mode, given, direction, 0.1, 0.9), c_init,
                      ufs=[f], unwind=3 if T else 2, allow_cut=True, timeout=20,
                      bound='at most 2 bracketing and 2 bisection steps (3 thorough), dimension 1'))

  # one update from an arbitrary bracket
  def f_upd(x, d, p, low, high, it, mode, given, direction, done):
    c1, c2 = 0.1, 0.9
    ls = mk(mode, maxiter=4)
    v0, g0 = jax.value_and_grad(obj)(x, p)
    dd = d if direction else dict(a=-g0['a'])
    from jaxopt._src.hager_zhang_linesearch import HagerZhangLineSearchState as HS
    z = jnp.asarray(0)
    st = HS(iter_num=it, done=jnp.asarray(done), low=low, high=high, value=v0, error=jnp.asarray(
        0.0 if done else 1.0), params=x, grad=g0, failed=jnp.asarray(False), aux=None,
        num_fun_eval=z, num_grad_eval=z)
    s, n = ls.update(jnp.asarray(1.0), st, x, *((v0, g0) if given else ()),
                     descent_direction=d if direction else None, fun_args=(p,))
    phi = line(x, dd, p)
    s0 = g0['a'][0] * dd['a'][0]
    F = lambda t: facts(phi, t, v0, s0, c1, c2)
    v, _, y, g = phi(s)
    return dict(s=s, st=n._replace(aux=None), y=y, v=v, g=g, s0=s0, at=F(s), low=F(n.low), high=F(n.high),
                olow=F(low), ohigh=F(high), last=(it + 1 == 4), it1=it + 1,
                aux=n.aux if mode == 'aux' else {})

  def c_upd(mode, done):
    def claim(s, i, o):
      st = o['st']
      o = dict(o, last=sc(o['last']))
      don, fai = sc(st.done), sc(st.failed)
      pre = s.And([s.xlt(sc(o['s0']), 0), s.xle(sc(o['olow']['v']), sc(o['olow']['thr'])),
                   s.xlt(sc(o['olow']['sl']), 0),
                   s.Or(s.xle(0, sc(o['ohigh']['sl'])), s.xlt(sc(o['ohigh']['thr']), sc(o['ohigh']['v'])))])
      cl = ends(s, o, don, fai)
      if done:
        cl = [c for c in cl if c[0] not in ('done: Wolfe or approximate Wolfe', 'meeting the conditions means done')]
        cl += [('stays done', don), ('bracket kept', s.And(s.eq(sc(st.low), sc(i['low'])),
                                                          s.eq(sc(st.high), sc(i['high']))))]
      else:
        cl += bracket(s, o['low'], o['high'])
        cl += [('nested', s.And(s.le(sc(i['low']), sc(st.low)), s.le(sc(st.low), sc(st.high)),
                                s.le(sc(st.high), sc(i['high'])))),
               ('shrinks', s.le(sc(st.high) - sc(st.low), R_(0.66) * (sc(i['high']) - sc(i['low']))))]
      cl.append(('counts one iteration', s.eq(sc(st.iter_num), sc(o['it1']))))
      if mode == 'aux':
        cl.append(('aux at the returned stepsize', s.eq(o['aux']['e'], o['y']['a'] * R_(3))))
      return [(l, s.implies(pre, c)) for l, c in cl]
    return claim
  ui = dict(x=X, d=X, p=Sp(), low=Sp(), high=Sp(), it=Sp(kind='i', lo=0, hi=3))
  for mode, given, direction, done in (('', False, True, False), ('aux', True, True, False),
                                       ('vg', False, False, False), ('', True, True, True)):
    tag = ('_' + mode if mode else '') + ('_given' if given else '') + (
        '' if direction else '_negative_gradient') + ('_done' if done else '')
    ps.append(Problem('update' + tag, ui,
                      lambda mode=mode, given=given, direction=direction, done=done, **k: f_upd(
                          mode=mode, given=given, direction=direction, done=done, **k),
                      c_upd(mode, done), ufs=[f], unwind=2 if T else 1, allow_cut=True, timeout=20,
                      assume=lambda s, i: s.And(s.xle(0, sc(i['low'])), s.xlt(sc(i['low']), sc(i['high']))),
                      bound='any bracket, at most 1 bisection step per update (2 thorough), dimension 1'))

  # whole runs
  def f_run(x, d, p, m, jit):
    ls = HagerZhangLineSearch(obj, maxiter=m, jit=jit, unroll=False if jit else 'auto')
    s, st = ls.run(1.0, x, descent_direction=d, fun_args=(p,))
    v0, g0 = jax.value_and_grad(obj)(x, p)
    phi = line(x, d, p)
    s0 = g0['a'][0] * d['a'][0]
    F = lambda t: facts(phi, t, v0, s0, 0.1, 0.9)
    v, _, y, g = phi(s)
    return dict(s=s, st=st._replace(aux=None), y=y, v=v, g=g, s0=s0, at=F(s), low=F(st.low), high=F(st.high))

  def c_run(m):
    def claim(s, i, o):
      st = o['st']
      don, fai = sc(st.done), sc(st.failed)
      o = dict(o, last=s.eq(sc(st.iter_num), m))
      return [(l, s.implies(s.xlt(sc(o['s0']), 0), c)) for l, c in ends(s, o, don, fai)
              + [('ends done or failed', s.Or(don, fai))]]
    return claim
  for m in (1, 2) if T else ():
    ps.append(Problem(f'run_{m}', dict(x=X, d=X, p=Sp()), lambda x, d, p, m=m: f_run(x, d, p, m, True),
                      c_run(m), ufs=[f], unwind=1, allow_cut=True, timeout=20, max_paths=60,
                      bound=f'maxiter={m}, one step per inner loop'))
  return ps
