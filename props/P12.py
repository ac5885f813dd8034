"""Zoom line search: inductive step over arbitrary states, and whole runs."""
from props.lib import *
import jaxopt
from jaxopt import ZoomLineSearch
from symjax.uf import UF

DCE = True   # drop what the claims do not depend on
FUNCTIONS = ['ZoomLineSearch.{init_state,update,run,_search_interval,_zoom_into_interval,_make_safe_step}']
ASSUMPTIONS = ['the objective is an arbitrary smooth function (optionally NaN on a half line)',
               'the direction is a descent direction, initial stepsize > 0',
               'step problems: any state satisfying the invariant listed in the check, which '
               'init_state establishes and every update is shown to preserve']
C1, C2, C3 = 1e-4, 0.9, 1e-6


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f = UF('f', 2)
  obj = lambda x, p: f(x['a'][0], p)
  nan_at = lambda fun: (lambda x, p: jnp.where(x['a'][0] > 1.0, jnp.nan, fun(x, p)))
  X = dict(a=Sp(1))

  def line(fun, x, d, p):
    def phi(s):
      y = dict(a=x['a'] + s * d['a'])
      v, g = jax.value_and_grad(fun)(y, p)
      return v, g['a'][0] * d['a'][0], y, g
    return phi

  def decrease(s, v, sl, v0, s0):
    return (v <= v0 + C1 * s * s0) | ((sl <= (2 * C1 - 1) * s0) & (v <= v0 + C3 * jnp.abs(v0)))

  def facts(phi, s, v0, s0):
    """(decrease holds, curvature holds, value, slope) at stepsize s."""
    v, sl, _, _ = phi(s)
    return dict(dec=decrease(s, v, sl, v0, s0), curv=jnp.abs(sl) <= C2 * jnp.abs(s0), v=v, sl=sl)

  # ---- whole runs
  def run_case(name, m, mode='', jit=True, given=False, nan=False, kw=False, default_max=False,
               direction=True, **pk):
    mx = 2.0 ** m if default_max else 3.0

    def fn(x, d, p, t):
      fun = nan_at(obj) if nan else obj
      k = dict(maxiter=m, jit=jit, unroll=False if jit else 'auto')
      if not default_max:
        k['max_stepsize'] = mx
      if mode == 'aux':
        ls = ZoomLineSearch(lambda x, p: (fun(x, p), {'e': x['a'] * 3}), has_aux=True, **k)
      elif mode == 'vg':
        ls = ZoomLineSearch(jax.value_and_grad(fun), value_and_grad=True, **k)
      elif mode == 'vgfun':
        ls = ZoomLineSearch(fun, value_and_grad=jax.value_and_grad(fun), **k)
      else:
        ls = ZoomLineSearch(fun, **k)
      v0, g0 = jax.value_and_grad(fun)(x, p)
      dd = d if direction else dict(a=-g0['a'])
      fa = dict(fun_kwargs=dict(p=p)) if kw else dict(fun_args=(p,))
      s, st = ls.run(t, x, *((v0, g0) if given else ()), descent_direction=d if direction else None, **fa)
      phi = line(fun, x, dd, p)
      s0 = g0['a'][0] * dd['a'][0]
      v, sl, y, g = phi(s)
      y0 = phi(jnp.minimum(t, mx))
      first = facts(phi, jnp.minimum(t, mx), v0, s0)
      return dict(s=s, st=st._replace(aux=None), y=y, v=v, g=g, s0=s0, v0=v0,
                  at=facts(phi, s, v0, s0), first=first, aux=st.aux if mode == 'aux' else {})

    def claim(s, i, o):
      st, at = o['st'], o['at']
      don, fai = sc(st.done), sc(st.failed)
      cl = [('ends done or failed', s.Or(don, fai)),
            ('not both', s.Not(s.And(don, fai))),
            ('params at the returned stepsize', s.eq(st.params, o['y'])),
            ('value at the returned stepsize', s.eq(st.value, o['v'])),
            ('gradient at the returned stepsize', s.eq(st.grad, o['g'])),
            ('done: sufficient decrease', s.implies(don, sc(at['dec']))),
            ('done: curvature, or the largest stepsize', s.implies(don, s.Or(
                sc(at['curv']), s.ge(sc(o['s']), mx)))),
            ('stepsize in [0, max]', s.And(s.ge(sc(o['s']), 0), s.le(sc(o['s']), mx))),
            ('a good first trial is taken at once', s.implies(
                s.And(sc(o['first']['dec']), sc(o['first']['curv'])),
                s.And(don, s.eq(sc(st.iter_num), 1)))),
            ('failed but the first trial decreased: the returned point does too',
             s.implies(s.And(fai, sc(o['first']['dec'])), sc(at['dec']))),
            ('failed only out of iterations (or interval too small)', s.implies(
                s.And(fai, s.lt(sc(st.iter_num), m)),
                s.le(s.abs(sc(st.high) - sc(st.low)), 1)))]
      cl.append(('iterations', s.And(s.le(sc(st.iter_num), m), s.ge(sc(st.iter_num), 1))))
      if mode == 'aux':
        cl.append(('aux at the returned stepsize', s.eq(o['aux']['e'], o['y']['a'] * R_(3))))
      return cl
    ps.append(Problem(name, dict(x=X, d=X, p=Sp(), t=Sp()), fn, claim, ufs=[f], live=not jit,
                      assume=lambda s, i: s.xlt(0, sc(i['t'])),
                      covers=None, bound=f'maxiter={m}, dimension 1', timeout=20,
                      ghost=(), mid=None, **pk))
    return ps[-1]

  # slope must be negative: expressed through the claims' antecedent
  def with_descent(P):
    old = P.claim
    P.claim = lambda s, i, o: [(l, s.implies(s.xlt(sc(o['s0']), 0), c)) for l, c in old(s, i, o)]
    return P
  with_descent(run_case('run_1', 1))
  with_descent(run_case('run_1_default_max', 1, default_max=True))
  with_descent(run_case('run_1_vg', 1, mode='vg'))
  with_descent(run_case('run_1_vgfun', 1, mode='vgfun'))
  with_descent(run_case('run_1_aux', 1, mode='aux'))
  with_descent(run_case('run_1_given', 1, given=True))
  with_descent(run_case('run_1_kwargs', 1, kw=True))
  with_descent(run_case('run_1_negative_gradient', 1, direction=False))
  with_descent(run_case('run_1_nan', 1, nan=True))
  with_descent(run_case('run_2', 2))
  with_descent(run_case('run_2_python', 2, jit=False))
  if T:
    with_descent(run_case('run_2_nan', 2, nan=True))
    with_descent(run_case('run_3', 3))

  # ---- inductive steps
  def mk(ls, x, d, p, it, found, prev, low, high, ref, safe):
    st = ls.init_state(1.0, x, descent_direction=d, fun_args=(p,))
    phi = line(obj, x, d, p)
    e = {}
    for n, s in (('prev', prev), ('low', low), ('high', high), ('ref', ref)):
      v, sl, _, _ = phi(s)
      e[n] = (s, v, sl)
    return st._replace(
        iter_num=it, interval_found=found, prev_stepsize=e['prev'][0], prev_value_step=e['prev'][1],
        prev_slope_step=e['prev'][2], low=e['low'][0], value_low=e['low'][1], slope_low=e['low'][2],
        high=e['high'][0], value_high=e['high'][1], slope_high=e['high'][2], cubic_ref=e['ref'][0],
        value_cubic_ref=e['ref'][1], safe_stepsize=safe), phi
  MAX = 4.0

  def outputs(ls, st, nst, s, phi, x, p):
    v0, g0 = jax.value_and_grad(obj)(x, p)
    s0 = st.slope_init
    F = lambda t: facts(phi, t, v0, s0)
    v, sl, y, g = phi(s)
    return dict(s=s, n=nst._replace(aux=None), o=st._replace(aux=None), y=y, v=v, g=g, s0=s0, v0=v0, g0=g0, x=x,
                at=F(s), low=F(nst.low), high=F(nst.high), ref=phi(nst.cubic_ref)[0], prev=F(nst.prev_stepsize),
                safe=F(nst.safe_stepsize), old_low=F(st.low), old_high=F(st.high), old_prev=F(st.prev_stepsize),
                old_safe=F(st.safe_stepsize))

  def invariant(s, st, low, high, safe, v0, s0, strict=True):
    """The zoom interval brackets a point satisfying both conditions."""
    w = sc(st.high) - sc(st.low)
    lt0 = (lambda a: s.xlt(a, 0)) if strict else (lambda a: s.le(a, 0))
    return [
        ('low decreases', s.Or(sc(low['dec']))),
        ('f goes down from low into the interval', lt0(sc(low['sl']) * w)),
        ('high is an end', s.Or(s.Not(sc(high['dec'])), s.xle(sc(low['v']), sc(high['v'])),
                                s.xle(0, sc(high['sl']) * w))),
        ('inside [0, max]', s.And([s.And(s.xle(0, sc(e)), s.xle(sc(e), MAX)) for e in (st.low, st.high)]))]

  def end_claims(s, o):
    n, at = o['n'], o['at']
    don, fai = sc(n.done), sc(n.failed)
    stop = s.Or(don, fai)
    return [
        ('not both done and failed', s.Not(s.And(don, fai))),
        ('final params', s.implies(stop, s.eq(n.params, o['y']))),
        ('final value', s.implies(stop, s.eq(n.value, o['v']))),
        ('final gradient', s.implies(stop, s.eq(n.grad, o['g']))),
        ('base point kept while searching', s.implies(s.Not(stop), s.And(
            s.eq(n.params, o['x']), s.eq(n.value, o['v0']), s.eq(n.grad, o['g0'])))),
        ('initial value and slope kept', s.And(s.eq(n.value_init, o['v0']), s.eq(n.slope_init, o['s0']))),
        ('done: sufficient decrease', s.implies(don, sc(at['dec']))),
        ('done: curvature, or the largest stepsize', s.implies(don, s.Or(sc(at['curv']), s.ge(sc(o['s']), MAX)))),
        ('a good trial ends the search', s.implies(
            s.And(s.Not(fai), sc(at['dec']), sc(at['curv'])), don)),
        ('failed: a decreasing point if one was seen', s.implies(
            s.And(fai, s.gt(sc(n.safe_stepsize), 0)), sc(at['dec']))),
        ('safe stepsize decreases', s.implies(s.gt(sc(n.safe_stepsize), 0), sc(o['safe']['dec']))),
        ('a decreasing trial is remembered', s.implies(
            s.And(sc(at['dec']), s.Not(stop)), s.ge(sc(n.safe_stepsize), sc(o['s'])))),
        ('stepsize in [0, max]', s.And(s.ge(sc(o['s']), 0), s.le(sc(o['s']), MAX)))]

  def f_search(x, d, p, t, it, prev, safe):
    ls = ZoomLineSearch(obj, maxiter=5, max_stepsize=MAX)
    z = jnp.asarray(0.0)
    st, phi = mk(ls, x, d, p, it, jnp.asarray(False), prev, z, z, z, safe)
    s, n = ls.update(t, st, x, fun_args=(p,))
    return dict(outputs(ls, st, n, s, phi, x, p), it1=it + 1)

  def c_search(first):
    def claim(s, i, o):
      n = o['n']
      pre = s.And(s.xlt(sc(o['s0']), 0), sc(o['old_prev']['dec']), s.xlt(sc(o['old_prev']['sl']), 0),
                  s.Or(s.xle(sc(i['safe']), 0), sc(o['old_safe']['dec'])))
      found, stop = sc(n.interval_found), s.Or(sc(n.done), sc(n.failed))
      cl = [('tries the initial stepsize', s.implies(
          s.Not(sc(n.failed)), s.eq(sc(o['s']), s.min(sc(i['t']), MAX))))]
      if not first:
        cl = [('tries twice the previous stepsize', s.implies(
            s.Not(sc(n.failed)), s.eq(sc(o['s']), s.min(R_(2) * sc(i['prev']), MAX))))]
      cl += end_claims(s, o)
      go = s.And(s.Not(stop), s.Not(found))
      cl += [('still searching: previous point decreases and f still goes down', s.implies(go, s.And(
          sc(o['prev']['dec']), s.xlt(sc(o['prev']['sl']), 0), s.eq(sc(n.prev_value_step), sc(o['prev']['v'])),
          s.eq(sc(n.prev_slope_step), sc(o['prev']['sl'])), s.eq(sc(n.prev_stepsize), sc(o['s'])),
          s.xlt(sc(n.prev_stepsize), MAX)))),
             ('still searching: f went down', s.implies(go, s.le(sc(o['prev']['v']), sc(o['old_prev']['v'])))
              if not first else True)]
      ready = s.And(s.Not(stop), found)
      cl += [('interval: ' + l, s.implies(ready, c)) for l, c in
             invariant(s, n, o['low'], o['high'], o['safe'], o['v0'], o['s0'])]
      cl += [('interval values', s.implies(ready, s.And(
          s.eq(sc(n.value_low), sc(o['low']['v'])), s.eq(sc(n.slope_low), sc(o['low']['sl'])),
          s.eq(sc(n.value_high), sc(o['high']['v'])), s.eq(sc(n.slope_high), sc(o['high']['sl'])),
          s.eq(sc(n.value_cubic_ref), sc(o['ref'])))))]
      cl.append(('counts one iteration', s.eq(sc(n.iter_num), sc(o['it1']))))
      return [(l, s.implies(pre, c)) for l, c in cl if c is not True]
    return claim
  base = dict(x=X, d=X, p=Sp(), t=Sp(), it=Sp(kind='i', lo=0, hi=4), prev=Sp(), safe=Sp())

  def pre_search(first):
    def assume(s, i):
      a = [s.xlt(0, sc(i['t'])), s.xle(0, sc(i['safe'])), s.xle(sc(i['safe']), MAX)]
      if first:
        return s.And(a + [s.xeq(sc(i['prev']), 0), s.eq(sc(i['it']), 0), s.xeq(sc(i['safe']), 0)])
      return s.And(a + [s.xlt(0, sc(i['prev'])), s.xlt(sc(i['prev']), MAX), s.ge(sc(i['it']), 1),
                        s.xeq(sc(i['safe']), sc(i['prev']))])
    return assume
  for first in (True, False):
    ps.append(Problem('search_first_step' if first else 'search_later_step', base, f_search, c_search(first),
                      assume=pre_search(first), ufs=[f], timeout=20,
                      bound='any state, iteration <= 5, dimension 1'))

  def f_zoom(x, d, p, t, it, low, high, ref, safe):
    ls = ZoomLineSearch(obj, maxiter=5, max_stepsize=MAX)
    st, phi = mk(ls, x, d, p, it, jnp.asarray(True), jnp.asarray(0.0), low, high, ref, safe)
    s, n = ls.update(t, st, x, fun_args=(p,))
    return dict(outputs(ls, st, n, s, phi, x, p), it1=it + 1)

  def c_zoom(s, i, o):
    n, st = o['n'], o['o']
    pre = s.And([s.xlt(sc(o['s0']), 0), s.Or(s.xle(sc(i['safe']), 0), sc(o['old_safe']['dec']))]
                + [c for _, c in invariant(s, st, o['old_low'], o['old_high'], None, o['v0'], o['s0'])])
    lo, hi = s.min(sc(i['low']), sc(i['high'])), s.max(sc(i['low']), sc(i['high']))
    go = s.Not(s.Or(sc(n.done), sc(n.failed)))
    cl = end_claims(s, o)
    cl += [('trial strictly inside the interval', s.implies(s.Not(sc(n.failed)), s.And(
        s.xlt(lo, sc(o['s'])), s.xlt(sc(o['s']), hi)))),
        ('interval shrinks', s.implies(go, s.And(
            s.And([s.And(s.ge(sc(e), lo), s.le(sc(e), hi)) for e in (n.low, n.high)]),
            s.Or(s.xlt(lo, s.min(sc(n.low), sc(n.high))), s.xlt(s.max(sc(n.low), sc(n.high)), hi))))),
        ('low value never increases', s.implies(go, s.le(sc(o['low']['v']), sc(o['old_low']['v'])))),
        ('values recorded', s.implies(go, s.And(
            s.eq(sc(n.value_low), sc(o['low']['v'])), s.eq(sc(n.slope_low), sc(o['low']['sl'])),
            s.eq(sc(n.value_high), sc(o['high']['v'])), s.eq(sc(n.slope_high), sc(o['high']['sl'])),
            s.eq(sc(n.value_cubic_ref), sc(o['ref']))))),
        ('counts one iteration', s.eq(sc(n.iter_num), sc(o['it1']))),
        ('stays in zoom mode', s.implies(go, sc(n.interval_found))),
        ('failed only for lack of iterations or a tiny interval with a decreasing point', s.implies(
            sc(n.failed), s.Or(s.ge(sc(n.iter_num), 5), s.le(hi - lo, R_(1e-6))))),
        ('stops at the last iteration', s.implies(s.ge(sc(n.iter_num), 5), s.Not(go)))]
    cl += [('interval: ' + l, s.implies(go, c)) for l, c in
           invariant(s, n, o['low'], o['high'], o['safe'], o['v0'], o['s0'])]
    return [(l, s.implies(pre, c)) for l, c in cl]
  zin = dict(x=X, d=X, p=Sp(), t=Sp(), it=Sp(kind='i', lo=1, hi=4), low=Sp(), high=Sp(), ref=Sp(), safe=Sp())
  ps.append(Problem('zoom_step', zin, f_zoom, c_zoom, ufs=[f], timeout=30, quick_ms=50,
                    assume=lambda s, i: s.And(
                        [s.xle(0, sc(i['safe'])), s.xle(sc(i['safe']), MAX)]
                        + [s.And(s.xle(0, sc(i[k])), s.xle(sc(i[k]), MAX)) for k in ('low', 'high')]),
                    bound='any state, iteration <= 5, dimension 1'))

  def f_init(x, d, p, t):
    ls = ZoomLineSearch(obj)
    st = ls.init_state(t, x, descent_direction=d, fun_args=(p,))
    v0, g0 = jax.value_and_grad(obj)(x, p)
    sl = g0['a'][0] * d['a'][0]
    z = jnp.asarray(0.0)
    return st._replace(aux=None), dict(params=x, value=v0, grad=g0, vi=v0, si=sl, dd=d, prev=(z, v0, sl))
  ps.append(Problem('init_state', dict(x=X, d=X, p=Sp(), t=Sp()), f_init, lambda s, i, o: [
      ('initial state', s.And(s.eq(o[0].params, o[1]['params']), s.eq(o[0].value, o[1]['value']),
                              s.eq(o[0].grad, o[1]['grad']), s.eq(o[0].value_init, o[1]['vi']),
                              s.eq(o[0].slope_init, o[1]['si']), s.eq(o[0].descent_direction, o[1]['dd']),
                              s.eq((o[0].prev_stepsize, o[0].prev_value_step, o[0].prev_slope_step), o[1]['prev']),
                              s.Not(sc(o[0].done)), s.Not(sc(o[0].failed)), s.Not(sc(o[0].interval_found)),
                              s.eq(sc(o[0].safe_stepsize), 0), s.eq(sc(o[0].iter_num), 0)))], ufs=[f]))
  return ps
