"""Backtracking line search."""
from props.lib import *
import jaxopt
from jaxopt import BacktrackingLineSearch
from symjax.uf import UF

FUNCTIONS = ['BacktrackingLineSearch.{init_state,update,run} for armijo, goldstein, wolfe, strong-wolfe']
ASSUMPTIONS = ['the objective is an arbitrary smooth function (optionally NaN on a half line)',
               'initial stepsize > 0']
tm = jax.tree_util.tree_map
CONDS = ('armijo', 'goldstein', 'wolfe', 'strong-wolfe')


def holds(cond, f0, s0, f1, s1, t, c1, c2):
  """The textbook condition, as jnp booleans."""
  suff = f1 <= f0 + c1 * t * s0
  return {'armijo': suff,
          'goldstein': suff & (f1 >= f0 + (1 - c1) * t * s0),
          'wolfe': suff & (s1 >= c2 * s0),
          'strong-wolfe': suff & (jnp.abs(s1) <= c2 * jnp.abs(s0))}[cond]


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f = UF('f', 3)
  X = dict(a=Sp(1), b=Sp())
  obj = lambda x, p: f(x['a'][0], x['b'], p)

  def nanobj(x, p):
    v = obj(x, p)
    return jnp.where(x['b'] > 1.0, jnp.nan, v)
  dec = dict(x=X, p=Sp(), t=Sp(), d=X)

  def slope(g, d):
    return jnp.vdot(g['a'], d['a']) + g['b'] * d['b']

  def spec_run(cond, m, x, p, t, d, c1, c2, fac, mx, fun=obj):
    """Tries t, t*fac, ... and stops at the first stepsize meeting the condition."""
    f0, g0 = jax.value_and_grad(fun)(x, p)
    if d is None:
      d = tm(lambda a: -a, g0)
    s0 = slope(g0, d)
    t = jnp.minimum(t, mx)
    go = jnp.asarray(True)
    out = None
    n = jnp.asarray(0)
    for k in range(m):
      y = tm(lambda a, b: a + t * b, x, d)
      f1, g1 = jax.value_and_grad(fun)(y, p)
      ok = holds(cond, f0, s0, f1, slope(g1, d), t, c1, c2)
      new = dict(t=t, params=y, value=f1, grad=g1, done=ok, failed=~ok if k == m - 1 else jnp.asarray(False))
      out = new if out is None else tm(lambda p_, q_: jnp.where(go, p_, q_), new, out)
      n = n + go
      go = go & ~ok
      t = t * fac
    return dict(out, iter_num=n)

  def run_case(name, cond, m, direction=True, given=False, mode='', jit=True, nan=False, kw=False, **opts):
    def fn(x, p, t, d):
      fun = nanobj if nan else obj
      k = dict(condition=cond, maxiter=m, jit=jit, unroll=False if jit else 'auto', **opts)
      if mode == 'aux':
        ls = BacktrackingLineSearch(lambda x, p: (fun(x, p), {'e': x['b'] * 3}), has_aux=True, **k)
      elif mode == 'vg':
        ls = BacktrackingLineSearch(jax.value_and_grad(fun), value_and_grad=True, **k)
      elif mode == 'vgfun':
        ls = BacktrackingLineSearch(fun, value_and_grad=jax.value_and_grad(fun), **k)
      else:
        ls = BacktrackingLineSearch(fun, **k)
      dd = d if direction else None
      vg = jax.value_and_grad(fun)(x, p) if given else (None, None)
      fa = dict(fun_kwargs=dict(p=p)) if kw else dict(fun_args=(p,))
      s, st = ls.run(t, x, *vg, descent_direction=dd, **fa)
      ref = spec_run(cond, m, x, p, t, dd, k.get('c1', 1e-4), k.get('c2', 0.9),
                     k.get('decrease_factor', 0.8), k.get('max_stepsize', 1.0), fun)
      cheap = cond in ('armijo', 'goldstein')
      e0 = 0 if given else 1
      nf = ref['iter_num'] + e0 + cheap
      ng = jnp.asarray(e0 + 1) if cheap else ref['iter_num'] + e0
      return dict(nf=nf, ng=ng, s=s, st=st._replace(aux=None), ref=ref, aux=st.aux if mode == 'aux' else {})

    def claim(s, i, o):
      st, ref = o['st'], o['ref']
      ok = ref['done']
      cl = [('done exactly when the condition holds', s.iff(sc(st.done), sc(ref['done']))),
            ('failed exactly when no trial meets it', s.iff(sc(st.failed), sc(ref['failed']))),
            ('number of trials', s.eq(st.iter_num, ref['iter_num'])),
            ('stepsize is the accepted trial', s.eq(sc(o['s']), sc(ref['t']))),
            ('params at the accepted trial', s.eq(st.params, ref['params'])),
            ('value at the accepted trial', s.eq(st.value, ref['value'])),
            ('gradient at the accepted trial', s.eq(st.grad, ref['grad'])),
            ('error zero iff done', s.iff(sc(ref['done']), s.xle(sc(st.error), 0)))]
      if mode == 'aux':
        cl.append(('aux at the accepted trial', s.eq(o['aux']['e'], ref['params']['b'] * R_(3))))
      cl.append(('evaluation counts', s.And(s.eq(sc(st.num_fun_eval), sc(o['nf'])),
                                            s.eq(sc(st.num_grad_eval), sc(o['ng'])))))
      return cl
    ps.append(Problem(name, dec, fn, claim, ufs=[f], live=not jit,
                      assume=lambda s, i: s.And([s.xlt(0, sc(i['t']))] + ([] if not nan else [
                          s.xle(sc(i['x']['b']), 1)])),
                      bound=f'maxiter={m}, 2 coordinates', timeout=30, fork_select=nan))

  M = 3 if T else 2
  for cond in CONDS:
    for m in range(1, M + 1):
      run_case(f'run_{cond}_{m}', cond, m)
    run_case(f'run_{cond}_negative_gradient', cond, 2, direction=False)
    run_case(f'run_{cond}_given_value', cond, 2, given=True)
    run_case(f'run_{cond}_python_loop', cond, 2, jit=False)
    run_case(f'run_{cond}_aux', cond, 2, mode='aux')
    run_case(f'run_{cond}_vg', cond, 2, mode='vg')
    run_case(f'run_{cond}_vgfun', cond, 2, mode='vgfun')
    run_case(f'run_{cond}_kwargs', cond, 1, kw=True)
    run_case(f'run_{cond}_nan', cond, 2 if T or cond == 'armijo' else 1, nan=True, c1=0.25, c2=0.5)
    run_case(f'run_{cond}_options', cond, 2, c1=0.25, c2=0.5, decrease_factor=0.5, max_stepsize=3.0)

  # sufficient decrease is a real decrease: with a descent direction, done means f went down
  for cond in CONDS:
    def f_dec(x, p, t, d, cond=cond):
      ls = BacktrackingLineSearch(obj, condition=cond, maxiter=M, c1=0.25, unroll=False)
      s, st = ls.run(t, x, descent_direction=d, fun_args=(p,))
      return s, st._replace(aux=None), obj(x, p), slope(jax.grad(obj)(x, p), d)
    ps.append(Problem(
        f'decrease_{cond}', dec, f_dec,
        lambda s, i, o: [('a done search along a descent direction decreases f', s.implies(
            s.And(sc(o[1].done), s.gt(0, sc(o[3]))), s.le(sc(o[1].value), sc(o[2])))),
            ('stepsize in (0, max_stepsize]', s.And(s.le(sc(o[0]), 1),
                                                    s.Or(s.xlt(0, sc(o[0]))))),
            ('stepsize never above the initial one', s.le(sc(o[0]), sc(i['t'])))],
        ufs=[f], assume=lambda s, i: s.xlt(0, sc(i['t'])), bound=f'maxiter={M}', timeout=30))
  return ps
