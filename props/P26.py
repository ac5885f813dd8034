"""Stochastic gradient solvers: Polyak, Armijo and the optax wrapper."""
from typing import NamedTuple, Any
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['PolyakSGD.{init_state,update,optimality_fun}', 'ArmijoSGD.{init_state,update,reset_stepsize}',
             'armijo_line_search', 'OptaxSolver.{init_state,update,optimality_fun}']
ASSUMPTIONS = ['the objective is an arbitrary smooth function of a pytree with two leaves and of the batch',
               'the optax transformation is an arbitrary function of gradient, state and parameters']
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
unvec = lambda v: dict(a=v[:1], b=v[1])
EPS = float(np.finfo(np.float32).eps)


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f = UF('f', 3)
  obj = lambda x, data: f(x['a'][0], x['b'], data)
  vg = jax.value_and_grad(obj)
  obja = lambda x, data: (obj(x, data), {'e': x['a'] * 3})
  vga = lambda x, data: (obja(x, data), vg(x, data)[1])
  X = dict(a=Sp(1), b=Sp())
  I = Sp(kind='i', lo=0, hi=50)
  teq = lambda s, t, v: s.eq(np.concatenate([np.ravel(t['a']), np.ravel(t['b'])]), v)
  fun_of = lambda mode: dict(aux=obja, vg=vg, vgaux=vga).get(mode, obj)
  flags = lambda mode: dict(value_and_grad='vg' in mode, has_aux='aux' in mode)

  def pre(params, state, data):
    return jax.tree_util.tree_map(lambda l: 2 * l, params), state._replace(iter_num=state.iter_num + 10)

  # Polyak.
  def f_pol(mode, variant, mom, delta, prep, x, v, d, it, nf, ng):
    sol = jaxopt.PolyakSGD(fun_of(mode), variant=variant, momentum=mom, delta=delta, max_stepsize=0.75, fun_min=0.5,
                           pre_update=pre if prep else None, **flags(mode))
    st = sol.init_state(x, data=d)
    n0 = st
    st = st._replace(iter_num=it, num_fun_eval=nf, num_grad_eval=ng)
    if mom:
      st = st._replace(velocity=v)
    q, n = sol.update(x, st, data=d)
    z = unvec(2 * vec(x)) if prep else x
    val, g = vg(z, d)
    g2 = vec(g) @ vec(g)
    # The stepsize formulas of the documentation, away from a zero gradient.
    ratio = (val - 0.5) / (g2 + (delta if variant == 'SPS_max' else 0.))
    gam = jnp.minimum(ratio, 0.75) if variant == 'SPS_max' else jnp.maximum(ratio, 0.)
    eta = n.stepsize
    vel = mom * vec(v) - eta * vec(g)
    return dict(q=vec(q), n=n, n0=n0, g2=g2, gam=gam, vel=vel, want=vec(z) + (vel if mom else -eta * vec(g)),
                nv=vec(n.velocity) if mom else vel, val=val, it1=it + (11 if prep else 1), nf1=nf + 1, ng1=ng + 1,
                a3=z['a'] * 3, opt=sol.optimality_fun(x, data=d), og=vg(x, d)[1])
  def c_pol(mode, variant, mom):
    def claim(s, i, o):
      n, g2 = o['n'], sc(o['g2'])
      lim = R_(EPS) if variant == 'SPS+' else V.ZERO
      return [('documented stepsize', s.implies(V.rlt(lim, g2), s.eq(sc(n.stepsize), sc(o['gam'])))),
              ('zero stepsize for a zero gradient', s.implies(V.rle(g2, V.ZERO), s.eq(sc(n.stepsize), 0))),
              ('step', s.eq(o['q'], o['want'])), ('velocity', s.eq(o['nv'], o['vel'])),
              ('value and gradient norm before the step', s.And(
                  s.eq(n.value, o['val']), s.ge(sc(n.error), 0), s.eq(sc(n.error) * sc(n.error), g2))),
              ('counters', s.And(s.eq(n.iter_num, o['it1']), s.eq(n.num_fun_eval, o['nf1']), s.eq(n.num_grad_eval, o['ng1']))),
              ('optimality_fun is the gradient', s.eq(o['opt'], o['og']))] + (
                  [('aux', s.eq(n.aux['e'], o['a3']))] if 'aux' in mode else [])
    return claim
  for mode, variant, mom, delta, prep in (('', 'SPS_max', 0., 0., False), ('aux', 'SPS_max', 0.5, 0.25, False),
                                          ('vg', 'SPS+', 0., 0., False), ('vgaux', 'SPS+', 0.5, 0., True),
                                          ('aux', 'SPS_max', 0., 0., True)):
    ps.append(Problem(f'polyak_{mode}_{variant}_m{mom}{"_pre" if prep else ""}', dict(x=X, v=X, d=Sp(), it=I, nf=I, ng=I),
                      lambda mode=mode, variant=variant, mom=mom, delta=delta, prep=prep, **i: f_pol(
                          mode, variant, mom, delta, prep, **i), c_pol(mode, variant, mom), ufs=[f], timeout=30,
                      bound='any state and batch'))

  # Armijo.
  def f_arm(mode, opt, mom, maxls, x, v, d, it, t):
    inc, dec, agg, mx = 1.5, 0.5, 0.75, 0.875
    sol = jaxopt.ArmijoSGD(fun_of(mode), aggressiveness=agg, decrease_factor=dec, increase_factor=inc, reset_option=opt,
                           momentum=mom, max_stepsize=mx, maxls=maxls, **flags(mode))
    st = sol.init_state(x, data=d)
    n0 = st
    st = st._replace(iter_num=it, stepsize=t)
    if mom:
      st = st._replace(velocity=v)
    q, n = sol.update(x, st, data=d)
    val, g = vg(x, d)
    g, z = vec(g), vec(x)
    g2 = g @ g
    ev = lambda e: obj(unvec(z - e * g), d)
    e = jnp.minimum(t * inc, mx) if opt == 'increase' else t
    fe, on = ev(e), jnp.asarray(True)
    for _ in range(maxls):
      bad = on & (e * (1 - agg) * g2 > val - fe + jnp.finfo(val.dtype).eps)
      e = jnp.where(bad, jnp.minimum(e * dec, mx), e)
      fe = ev(e)
      if opt == 'goldstein':
        low = on & (fe < val - e * agg * g2)
        e = jnp.where(low, jnp.minimum(e * inc, mx), e)
        fe = ev(e)
        bad = bad | low
      on = bad
    plain = z - e * g
    want = plain + (mom * vec(v) if mom else 0.)
    return dict(q=vec(q), n=n, n0=n0, e=e, fe=fe, want=want, vel=want - z, nv=vec(n.velocity) if mom else want - z, g2=g2,
                it1=it + 1, a3=x['a'] * 3, ok=jnp.logical_not(on), dec=val - fe - e * (1 - agg) * g2,
                opt=sol.optimality_fun(x, data=d), og=vg(x, d)[1])
  def c_arm(mode, opt):
    def claim(s, i, o):
      n = o['n']
      return [('stepsize of the search', s.eq(sc(n.stepsize), sc(o['e']))), ('step', s.eq(o['q'], o['want'])),
              ('velocity', s.eq(o['nv'], o['vel'])), ('value at the accepted point', s.eq(n.value, o['fe'])),
              ('sufficient decrease when the search ends early', s.implies(sc(o['ok']), s.ge(sc(o['dec']), -EPS))),
              ('gradient norm', s.And(s.ge(sc(n.error), 0), s.eq(sc(n.error) * sc(n.error), sc(o['g2'])))),
              ('count', s.eq(n.iter_num, o['it1'])), ('optimality_fun is the gradient', s.eq(o['opt'], o['og'])),
              ('stepsize stays positive and bounded', s.And(s.implies(V.rle(sc(i['t']), R_(0.875)), s.le(sc(n.stepsize), 0.875)),
                                                            V.rlt(V.ZERO, sc(n.stepsize)))),
              ('start', s.And(s.eq(sc(o['n0'].stepsize), 0.875), s.eq(o['n0'].iter_num, 0), sc(o['n0'].error).pinf))] + (
                  [('aux', s.eq(n.aux['e'], o['a3']))] if 'aux' in mode else [])
    return claim
  for mode, opt, mom, maxls in (('', 'increase', 0., 2), ('aux', 'conservative', 0.5, 2), ('vgaux', 'goldstein', 0., 2 if T else 1),
                                ('vg', 'increase', 0.5, 1), ('aux', 'goldstein', 0.5, 1)):
    ps.append(Problem(f'armijo_{mode}_{opt}_m{mom}', dict(x=X, v=X, d=Sp(), it=I, t=Sp()),
                      lambda mode=mode, opt=opt, mom=mom, maxls=maxls, **i: f_arm(mode, opt, mom, maxls, **i),
                      c_arm(mode, opt), ufs=[f], timeout=40, assume=lambda s, i: V.rlt(V.ZERO, sc(i['t'])),
                      bound=f'at most {maxls} search steps, any state and batch'))

  # Optax wrapper around an arbitrary transformation.
  ua, ub, us = UF('ua', 5), UF('ub', 5), UF('us', 5)

  class Opt(NamedTuple):
    init: Any
    update: Any
  args = lambda g, s, x: (g['a'][0], g['b'], s, x['a'][0], x['b'])
  opt = Opt(lambda x: 3 * x['b'], lambda g, s, x: (dict(a=ua(*args(g, s, x))[None], b=ub(*args(g, s, x))), us(*args(g, s, x))))
  def f_opt(mode, prep, x, d, s, it):
    sol = jaxopt.OptaxSolver(fun_of(mode), opt, pre_update=pre if prep else None, **flags(mode))
    st = sol.init_state(x, data=d)
    n0 = st
    q, n = sol.update(x, st._replace(internal_state=s, iter_num=it), data=d)
    z = unvec(2 * vec(x)) if prep else x
    val, g = vg(z, d)
    delta, s2 = opt.update(g, s, z)
    return dict(q=vec(q), want=vec(z) + vec(delta), n=n, n0=n0, s2=s2, val=val, g2=vec(g) @ vec(g), it1=it + (11 if prep else 1),
                a3=z['a'] * 3, b3=3 * x['b'], opt=sol.optimality_fun(x, data=d), og=vg(x, d)[1])
  for mode, prep in (('', False), ('aux', True), ('vgaux', False)):
    ps.append(Problem(f'optax_{mode}{"_pre" if prep else ""}', dict(x=X, d=Sp(), s=Sp(), it=I),
                      lambda mode=mode, prep=prep, **i: f_opt(mode, prep, **i), lambda s, i, o, mode=mode: [
        ('parameters plus the update', s.eq(o['q'], o['want'])), ('state of the transformation', s.eq(sc(o['n'].internal_state), sc(o['s2']))),
        ('value and gradient norm before the step', s.And(s.eq(o['n'].value, o['val']), s.ge(sc(o['n'].error), 0), s.eq(
            sc(o['n'].error) * sc(o['n'].error), sc(o['g2'])))),
        ('count', s.eq(o['n'].iter_num, o['it1'])), ('optimality_fun is the gradient', s.eq(o['opt'], o['og'])),
        ('start', s.And(s.eq(o['n0'].iter_num, 0), sc(o['n0'].error).pinf, s.eq(sc(o['n0'].internal_state), sc(o['b3']))))] + (
            [('aux', s.eq(o['n'].aux['e'], o['a3']))] if 'aux' in mode else []), ufs=[f, ua, ub, us]))

  def f_run(x, d):
    sol = jaxopt.OptaxSolver(obj, opt, maxiter=2, tol=-1.0, jit=False)
    q, st = sol.run(x, data=d)
    s, z = opt.init(x), x
    for _ in range(2):
      delta, s = opt.update(vg(z, d)[1], s, z)
      z = unvec(vec(z) + vec(delta))
    return q, vec(z), st.internal_state, s
  ps.append(Problem('optax_run', dict(x=X, d=Sp()), f_run, lambda s, i, o: [
      ('two updates', s.And(teq(s, o[0], o[1]), s.eq(sc(o[2]), sc(o[3]))))], ufs=[f, ua, ub, us], live=True))
  return ps
