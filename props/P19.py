"""Projected gradient and mirror descent."""
from props.lib import *
import jaxopt
from jaxopt import projection as pr
from symjax.uf import UF

FUNCTIONS = ['ProjectedGradient.{init_state,update,run,optimality_fun}', 'make_prox_from_projection',
             'MirrorDescent.{init_state,update,run,optimality_fun,make_projection_grad}']
ASSUMPTIONS = ['objective, projection and mirror map are arbitrary functions of a pytree with two leaves, except in '
               'the feasibility and optimality problems, which use the real projections']
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
unvec = lambda v: dict(a=v[:1], b=v[1])


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f, pa, pb = UF('f', 3), UF('pa', 3), UF('pb', 3)
  ma, mb = UF('ma', 2), UF('mb', 2)
  obj = lambda x, p: f(x['a'][0], x['b'], p)
  vg = jax.value_and_grad(obj)
  proj = lambda x, l: dict(a=pa(x['a'][0], x['b'], l)[None], b=pb(x['a'][0], x['b'], l))
  mirror = lambda x: dict(a=ma(x['a'][0], x['b'])[None], b=mb(x['a'][0], x['b']))
  X = dict(a=Sp(1), b=Sp())
  I = Sp(kind='i', lo=0, hi=50)
  aux = lambda x, p: (obj(x, p), {'e': x['a'] * 3})
  tree_eq = lambda s, t, v: s.eq(np.concatenate([t['a'], [sc(t['b'])]]), v)

  # Projected gradient with an arbitrary projection.
  def mkpg(mode, **k):
    fun = dict(aux=aux, vg=vg, vgaux=lambda x, p: (aux(x, p), vg(x, p)[1])).get(mode, obj)
    return jaxopt.ProjectedGradient(fun, proj, value_and_grad='vg' in mode, has_aux='aux' in mode, **k)

  def f_pg(mode, accel, step, x, y, t, s, l, p, it):
    kw = dict(stepsize=(lambda k: 0.25 * (k + 1)) if step == 'fun' else 0.5)
    if step == 'ls':
      kw = dict(stepsize=0.0, maxls=1, decrease_factor=0.25)
    sol = mkpg(mode, acceleration=accel, **kw)
    st = sol.init_state(x, l, p)._replace(iter_num=it, stepsize=s, t=t)
    if accel:
      st = st._replace(velocity=y)
    q, n = sol.update(x, st, l, p)
    z = y if accel else x
    v, g = vg(z, p)
    z, g = vec(z), vec(g)
    eta = dict(fun=0.25 * (it + 1), const=jnp.asarray(0.5), ls=s)[step]
    w = vec(proj(unvec(z - eta * g), l))
    if step == 'ls':
      d = w - z
      eps = jnp.finfo(d.dtype).eps
      bad = s * (obj(unvec(w), p) - v) > s * (d @ g) + 0.5 * (d @ d) + eps
      w = jnp.where(bad, vec(proj(unvec(z - 0.25 * s * g), l)), w)
      eta = jnp.where(bad, 0.25 * s, s)
      eta = jnp.where(eta <= 1e-6, 1.0, eta / 0.25)
    t2 = 0.5 * (1 + jnp.sqrt(1 + 4 * t ** 2))
    dx = vec(q) - vec(x)
    return dict(q=vec(q), n=n, w=w, eta=eta, it1=it + 1, sq=dx @ dx, t2=t2, y2=vec(q) + (t - 1) / t2 * dx, e2=eta * eta,
                vel=vec(n.velocity) if accel else 0., a3=z[:1] * 3)

  def c_pg(mode, accel):
    def claim(s, i, o):
      n = o['n']
      cl = [('projected gradient step', s.eq(o['q'], o['w'])), ('stepsize', s.eq(sc(n.stepsize), sc(o['eta']))),
            ('error', s.And(s.ge(sc(n.error), 0), s.eq(sc(n.error) * sc(n.error) * sc(o['e2']), sc(o['sq'])))),
            ('count', s.eq(n.iter_num, o['it1']))]
      if accel:
        cl.append(('momentum', s.And(s.eq(sc(n.t), sc(o['t2'])), s.eq(o['vel'], o['y2']))))
      if 'aux' in mode:
        cl.append(('aux', s.eq(n.aux['e'], o['a3'])))
      return cl
    return claim
  for mode, accel, step in (('', True, 'const'), ('aux', False, 'fun'), ('vg', False, 'const'), ('vgaux', True, 'fun'),
                            ('', True, 'ls'), ('vgaux', False, 'ls')):
    ps.append(Problem(f'pg_{mode}_{"fista" if accel else "plain"}_{step}',
                      dict(x=X, y=X, t=Sp(), s=Sp(), l=Sp(), p=Sp(), it=I),
                      lambda mode=mode, accel=accel, step=step, **i: f_pg(mode, accel, step, **i), c_pg(mode, accel),
                      assume=lambda s, i: s.And(V.rle(R_(1), sc(i['t'])), V.rlt(V.ZERO, sc(i['s']))),
                      ufs=[f, pa, pb], timeout=30, bound='any state, at most 1 reduction'))

  def f_pgopt(x, l, p):
    sol = mkpg('aux')
    return sol.optimality_fun(x, l, p), vec(proj(unvec(vec(x) - vec(vg(x, p)[1])), l)) - vec(x)
  ps.append(Problem('pg_optimality', dict(x=X, l=Sp(), p=Sp()), f_pgopt, lambda s, i, o: [
      ('residual of the projected gradient map', tree_eq(s, o[0], o[1]))], ufs=[f, pa, pb]))

  def f_pgrun(x, l, p):
    sol = mkpg('', acceleration=False, stepsize=0.5, maxiter=2, tol=-1.0, jit=False)
    q, st = sol.run(x, l, p)
    z = vec(x)
    for _ in range(2):
      z = vec(proj(unvec(z - 0.5 * vec(vg(unvec(z), p)[1])), l))
    return q, z
  ps.append(Problem('pg_run', dict(x=X, l=Sp(), p=Sp()), f_pgrun, lambda s, i, o: [
      ('two steps', tree_eq(s, o[0], o[1]))], ufs=[f, pa, pb], live=True))

  # Real constraint sets: iterates are feasible, and a point the method does not move from is optimal.
  sets = dict(
      box=(lambda x, l: pr.projection_box(x, (-1.0, l)), lambda s, z, l: s.And(
          [s.And(s.ge(a, -1), s.le(a, l)) for a in z]), lambda l: [V.rle(V.ZERO, l)],
           lambda y, l: jnp.all((y >= -1) & (y <= l))),
      nonneg=(lambda x, l: pr.projection_non_negative(x), lambda s, z, l: s.And([s.ge(a, 0) for a in z]), lambda l: [],
              lambda y, l: jnp.all(y >= 0)),
      simplex=(pr.projection_simplex, lambda s, z, l: s.And([s.ge(a, 0) for a in z] + [s.eq(z[0] + z[1], l)]),
               lambda l: [V.rlt(V.ZERO, l)], None),
      halfspace=(lambda x, l: pr.projection_halfspace(x, (jnp.array([1.0, 2.0]), l)),
                 lambda s, z, l: s.le(z[0] + z[1] * R_(2), l), lambda l: [], None))

  def f_feas(name, accel, Q, c, x, l):
    fun = lambda z: 0.5 * z @ (Q * z) + c @ z
    sol = jaxopt.ProjectedGradient(fun, sets[name][0], acceleration=accel, stepsize=0.5)
    st = sol.init_state(x, l)
    q, n = sol.update(x, st, l)
    q2, n2 = sol.update(q, n, l)
    return q, q2, n.error, Q * x + c, x
  def c_feas(name, accel):
    def claim(s, i, o):
      l = sc(i['l'])
      cl = [('iterates are feasible', s.And(sets[name][1](s, o[0], l), sets[name][1](s, o[1], l)))]
      if not accel and (T or name != 'simplex'):
        y = i['y']
        inner = o[3][0] * (y[0] - o[4][0]) + o[3][1] * (y[1] - o[4][1])
        cl.append(('a fixed point solves the constrained problem', s.implies(
            s.And(s.xeq(sc(o[2]), 0), feas_exact(name, s, y, l)), s.ge(inner, 0))))
      return cl
    return claim
  def feas_exact(name, s, z, l):
    rl = V.rle
    if name == 'box':
      return s.And([s.And(rl(R_(-1), a), rl(a, l)) for a in z])
    if name == 'nonneg':
      return s.And([rl(V.ZERO, a) for a in z])
    if name == 'simplex':
      return s.And([rl(V.ZERO, a) for a in z] + [s.xeq(z[0] + z[1], l)])
    return rl(z[0] + z[1] * R_(2), l)
  for name in sets:
    for accel in (False, True):
      ps.append(Problem(f'pg_{name}_{"fista" if accel else "plain"}', dict(Q=Sp(2), c=Sp(2), x=Sp(2), l=Sp(), y=Sp(2)),
                        lambda name=name, accel=accel, **i: f_feas(name, accel, **i), c_feas(name, accel),
                        ghost=('y',), assume=lambda s, i, name=name: s.And(
                            sets[name][2](sc(i['l'])) + [V.rle(V.ZERO, q) for q in i['Q']]), timeout=40 if T else 10,
                        required=False, bound='2 variables, separable convex quadratic, 2 steps'))

  # Mirror descent.
  def mkmd(mode, step, **k):
    fun = aux if mode == 'aux' else obj
    return jaxopt.MirrorDescent(fun, jaxopt.MirrorDescent.make_projection_grad(proj, mirror),
                                (lambda k: 0.25 * (k + 1)) if step == 'fun' else 0.5, has_aux=mode == 'aux', **k)
  md_step = lambda z, g, eta, l: vec(proj(unvec(vec(mirror(z)) - eta * vec(g)), l))

  def f_md(mode, step, x, l, p, it, nf, ng, npj):
    sol = mkmd(mode, step)
    st = sol.init_state(x, l, p)._replace(iter_num=it, num_fun_eval=nf, num_grad_eval=ng, num_proj_eval=npj)
    q, n = sol.update(x, st, l, p)
    eta = 0.25 * (it + 1) if step == 'fun' else jnp.asarray(0.5)
    dx = vec(q) - vec(x)
    return dict(q=vec(q), w=md_step(x, vg(x, p)[1], eta, l), n=n, it1=it + 1, nf1=nf + 1, ng1=ng + 1, np1=npj + 1,
                a3=x['a'] * 3, sq=dx @ dx, e2=eta * eta)
  for mode, step in (('', 'const'), ('aux', 'fun')):
    ps.append(Problem(f'mirror_{step}', dict(x=X, l=Sp(), p=Sp(), it=I, nf=I, ng=I, npj=I),
                      lambda mode=mode, step=step, **i: f_md(mode, step, **i), lambda s, i, o, mode=mode: [
        ('mirror step', s.eq(o['q'], o['w'])),
        ('error', s.And(s.ge(sc(o['n'].error), 0), s.eq(sc(o['n'].error) * sc(o['n'].error) * sc(o['e2']), sc(o['sq'])))),
        ('counters', s.And(s.eq(o['n'].iter_num, o['it1']), s.eq(o['n'].num_fun_eval, o['nf1']),
                           s.eq(o['n'].num_grad_eval, o['ng1']), s.eq(o['n'].num_proj_eval, o['np1'])))] + (
                               [('aux', s.eq(o['n'].aux['e'], o['a3']))] if mode else []),
                      ufs=[f, pa, pb, ma, mb], bound='any state'))

  def f_mdrest(x, l, p):
    sol = mkmd('aux', 'fun', maxiter=2, tol=-1.0, jit=False)
    q, st = sol.run(x, l, p)
    z = unvec(md_step(x, vg(x, p)[1], 0.25, l))
    z = md_step(z, vg(z, p)[1], 0.5, l)
    return q, z, sol.optimality_fun(x, l, p), md_step(x, vg(x, p)[1], 1.0, l) - vec(x), sol.init_state(x, l, p), x['a'] * 3
  ps.append(Problem('mirror_run', dict(x=X, l=Sp(), p=Sp()), f_mdrest, lambda s, i, o: [
      ('two mirror steps', tree_eq(s, o[0], o[1])), ('optimality residual', tree_eq(s, o[2], o[3])),
      ('start', s.And(s.eq(o[4].iter_num, 0), sc(o[4].error).pinf, s.eq(o[4].aux['e'], o[5])))],
                    ufs=[f, pa, pb, ma, mb], live=True))
  return ps
