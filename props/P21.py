"""Coordinate descent for box-constrained quadratic programs."""
from props.lib import *
import jaxopt

FUNCTIONS = ['BoxCDQP.{init_state,update,run,optimality_fun}', 'cd_qp.fori_loop_body_fun']
ASSUMPTIONS = ['Q symmetric positive semidefinite (rows with a zero diagonal are zero), l <= u finite']


def sweep(Q, c, l, u, x):
  """Exact minimisation of one coordinate after the other."""
  e = 0.
  n = x.shape[0]
  for i in range(n):
    g = Q[i] @ x + c[i]
    h = Q[i, i]
    lin = jnp.where(g > 0, l[i], jnp.where(g < 0, u[i], jnp.clip(x[i], l[i], u[i])))
    new = jnp.where(h == 0, lin, jnp.clip(x[i] - g / jnp.where(h == 0, 1., h), l[i], u[i]))
    e = e + jnp.abs(new - x[i])
    x = x.at[i].set(new)
  return x, e


def problems(tier):
  T = tier == 'thorough'
  ps = []
  ins = lambda n: dict(Q=Sp(n, n), c=Sp(n), l=Sp(n), u=Sp(n), x=Sp(n))
  box = lambda s, i: s.And([V.rle(a, b) for a, b in zip(i['l'], i['u'])])

  def psd(s, i):
    Q = i['Q']
    return s.And([box(s, i)] + psd2(Q))

  def f_upd(Q, c, l, u, x, it):
    sol = jaxopt.BoxCDQP()
    st = sol.init_state(x, (Q, c), (l, u))._replace(iter_num=it)
    q, n = sol.update(x, st, (Q, c), (l, u))
    z, e = sweep(Q, c, l, u, x)
    return q, n, z, e, it + 1
  for n in (2, 3) if T else (2,):
    ps.append(Problem(f'sweep{n}', dict(ins(n), it=Sp(kind='i', lo=0, hi=50)), f_upd, lambda s, i, o: [
        ('exact coordinate minimisation in order', s.eq(o[0], o[2])), ('error is the distance moved', s.eq(sc(o[1].error), sc(o[3]))),
        ('count', s.eq(o[1].iter_num, o[4])),
        ('feasible', s.And([s.And(s.ge(a, l), s.le(a, u)) for a, l, u in zip(o[0], i['l'], i['u'])]))],
                      assume=box, timeout=60, bound=f'{n} variables, any Q'))

  # Each coordinate is a minimiser over its interval of the objective with the others fixed.
  def f_coord(Q, c, l, u, x, z):
    sol = jaxopt.BoxCDQP()
    q, n = sol.update(x, sol.init_state(x, (Q, c), (l, u)), (Q, c), (l, u))
    F = lambda y: 0.5 * y @ Q @ y + c @ y
    y0 = jnp.stack([q[0], x[1]])
    return F(y0), F(jnp.stack([z[0], x[1]])), F(q), F(jnp.stack([q[0], z[1]]))
  ps.append(Problem('coordinate_minimiser', dict(ins(2), z=Sp(2)), f_coord, lambda s, i, o: [
      ('first coordinate', s.le(sc(o[0]), sc(o[1]))), ('second coordinate', s.le(sc(o[2]), sc(o[3])))],
      assume=lambda s, i: s.And([psd(s, i)] + [s.And(V.rle(l, z), V.rle(z, u)) for l, z, u in zip(i['l'], i['z'], i['u'])]),
      ghost=(), timeout=60, required=False, bound='2 variables'))

  # error = 0 exactly at KKT points.
  def f_kkt(Q, c, l, u, x):
    sol = jaxopt.BoxCDQP()
    q, n = sol.update(x, sol.init_state(x, (Q, c), (l, u)), (Q, c), (l, u))
    return n.error, Q @ x + c, sol.optimality_fun(x, (Q, c), (l, u))
  def c_kkt(s, i, o):
    cl = []
    for a, g, l, u in zip(i['x'], o[1], i['l'], i['u']):
      cl += [V.rle(l, a), V.rle(a, u), s.implies(V.rlt(l, a), s.le(g, 0)), s.implies(V.rlt(a, u), s.ge(g, 0))]
    kkt = s.And(cl)
    kktx = []
    for a, g, l, u in zip(i['x'], o[1], i['l'], i['u']):
      kktx += [V.rle(l, a), V.rle(a, u), V.Implies(V.rlt(l, a), V.rle(g, V.ZERO)), V.Implies(V.rlt(a, u), V.rle(V.ZERO, g))]
    return [('no move only at a solution', s.implies(s.xeq(sc(o[0]), 0), kkt)),
            ('no move at a solution', s.implies(s.And(kktx), s.eq(sc(o[0]), 0))),
            ('optimality_fun vanishes at a solution', s.implies(s.And(kktx), s.eq(o[2], np.array([R_(0), R_(0)], dtype=object)))),
            ('optimality_fun vanishes only at a solution', s.implies(s.And([s.xeq(a, 0) for a in o[2]]), kkt))]
  ps.append(Problem('stops_at_solution', ins(2), f_kkt, c_kkt, assume=psd, timeout=60, bound='2 variables'))

  def f_run(Q, c, l, u, x, k):
    sol = jaxopt.BoxCDQP(maxiter=k, tol=-1.0, jit=False)
    q, st = sol.run(x, (Q, c), (l, u))
    z = x
    for _ in range(k):
      z, e = sweep(Q, c, l, u, z)
    return q, z, st.error, e, st.iter_num
  ps.append(Problem('run_2', dict(Q=Sp(2, 2), c=Sp(2), l=Sp(2), u=Sp(2), x=Sp(2)),
                    lambda **i: f_run(k=2, **i), lambda s, i, o: [
      ('two sweeps', s.eq(o[0], o[1])), ('error of the last', s.eq(sc(o[2]), sc(o[3]))), ('count', s.eq(o[4], 2))],
      assume=box, timeout=60, live=True, bound='2 sweeps'))

  # Diagonal problems are solved in one sweep.
  def f_diag(q, c, l, u, x):
    Q = jnp.diag(q)
    sol = jaxopt.BoxCDQP(maxiter=1, jit=False)
    z, st = sol.run(x, (Q, c), (l, u))
    return z, q * z + c
  ps.append(Problem('diagonal', dict(q=Sp(2), c=Sp(2), l=Sp(2), u=Sp(2), x=Sp(2)), f_diag, lambda s, i, o: [
      ('solved in one sweep', s.And([s.And(s.ge(z, l), s.le(z, u), s.implies(s.gt(z, l), s.le(g, 0)),
                                           s.implies(s.lt(z, u), s.ge(g, 0)))
                                     for z, g, l, u in zip(o[0], o[1], i['l'], i['u'])]))],
      assume=lambda s, i: s.And([box(s, i)] + [V.rle(V.ZERO, a) for a in i['q']]), live=True, timeout=60, bound='2 variables'))
  return ps
