"""Gauss-Newton and Levenberg-Marquardt."""
import warnings
from props.lib import *
import jaxopt
from jaxopt import linear_solve as ls
from symjax.uf import UF

FUNCTIONS = ['GaussNewton.{init_state,update,run,optimality_fun}', 'LevenbergMarquardt.{init_state,update,run,'
             'optimality_fun,update_state_using_gain_ratio,update_state_using_delta_params}']
ASSUMPTIONS = ['residuals are arbitrary smooth functions of two parameters', 'linear systems are solved exactly '
               '(by the linear solvers checked in P10)', 'damping factor and increase factor positive, gradient and '
               'value in the state belong to the Jacobian and residual there']
warnings.filterwarnings('ignore', message='.*materialize_jac.*')


def problems(tier):
  T = tier == 'thorough'
  ps = []
  r1, r2 = UF('r1', 3), UF('r2', 3)
  res = lambda x, p: jnp.stack([r1(x[0], x[1], p), r2(x[0], x[1], p)])
  resa = lambda x, p: (res(x, p), {'e': x * 3})
  jac = jax.jacfwd(res)
  I = Sp(kind='i', lo=0, hi=50)
  detp = lambda o: V.rlt(V.ZERO, V.rmul(sc(o), sc(o)))

  # Gauss-Newton.
  def f_gn(aux, x, p, it):
    sol = jaxopt.GaussNewton(resa if aux else res, has_aux=aux)
    n0 = sol.init_state(x, p)
    q, n = sol.update(x, n0._replace(iter_num=it), p)
    J, r = jac(x, p), res(x, p)
    return dict(q=q, n=n, n0=n0, step=x - n.delta, lhs=J.T @ (J @ n.delta), rhs=J.T @ r, r=r, v=0.5 * r @ r, sq=n.delta @ n.delta,
                it1=it + 1, det=J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0], a3=x * 3, opt=sol.optimality_fun(x, p))
  for aux in (False, True):
    ps.append(Problem('gauss_newton' + ('_aux' if aux else ''), dict(x=Sp(2), p=Sp(), it=I), lambda aux=aux, **i: f_gn(aux, **i),
                      lambda s, i, o, aux=aux: [
        ('step solves the normal equations', s.implies(s.Not(s.xeq(sc(o['det']), 0)), s.eq(o['lhs'], o['rhs']))),
        ('new point', s.eq(o['q'], o['step'])),
        ('residual, value and gradient before the step', s.And(
            s.eq(o['n'].residual, o['r']), s.eq(sc(o['n'].value), sc(o['v'])), s.eq(o['n'].gradient, o['rhs']))),
        ('error is the step length', s.And(s.ge(sc(o['n'].error), 0), s.eq(sc(o['n'].error) * sc(o['n'].error), sc(o['sq'])))),
        ('count', s.eq(o['n'].iter_num, o['it1'])), ('optimality_fun is the gradient', s.eq(o['opt'], o['rhs'])),
        ('start', s.And(s.eq(o['n0'].residual, o['r']), s.eq(sc(o['n0'].value), sc(o['v'])), s.eq(o['n0'].gradient, o['rhs']),
                        s.eq(o['n0'].iter_num, 0), sc(o['n0'].error).pinf))] + (
            [('aux', s.eq(o['n'].aux['e'], o['a3']))] if aux else []), ufs=[r1, r2], linsolve='exec', timeout=60,
                      bound='2 parameters, 2 residuals'))

  # Levenberg-Marquardt.
  def mk(mode, **k):
    kw = dict(mat_cholesky=dict(materialize_jac=True, solver='cholesky'), mat_lu=dict(materialize_jac=True, solver='lu'),
              mat_inv=dict(materialize_jac=True, solver='inv'), mat_qr=dict(materialize_jac=True, solver='qr'),
              mat_jac=dict(materialize_jac=True, solver='lu', jac_fun=jac),
              cg={}, lu=dict(solver='lu'), cholesky=dict(solver='cholesky'), inv=dict(solver='inv'))[mode]
    return lambda fun, **k2: jaxopt.LevenbergMarquardt(fun, **kw, **k, **k2)

  def f_lm(mode, aux, geo, x, p, it, mu, inc):
    sol = mk(mode)(resa if aux else res, has_aux=aux, geodesic=geo)
    n0 = sol.init_state(x, p)
    J, r = jac(x, p), res(x, p)
    g, v = J.T @ r, 0.5 * r @ r
    q, n = sol.update(x, n0._replace(iter_num=it, damping_factor=mu, increase_factor=inc), p)
    A = J.T @ J + mu * jnp.eye(2)
    d = n.delta
    # Acceptance of the trial point.
    rt = res(x + d, p)
    vt = 0.5 * rt @ rt
    den = 0.5 * d @ (mu * d - g)
    rho = (v - vt) / den
    Jt = jac(x + d, p)
    ok = rho > 0
    pick = lambda a, b: jax.tree_util.tree_map(lambda u, w: jnp.where(ok, u, w), a, b)
    new = pick(dict(q=x + d, r=rt, g=Jt.T @ rt, J=Jt, a=(x + d) * 3, mu=mu * jnp.maximum(1 / 3, 1 - (2 * rho - 1) ** 3), inc=2.0),
               dict(q=x, r=r, g=g, J=J, a=x * 3, mu=jnp.minimum(mu * inc, 2.0 ** 32), inc=jnp.minimum(2 * inc, 2.0 ** 32)))
    new.update(v=0.5 * new['r'] @ new['r'], e2=new['g'] @ new['g'])
    return dict(q=q, n=n, n0=n0, Ad=A @ d, mg=-g, r=r, v=v, g=g, vt=vt, rho=rho, it1=it + 1, den=den, new=new,
                opt=sol.optimality_fun(x, p), den2=mu * (d @ d) + 0.5 * (J @ d) @ (J @ d), e0=g @ g, J=J,
                dm=1e-6 * jnp.maximum(J[:, 0] @ J[:, 0], J[:, 1] @ J[:, 1]))

  def c_lm(mode, aux):
    def claim(s, i, o):
      n, w = o['n'], o['new']
      err2 = sc(n.error) * sc(n.error)
      live = s.Not(s.xeq(sc(o['den']), 0))
      cl = [] if 'inv' in mode else [
          ('step solves the damped normal equations', s.eq(o['Ad'], o['mg'])),
          ('the model predicts a decrease', s.eq(sc(o['den']), sc(o['den2'])))]
      pairs = [('point', o['q'], w['q']), ('residual', n.residual, w['r']), ('gradient', n.gradient, w['g']),
               ('value', sc(n.value), sc(w['v'])), ('error', err2, sc(w['e2'])), ('damping', sc(n.damping_factor), sc(w['mu'])),
               ('increase factor', sc(n.increase_factor), sc(w['inc']))]
      if mode.startswith('mat'):
        pairs.append(('Jacobian', n.jac, w['J']))
      if aux:
        pairs.append(('aux', n.aux['e'], w['a']))
      cl += [(f'{nm} moves exactly when the gain ratio is positive', s.implies(live, s.eq(a, b))) for nm, a, b in pairs]
      acc = V.rlt(V.ZERO, sc(o['rho']))
      cl += [('accepted value is lower', s.implies(s.And(V.rlt(V.ZERO, sc(o['den'])), acc), s.le(sc(o['vt']), sc(o['v'])))),
             ('count', s.eq(n.iter_num, o['it1'])), ('optimality_fun is the gradient', s.eq(o['opt'], o['g'])),
             ('start', s.And(s.eq(o['n0'].residual, o['r']), s.eq(sc(o['n0'].value), sc(o['v'])), s.eq(o['n0'].gradient, o['g']),
                             s.eq(sc(o['n0'].damping_factor), sc(o['dm'])), s.eq(o['n0'].iter_num, 0),
                             s.eq(sc(o['n0'].error) * sc(o['n0'].error), sc(o['e0']))))]
      return cl
    return claim
  pos = lambda s, i: s.And(V.rlt(V.ZERO, sc(i['mu'])), V.rle(R_(1), sc(i['inc'])))
  for mode, aux in (('mat_cholesky', False), ('mat_lu', True), ('mat_inv', False), ('mat_jac', False), ('cg', True), ('lu', False),
                    ('cholesky', True), ('inv', False)) + ((('mat_qr', False),) if T else ()):
    ps.append(Problem(f'lm_{mode}', dict(x=Sp(2), p=Sp(), it=I, mu=Sp(), inc=Sp()), lambda mode=mode, aux=aux, **i: f_lm(mode, aux, False, **i),
                      c_lm(mode, aux), assume=pos, ufs=[r1, r2], linsolve='contract', timeout=60, bound='2 parameters, 2 residuals',
                      required=mode != 'mat_qr'))

  def f_inv(mode, J, b, x, mu):
    fun = lambda x: J @ x - b
    sol = mk(mode)(fun)
    q, n = sol.update(x, sol.init_state(x)._replace(damping_factor=mu))
    return (J.T @ J + mu * jnp.eye(1)) @ n.delta, -J.T @ (J @ x - b)
  for mode in ('mat_inv', 'inv'):
    ps.append(Problem(f'step_{mode}', dict(J=Sp(2, 1), b=Sp(2), x=Sp(1), mu=Sp()), lambda mode=mode, **i: f_inv(mode, **i),
                      lambda s, i, o: [('step solves the damped normal equations', s.eq(o[0], o[1]))],
                      assume=lambda s, i: V.rlt(V.ZERO, sc(i['mu'])), linsolve='exec', timeout=60, bound='1 parameter, affine'))

  # Geodesic acceleration, one parameter.
  h1, h2 = UF('h1', 2), UF('h2', 2)
  hes = lambda x, p: jnp.stack([h1(x[0], p), h2(x[0], p)])
  def f_geo(mode, thr, x, p, it, mu, inc):
    kw = dict(geodesic=True)
    if thr != 0.75:
      kw['contribution_ratio_threshold'] = thr
    if mode == 'mat_jac':
      sol = jaxopt.LevenbergMarquardt(hes, materialize_jac=True, solver='lu', jac_fun=jax.jacfwd(hes), **kw)
    else:
      sol = mk(mode)(hes, **kw)
    n0 = sol.init_state(x, p)
    J, r, H = jax.jacfwd(hes)(x, p)[:, 0], hes(x, p), jax.jacfwd(jax.jacfwd(hes))(x, p)[:, 0, 0]
    g, v = J @ r, 0.5 * r @ r
    q, n = sol.update(x, n0._replace(iter_num=it, damping_factor=mu, increase_factor=inc), p)
    A = J @ J + mu
    vel = g / A
    acc = (J / A) @ (H * vel * vel) if mode.startswith('mat') else J @ (H * vel * vel) / A
    d = -(vel + 0.5 * acc)
    rt = hes(x + d, p)
    rho = (v - 0.5 * rt @ rt) / (0.5 * d * (mu * d - g))
    small = jnp.sqrt(acc * acc) / jnp.sqrt(vel * vel) - thr
    want = jnp.where(jnp.logical_and(rho > 0.0, small <= 0.0), x + d, x)
    return dict(q=q, n=n, d=d, want=want, g=g)
  def c_geo(s, i, o):
    live = s.Not(s.Or([s.xeq(sc(o['g']), 0), s.xeq(sc(o['d']), 0)]))
    return [('accelerated step', s.implies(live, s.eq(o['n'].delta[0], sc(o['d'])))),
            ('accepted exactly with a gain and a small acceleration', s.implies(live, s.eq(o['q'], o['want'])))]
  for mode, thr in (('mat_lu', 0.75), ('cg', 0.25), ('mat_jac', 0.5)):
    ps.append(Problem(f'geodesic_{mode}', dict(x=Sp(1), p=Sp(), it=I, mu=Sp(), inc=Sp()), lambda mode=mode, thr=thr, **i: f_geo(mode, thr, **i),
                      c_geo, assume=pos, ufs=[h1, h2], linsolve='exec', timeout=40, bound='1 parameter, 2 residuals'))

  # A trial point where the residual is not finite is rejected.
  def f_nan(mode, bad, x, c, it, mu, inc):
    fun = lambda x: jnp.stack([jnp.where(x[0] > 1., bad, 2 * x[0] - c), x[0] + 1])
    sol = mk(mode)(fun)
    n0 = sol.init_state(x)
    q, n = sol.update(x, n0._replace(iter_num=it, damping_factor=mu, increase_factor=inc))
    return dict(q=q, n=n, x=x, r=fun(x), xt=x + n.delta, mu2=mu * inc, inc2=2 * inc)
  def c_nan(s, i, o):
    n = o['n']
    return [('rejected', s.implies(V.rlt(R_(1), o['xt'][0]), s.And(
        s.eq(o['q'], o['x']), s.eq(n.residual, o['r']), s.eq(sc(n.damping_factor), sc(o['mu2'])), s.eq(sc(n.increase_factor), sc(o['inc2']))))),
            ('stays finite', s.And([s.finite(a) for a in (o['q'], n.residual, n.gradient, n.value, n.damping_factor)]))]
  for mode, bad in (('mat_lu', float('nan')), ('cg', float('nan')), ('mat_cholesky', float('inf'))):
    ps.append(Problem(f'rejects_{bad}_{mode}', dict(x=Sp(1), c=Sp(), it=I, mu=Sp(), inc=Sp()), lambda mode=mode, bad=bad, **i: f_nan(mode, bad, **i),
                      c_nan, assume=lambda s, i: s.And([pos(s, i), V.rle(i['x'][0], R_(1)), V.rle(sc(i['mu']), R_(100)), V.rle(sc(i['inc']), R_(100))]),
                      linsolve='exec', timeout=40, bound='1 parameter'))

  # Stopping.
  def f_stop(crit, c, x, tol):
    fun = lambda x: jnp.stack([2 * x[0] - c])
    kw = dict(stop_criterion=crit, materialize_jac=True, solver='lu', jit=False, damping_parameter=0.5)
    kw.update(dict(tol=tol) if crit[0] == 'g' else dict(xtol=tol, gtol=0.25))
    sol = jaxopt.LevenbergMarquardt(fun, maxiter=2, **kw)
    q, st = sol.run(x)
    q1, s1 = sol.update(x, sol.init_state(x))
    go = s1.error > tol
    if crit[0] == 'm':
      nrm = lambda a: jnp.sqrt(jnp.sum(a * a))
      go = jnp.logical_and(jnp.max(jnp.abs(s1.gradient)) > 0.25, nrm(s1.delta) > tol * (nrm(q1) + tol))
    return st.iter_num, go
  for crit in ('grad-l2-norm', 'madsen-nielsen'):
    ps.append(Problem(f'stop_{crit}', dict(c=Sp(), x=Sp(1)), lambda c, x, crit=crit: f_stop(crit, c, x, 0.5),
                      lambda s, i, o: [('continues exactly while the criterion fails', s.And(
                          s.iff(sc(o[1]), s.eq(o[0], 2)), s.Or([s.eq(o[0], 1), s.eq(o[0], 2)])))],
                      live=True, linsolve='exec', timeout=30, bound='1 parameter, tolerance 0.5'))
  return ps
