"""OSQP: the ADMM step, residuals, statuses, stepsize and the OSQP form."""
from props.lib import *
import jaxopt
from jaxopt import base as _b  # noqa: F401
from jaxopt._src import base

FUNCTIONS = ['BoxOSQP.{init_params,init_state,update,run}', 'OSQPIndirectSolver', 'OSQPLUSolver', 'OSQP.{init_params,run}',
             'OSQP_to_BoxOSQP']
ASSUMPTIONS = ['the linear system of a step is solved exactly (contract of the conjugate gradient primitive; LU executed)',
               'l <= u, rho > 0; stepsize problems: neither A x nor max(|Q x|, |A\'y|, |c|) is zero']
KKT = base.KKTSolution
tm = jax.tree_util.tree_map
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
amax = lambda v: jnp.max(jnp.abs(v))
SIG, MOM, TOL = 0.125, 1.5, 0.25


def problems(tier):
  T = tier == 'thorough'
  ps = []
  sym = lambda q: jnp.array([[q[0], q[1]], [q[1], q[2]]])
  V2, A2 = Sp(2), Sp(2, 2)

  def mk(mode, **k):
    k = dict(dict(sigma=SIG, momentum=MOM, tol=TOL, stepsize_updates_frequency=3, termination_check_frequency=2,
                  check_primal_dual_infeasability=False), **k)
    if mode == 'matvec':
      return jaxopt.BoxOSQP(matvec_Q=lambda Q, x: Q @ x, matvec_A=lambda A, x: A @ x, **k)
    if mode == 'fun':
      return jaxopt.BoxOSQP(fun=lambda x, p: 0.5 * x @ p[0] @ x + p[1] @ x + 3.0, **k)
    return jaxopt.BoxOSQP(eq_qp_solve=mode or 'cg', **k)

  def ref(Q, c, A, l, u, x, z, y, rho, xb):
    """The rest of the step, given the solution of the linear system."""
    zm = z + MOM * (A @ xb - z)
    zn = jnp.clip(zm + 1 / rho * y, l, u)
    yn = y + rho * (zm - zn)
    xn = x + MOM * (xb - x)
    return xn, zn, yn, A @ xn - zn, Q @ xn + c + A.T @ yn

  def step(mode, it, q, c, A, l, u, x, z, y, rho, err, **k):
    Q = sym(q)
    sol = mk(mode, **k)
    prm = KKT((x, z), y, (y, y))
    st = sol.init_state(prm, (Q, c), A, (l, u))
    st = st._replace(iter_num=it, error=err, rho_bar=rho,
                     solver_state=sol._eq_qp_solve_impl.update_stepsize(st.solver_state, rho))
    return sol, Q, prm, st, sol.update(prm, st, (Q, c), A, (l, u))

  def f_step(mode, it, q, c, A, l, u, x, z, y, rho, err):
    sol, Q, prm, st, (p, n) = step(mode, it, q, c, A, l, u, x, z, y, rho, err)
    xn, zn = p.primal
    yn = p.dual_eq
    xb = x + (xn - x) / MOM
    rx, rz, ry, rp, rd = ref(Q, c, A, l, u, x, z, y, rho, xb)
    e = jnp.maximum(amax(rp), amax(rd))
    lin = Q @ xb + SIG * xb + rho * A.T @ (A @ xb) - (SIG * x - c + A.T @ (rho * z - y))
    pc = amax(rp) / amax(A @ rx)
    dc = amax(rd) / jnp.maximum(amax(Q @ rx), jnp.maximum(amax(A.T @ ry), amax(c)))
    rr = jnp.clip(rho * jnp.sqrt(pc / (dc + jnp.finfo(dc.dtype).eps)), 1e-6, 1e6)
    # The new state's linear solver uses the new stepsize.
    again = ()
    if it % 3 == 0 and mode != 'lu':
      p2, _ = sol.update(p, n._replace(iter_num=1), (Q, c), A, (l, u))
      x2 = xn + (p2.primal[0] - xn) / MOM
      again = Q @ x2 + SIG * x2 + n.rho_bar * A.T @ (A @ x2) - (SIG * xn - c + A.T @ (n.rho_bar * zn - yn))
    return dict(p=p, n=n, lin=lin, z=rz, y=ry, rp=rp, rd=rd, e=e, rr=rr, again=again, den=amax(A @ rx),
                den2=jnp.maximum(amax(Q @ rx), jnp.maximum(amax(A.T @ ry), amax(c))), it1=it + 1,
                mu=jnp.maximum(yn, 0), phi=jnp.maximum(-yn, 0))

  def c_step(mode, it):
    def claim(s, i, o):
      p, n = o['p'], o['n']
      xn, zn = p.primal
      yn = p.dual_eq
      mu, phi = p.dual_ineq
      cl = [('the linear system of the step is solved', s.eq(o['lin'], np.array([R_(0)] * 2, dtype=object))),
            ('z is the projected step', s.eq(zn, o['z'])), ('y is the dual step', s.eq(yn, o['y'])),
            ('z is in the box', s.And([s.And(s.ge(a, l), s.le(a, u)) for a, l, u in zip(zn, i['l'], i['u'])])),
            ('y is a multiplier of the box at z', s.And([s.And(
                s.implies(s.gt(a, 0), s.eq(b, u)), s.implies(s.lt(a, 0), s.eq(b, l)))
                                                          for a, b, l, u in zip(yn, zn, i['l'], i['u'])])),
            ('multipliers of the two bounds', s.And(s.eq(mu, o['mu']), s.eq(phi, o['phi']))),
            ('primal residual', s.eq(n.primal_residuals, o['rp'])), ('dual residual', s.eq(n.dual_residuals, o['rd'])),
            ('count', s.eq(n.iter_num, o['it1']))]
      if it % 2 == 0:
        cl += [('error is the largest residual', s.eq(sc(n.error), sc(o['e']))),
               ('solved exactly below tol', s.And(s.implies(s.lt(sc(o['e']), R_(TOL)), s.eq(n.status, 1)),
                                                  s.implies(s.gt(sc(o['e']), R_(TOL)), s.eq(n.status, 0))))]
      else:
        cl += [('error and status kept between checks', s.And(s.eq(sc(n.error), sc(i['err'])), s.eq(n.status, 0)))]
      if it % 3 == 0:
        ok = s.And(s.gt(sc(o['den']), 0), s.gt(sc(o['den2']), 0))
        cl += [('stepsize balances the residuals', s.implies(ok, s.eq(sc(n.rho_bar), sc(o['rr']))))]
        if mode != 'lu':
          cl += [('the next step uses the new stepsize', s.implies(ok, s.eq(o['again'], np.array([R_(0)] * 2, dtype=object))))]
      else:
        cl += [('stepsize kept', s.eq(sc(n.rho_bar), sc(i['rho'])))]
      return cl
    return claim
  ins = lambda: dict(q=Sp(3), c=V2, A=A2, l=V2, u=V2, x=V2, z=V2, y=V2, rho=Sp(), err=Sp())
  psd = lambda s, i: [V.rle(V.ZERO, i['q'][0]), V.rle(V.ZERO, i['q'][2]),
                      V.rle(V.rmul(i['q'][1], i['q'][1]), V.rmul(i['q'][0], i['q'][2]))]
  ok = lambda s, i: s.And(psd(s, i) + [V.rle(a, b) for a, b in zip(i['l'], i['u'])] + [V.rlt(V.ZERO, sc(i['rho']))])
  for mode, it in (('', 1), ('', 2), ('', 3), ('matvec', 2), ('fun', 2), ('cg+jacobi', 2)) + ((('fun', 6),) if T else ()):
    ps.append(Problem(f'step_{mode or "cg"}_it{it}', ins(), lambda mode=mode, it=it, **i: f_step(mode, it, **i), c_step(mode, it),
                      assume=ok, timeout=60, bound='2 variables, 2 constraints, any state'))

  # LU factors follow the stepsize.
  V1, R0 = Sp(1), lambda n: np.array([R_(0)] * n, dtype=object)
  def f_lu(n, q, c, A, l, u, x, z, y, rho):
    Q = jnp.diag(q)
    sol = mk('lu')
    prm = KKT((x, z), y, (y, y))
    st = sol.init_state(prm, (Q, c), A, (l, u))
    lin = lambda xb, r, x, z, y: Q @ xb + SIG * xb + r * A.T @ (A @ xb) - (SIG * x - c + A.T @ (r * z - y))
    p0, _ = sol.update(prm, st._replace(iter_num=1), (Q, c), A, (l, u))
    st = st._replace(iter_num=3, rho_bar=rho, solver_state=sol._eq_qp_solve_impl.update_stepsize(st.solver_state, rho))
    p1, s1 = sol.update(prm, st, (Q, c), A, (l, u))
    p2, _ = sol.update(prm, s1._replace(iter_num=1), (Q, c), A, (l, u))
    bar = lambda p: x + (p.primal[0] - x) / MOM
    return lin(bar(p0), 0.1, x, z, y), lin(bar(p1), rho, x, z, y), lin(bar(p2), s1.rho_bar, x, z, y), amax(A @ p1.primal[0])
  for n in (1,) + ((2,) if T else ()):
    ps.append(Problem(f'lu_{n}', dict(q=Sp(n), c=Sp(n), A=Sp(n, n), l=Sp(n), u=Sp(n), x=Sp(n), z=Sp(n), y=Sp(n), rho=Sp()),
                      lambda n=n, **i: f_lu(n, **i), lambda s, i, o, n=n: [
        ('first stepsize', s.eq(o[0], R0(n))), ('given stepsize', s.eq(o[1], R0(n))),
        ('stepsize updated in the step before', s.implies(s.And(
            s.gt(sc(o[3]), 0), s.Or([s.Not(s.xeq(a, 0)) for a in i['c']])), s.eq(o[2], R0(n))))],
                      assume=lambda s, i: s.And([V.rlt(V.ZERO, sc(i['rho']))] + [V.rle(V.ZERO, a) for a in i['q']] +
                                                [V.rle(a, b) for a, b in zip(i['l'], i['u'])]),
                      timeout=120, dce=True, required=n == 1, bound=f'{n} variables and constraints'))

  # Statuses.
  PT = dict(primal_infeasible_tol=0.5, dual_infeasible_tol=0.25, check_primal_dual_infeasability=True)
  def f_inf(inf, q, c, A, l, u, x, z, y, rho, err):
    if 'u' in inf:
      u = jnp.full(2, jnp.inf)
    if 'l' in inf:
      l = jnp.full(2, -jnp.inf)
    sol, Q, prm, st, (p, n) = step('', 2, q, c, A, l, u, x, z, y, rho, err, **PT)
    dx, dy = p.primal[0] - x, p.dual_eq - y
    e = jnp.maximum(amax(n.primal_residuals), amax(n.dual_residuals))
    pl, mi = jnp.maximum(dy, 0), jnp.minimum(dy, 0)
    lu = (0. if 'u' in inf else u @ pl) + (0. if 'l' in inf else l @ mi)
    cp, cd = 0.5 * amax(dy), 0.25 * amax(dx)
    Ad = A @ dx
    fl = (True if 'l' in inf else jnp.all(Ad >= -cd)) & (True if 'u' in inf else jnp.all(Ad <= cd))
    return dict(n=n, e=e, ndx=amax(dx), ndy=amax(dy), prim=(amax(A.T @ dy) <= cp) & (lu <= cp),
                dual=(amax(Q @ dx) <= cd) & (c @ dx <= cd) & fl)
  def c_inf(s, i, o):
    n, e = o['n'], sc(o['e'])
    prim = s.And(sc(o['prim']), V.rlt(V.ZERO, sc(o['ndy'])))
    dual = s.And(sc(o['dual']), V.rlt(V.ZERO, sc(o['ndx'])))
    return [('primal infeasible exactly with a certificate', s.iff(s.eq(n.status, 3), prim)),
            ('dual infeasible exactly with a certificate', s.iff(s.eq(n.status, 2), s.And(dual, s.Not(prim)))),
            ('error is zero then and the residual otherwise', s.And(s.implies(s.Or(prim, dual), s.xeq(sc(n.error), 0)), s.implies(
                s.Not(s.Or(prim, dual)), s.eq(sc(n.error), e))))]
  for inf in ('', 'u', 'l', 'lu'):
    ps.append(Problem('infeasibility' + ('_free_' + inf if inf else ''), ins(), lambda inf=inf, **i: f_inf(inf, **i), c_inf,
                      assume=ok, timeout=60, bound='2 variables, 2 constraints, any state'))

  # Pytrees, one block per leaf; start; run.
  TX = dict(a=Sp(1), b=Sp(1))
  tmax = lambda t: jnp.max(jnp.stack([amax(l) for l in jax.tree_util.tree_leaves(t)]))
  def f_tree(eq, q, c, A, l, u, x, z, y):
    Q = dict(a=q['a'][:, None], b=q['b'][:, None])
    sol = mk(eq, rho_start=0.5)
    prm = KKT((x, z), y, (y, y))
    st = sol.init_state(prm, (Q, c), A, (l, u))
    p, n = sol.update(prm, st, (Q, c), A, (l, u))
    out = []
    for k in ('a', 'b'):
      xb = x[k] + (p.primal[0][k] - x[k]) / MOM
      out.append((Q[k] @ xb + SIG * xb + 0.5 * A[k].T @ (A[k] @ xb) - (SIG * x[k] - c[k] + A[k].T @ (0.5 * z[k] - y[k])),) +
                 ref(Q[k], c[k], A[k], l[k], u[k], x[k], z[k], y[k], 0.5, xb)[1:])
    lin, rz, ry, rp, rd = zip(*out)
    e = jnp.maximum(tmax(rp), tmax(rd))
    Ax = [A[k] @ p.primal[0][k] for k in ('a', 'b')]
    Ay = [A[k].T @ ry[j] for j, k in enumerate(('a', 'b'))]
    Qx = [Q[k] @ p.primal[0][k] for k in ('a', 'b')]
    big = jnp.maximum(tmax(Qx), jnp.maximum(tmax(Ay), tmax(c)))
    rr = 0.5 * jnp.sqrt(tmax(rp) / tmax(Ax) / (tmax(rd) / big + jnp.finfo(big.dtype).eps))
    got = (p.primal[1], p.dual_eq, n.primal_residuals, n.dual_residuals)
    f = lambda ts: vec([ts[k] for k in range(len(ts))])
    return f(lin), vec([f((g['a'], g['b'])) for g in got]), vec([f(g) for g in (rz, ry, rp, rd)]), n.error, e, n.rho_bar, jnp.clip(
        rr, 1e-6, 1e6), tmax(Ax), big
  TZ = dict(a=Sp(1), b=Sp(2))
  for eq in ('cg', 'cg+jacobi') + (('lu',) if T else ()):
    ps.append(Problem('pytree_' + eq, dict(q=TX, c=TX, A=dict(a=Sp(1, 1), b=Sp(2, 1)), l=TZ, u=TZ, x=TX, z=TZ, y=TZ),
                      lambda eq=eq, **i: f_tree(eq, **i), lambda s, i, o: [
        ('linear system of each block', s.eq(o[0], R0(2))), ('z, y and residuals', s.eq(o[1], o[2])),
        ('error over all leaves', s.eq(sc(o[3]), sc(o[4]))),
        ('stepsize', s.implies(s.And(s.gt(sc(o[7]), 0), s.gt(sc(o[8]), 0)), s.eq(sc(o[5]), sc(o[6]))))],
                      assume=lambda s, i: s.And([V.rle(V.ZERO, a) for a in s.flat(i['q'])] + [
                          V.rle(a, b) for a, b in zip(s.flat(i['l']), s.flat(i['u']))]),
                      timeout=60, bound='2 leaves, 3 constraints'))

  def f_start(q, c, A, l, u, x):
    Q = sym(q)
    sol = mk('', rho_start=0.5)
    p, p0 = sol.init_params(x, (Q, c), A, (l, u)), sol.init_params(None, (Q, c), A, (l, u))
    st = sol.init_state(p, (Q, c), A, (l, u))
    return dict(p=p, p0=p0, st=st, z=jnp.clip(A @ x, l, u), z0=jnp.clip(0 * l, l, u), rp=A @ x - jnp.clip(A @ x, l, u), rd=Q @ x + c)
  ps.append(Problem('start', dict(q=Sp(3), c=V2, A=A2, l=V2, u=V2, x=V2), f_start, lambda s, i, o: [
      ('given start', s.And(s.eq(o['p'].primal[0], i['x']), s.eq(o['p'].primal[1], o['z']), s.eq(o['p'].dual_eq, R0(2)))),
      ('default start', s.And(s.eq(o['p0'].primal[0], R0(2)), s.eq(o['p0'].primal[1], o['z0']), s.eq(o['p0'].dual_eq, R0(2)))),
      ('state', s.And(s.eq(o['st'].primal_residuals, o['rp']), s.eq(o['st'].dual_residuals, o['rd']), s.eq(o['st'].status, 0),
                      s.eq(o['st'].iter_num, 0), sc(o['st'].error).pinf, s.eq(sc(o['st'].rho_bar), R_(0.5))))],
                    assume=lambda s, i: s.And([V.rle(a, b) for a, b in zip(i['l'], i['u'])])))

  # The OSQP form is the stacked problem.
  def f_form(form, q, c, A, b, G, h, x, ye, yi):
    Q = sym(q)
    k = dict(sigma=SIG, momentum=MOM, tol=TOL, maxiter=1, rho_start=0.125, check_primal_dual_infeasability=False)
    mA = (lambda A, x: A @ x) if 'A' in form else None
    mG = (lambda G, x: G @ x) if 'G' in form else None
    pe = (A, b) if 'e' in form else None
    pi = (G, h) if 'i' in form else None
    obj = (Q, c)
    if 'f' in form:
      sol = jaxopt.OSQP(fun=lambda x, p: 0.5 * x @ p[0] @ x + p[1] @ x, matvec_A=mA, matvec_G=mG, **k)
    else:
      sol = jaxopt.OSQP(matvec_A=mA, matvec_G=mG, **k)
    init = KKT(x, ye if 'e' in form else None, yi if 'i' in form else None) if 'w' in form else None
    if 'f' in form and init is None:
      init = sol.init_params(x, obj, pe, pi)
    p, st = sol.run(init, obj, pe, pi)
    M = jnp.concatenate([a for a, t in ((A, 'e'), (G, 'i')) if t in form])
    l = jnp.concatenate([a for a, t in ((b, 'e'), (jnp.full(1, -jnp.inf), 'i')) if t in form])
    u = jnp.concatenate([a for a, t in ((b, 'e'), (h, 'i')) if t in form])
    x0 = x if 'w' in form or 'f' in form else 0 * x
    yy = jnp.concatenate([a for a, t in ((ye, 'e'), (yi, 'i')) if t in form])
    yy = yy if 'w' in form else 0 * yy
    xb = x0 + (p.primal - x0) / MOM
    lin = Q @ xb + SIG * xb + 0.125 * M.T @ (M @ xb) - (SIG * x0 - c + M.T @ (0.125 * (M @ x0) - yy))
    _, rz, ry, rp, rd = ref(Q, c, M, l, u, x0, M @ x0, yy, 0.125, xb)
    e = jnp.maximum(amax(rp), amax(rd))
    we = ry[:1] if 'e' in form else ()
    wi = jnp.maximum(ry[-1:], 0) if 'i' in form else ()
    return dict(lin=lin, e=p.dual_eq if 'e' in form else (), i=p.dual_ineq if 'i' in form else (), we=we, wi=wi,
                st=(st.error, st.iter_num), ws=(e, jnp.asarray(1)), status=st.status,
                none=(p.dual_eq is None) == ('e' not in form) and (p.dual_ineq is None) == ('i' not in form))
  for form in ('ei', 'e', 'i', 'eiw', 'eiAw', 'eiG', 'eAiG', 'iG', 'eAw', 'eif', 'eiAGfw'):
    ps.append(Problem('form_' + form, dict(q=Sp(3), c=V2, A=Sp(1, 2), b=V1, G=Sp(1, 2), h=V1, x=V2, ye=V1, yi=V1),
                      lambda form=form, **i: f_form(form, **i), lambda s, i, o: [
        ('linear system', s.eq(o['lin'], R0(2))), ('multipliers of the equalities', s.eq(o['e'], o['we'])),
        ('multipliers of the inequalities', s.And(s.eq(o['i'], o['wi']), s.ge(o['i'], 0) if len(o['i']) else True)),
        ('state', s.And(s.eq(o['st'], o['ws']), s.implies(s.lt(sc(o['ws'][0]), R_(TOL)), s.eq(o['status'], 1)),
                        s.implies(s.gt(sc(o['ws'][0]), R_(TOL)), s.eq(o['status'], 0)))), ('absent constraints have no multipliers', sc(o['none']))],
                      assume=lambda s, i: s.And(psd(s, i)), timeout=60, bound='2 variables, one step'))

  def f_run1(q, c, A, l, u, x, z, y, jit, chk):
    Q, A = q[:, None], A if jit else jnp.ones((1, 1))
    k = dict(sigma=SIG, momentum=MOM, tol=TOL, maxiter=2, rho_start=0.5, check_primal_dual_infeasability=chk,
             termination_check_frequency=1)
    sol = jaxopt.BoxOSQP(jit=jit, **k)
    prm = KKT((x, z), y, (y, y))
    a, (Q_, M) = ((Q, c), A, (l, u)), (Q, A)
    p, n = sol.run(prm, *a)
    box = jaxopt.BoxOSQP(jit=jit, **k)
    w, wn = box.update(prm, box.init_state(prm, *a), *a)
    w2, wn2 = box.update(w, wn, *a)
    go = wn.error > TOL
    f = lambda p, n: (p.primal, p.dual_eq, p.dual_ineq, n.error, n.status, n.iter_num, n.primal_residuals, n.dual_residuals)
    return f(p, n), tm(lambda s, t: jnp.where(go, t, s), f(w, wn), f(w2, wn2)), wn.rho_bar
  for jit, chk in ((True, False), (False, False)) + (((True, True),) if T else ()):
    ps.append(Problem('run' + ('' if jit else '_python') + ('_checked' if chk else ''),
                      dict(q=Sp(1), c=V1, A=Sp(1, 1), l=V1, u=V1, x=V1, z=V1, y=V1),
                      lambda jit=jit, chk=chk, **i: f_run1(jit=jit, chk=chk, **i), lambda s, i, o: [
        ('updates until the error is at most tol', s.eq(o[0], o[1]))], live=not jit,
                      assume=lambda s, i: s.And([V.rle(V.ZERO, i['q'][0])] + [V.rle(a, b) for a, b in zip(i['l'], i['u'])]),
                      timeout=60, bound='1 variable, 1 constraint, at most 2 steps'))
  return ps
