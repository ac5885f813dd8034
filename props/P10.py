"""Linear solvers solve the system they are given."""
from props.lib import *
from jaxopt import linear_solve as ls
from jaxopt._src import linear_operator as lo

FUNCTIONS = ['linear_solve.{solve_lu,solve_cholesky,solve_inv,solve_qr,solve_cg,solve_normal_cg,'
             'solve_gmres,solve_bicgstab}, linear_operator.{Dense,Functional}LinearOperator']
ASSUMPTIONS = ['the operator (after ridge) is non-singular; symmetric positive definite for cholesky '
               'and cg', 'JAX\'s cg solves symmetric positive definite systems, its gmres and bicgstab '
               'solve the system they are given (contract); LU and Cholesky are executed']
tm = jax.tree_util.tree_map


def det(M):
  M = [list(r) for r in M]
  if len(M) == 1:
    return M[0][0]
  return sum((M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) * (V.ONE if j % 2 == 0 else -V.ONE)
              for j in range(len(M))), V.ZERO)


def shifted(A, r):
  return np.array([[A[a, b] + r if a == b else A[a, b] for b in range(len(A))]
                   for a in range(len(A))], dtype=object)


def nonsing(A):
  return Not(V.req(det(A), V.ZERO))


def pd(A):
  n = len(A)
  return And([V.req(A[a, b], A[b, a]) for a in range(n) for b in range(a)]
             + [V.rlt(V.ZERO, det(A[:k, :k])) for k in range(1, n + 1)])


def problems(tier):
  T = tier == 'thorough'
  ps = []
  direct = dict(lu=ls.solve_lu, cholesky=ls.solve_cholesky, inv=ls.solve_inv, qr=ls.solve_qr)
  iterative = dict(cg=ls.solve_cg, gmres=ls.solve_gmres, bicgstab=ls.solve_bicgstab)

  def add(name, inputs, fn, claim, **kw):
    kw.setdefault('linsolve', 'exec')
    ps.append(Problem(name, inputs, fn, claim, **kw))

  def resid(s, A, x, b):
    return s.And([s.eq(sum((A[i, j] * x[j] for j in range(len(x))), V.ZERO), b[i])
                  for i in range(len(b))])

  for nm, f in {**direct, **iterative}.items():
    valid = pd if nm in ('cholesky', 'cg') else nonsing
    for n in (1, 2) + ((3,) if T and nm != 'qr' else ()):
      for ridge in (None, 'r'):
        inp = dict(A=Sp(n, n), b=Sp(n), r=Sp())
        eff = lambda i, ridge=ridge: i['A'] if ridge is None else shifted(i['A'], sc(i['r']))
        add(f'{nm}_{n}' + ('_ridge' if ridge else ''), inp,
            lambda A, b, r, f=f, ridge=ridge: f(lambda v: A @ v, b, ridge=None if ridge is None else r),
            lambda s, i, o, eff=eff: [('solves A x = b', resid(s, eff(i), o, i['b']))],
            assume=lambda s, i, eff=eff, valid=valid: valid(eff(i)), bound=f'{n} unknowns',
            sample=lambda r, n=n: dict(A=sample_pd(r, n), b=np.ones(n), r=np.array(0.5)))
    if nm in direct:
      for ridge in (None, 'r'):
        def sc_fn(a, b, r, f=f, ridge=ridge):
          return f(lambda v: a * v, b, ridge=None if ridge is None else r)
        e = lambda i, ridge=ridge: sc(i['a']) + (sc(i['r']) if ridge else V.ZERO)
        add(f'{nm}_scalar' + ('_ridge' if ridge else ''), dict(a=Sp(), b=Sp(), r=Sp()), sc_fn,
            lambda s, i, o, e=e: [('solves a x = b', s.eq(e(i) * sc(o), sc(i['b'])))],
            assume=lambda s, i, e=e: V.rlt(V.ZERO, e(i)), live=True, bound='scalar system')
  # matrix right-hand sides: a general linear operator on 2x1 and 1x2 (and 2x2) arrays
  for nm in ('lu', 'cholesky'):
    for sh in ((2, 1), (1, 2)):
      n = sh[0] * sh[1]
      add(f'{nm}_matrix_{sh[0]}x{sh[1]}', dict(A=Sp(n, n), b=Sp(*sh), r=Sp()),
          lambda A, b, r, f=direct[nm], sh=sh: f(lambda v: (A @ v.ravel()).reshape(sh), b, ridge=r),
          lambda s, i, o: [('solves A x = b', resid(s, shifted(i['A'], sc(i['r'])), flat(o), flat(i['b']))),
                           ('shape', s.eq(o.shape == i['b'].shape, True))],
          assume=lambda s, i, nm=nm: (pd if nm == 'cholesky' else nonsing)(shifted(i['A'], sc(i['r']))),
          bound=f'{sh} unknowns',
          sample=lambda r, n=n, sh=sh: dict(A=sample_pd(r, n), b=np.ones(sh), r=np.array(0.5)))
    add(f'{nm}_matrix_2x2', dict(A=Sp(2, 2), B=Sp(2), b=Sp(2, 2)),
        lambda A, B, b, f=direct[nm]: f(lambda v: (A @ v) * B[None, :], b),
        lambda s, i, o: [('solves A x = b', s.And([s.eq(
            (i['A'][a, 0] * o[0, c] + i['A'][a, 1] * o[1, c]) * i['B'][c], i['b'][a, c])
            for a in range(2) for c in range(2)]))],
        assume=lambda s, i, nm=nm: And([pd(i['A']) if nm == 'cholesky' else nonsing(i['A'])]
                                       + [V.rlt(V.ZERO, e) if nm == 'cholesky'
                                          else Not(V.req(e, V.ZERO)) for e in i['B']]),
        bound='4 unknowns', timeout=30,
        sample=lambda r: dict(A=sample_pd(r), B=np.array([1.0, 2.0]), b=np.ones((2, 2))))

  # iterative solvers on pytrees, with ridge and an initial guess
  X = dict(a=Sp(1), b=Sp())
  op = lambda A, x: dict(a=A[0, 0] * x['a'] + A[0, 1] * x['b'], b=A[1, 0] * x['a'][0] + A[1, 1] * x['b'])
  for nm, f in iterative.items():
    for ini in (False, True):
      add(f'{nm}_pytree' + ('_init' if ini else ''), dict(A=Sp(2, 2), b=X, r=Sp(), x0=X),
          lambda A, b, r, x0, f=f, ini=ini: f(lambda x: op(A, x), b, ridge=r, init=x0 if ini else None,
                                              tol=1e-9),
          lambda s, i, o: [('solves A x = b', resid(s, shifted(i['A'], sc(i['r'])), flat(o), flat(i['b'])))],
          assume=lambda s, i, nm=nm: (pd if nm == 'cg' else nonsing)(shifted(i['A'], sc(i['r']))),
          bound='2 unknowns in 2 leaves',
          sample=lambda r: dict(A=sample_pd(r), b=dict(a=np.ones(1), b=np.array(2.0)), r=np.array(0.5),
                                x0=dict(a=np.zeros(1), b=np.array(0.0))))

  # normal equations: A'A x + r x = A'b, also for non-square operators
  def normal(i, m, n, ridge):
    A = i['A']
    M = np.array([[sum((A[k, a] * A[k, b] for k in range(m)), V.ZERO) for b in range(n)]
                  for a in range(n)], dtype=object)
    if ridge:
      M = shifted(M, sc(i['r']))
    return M, [sum((A[k, a] * i['b'][k] for k in range(m)), V.ZERO) for a in range(n)]
  for m, n in ((1, 1), (2, 2), (2, 1), (1, 2), (3, 2)):
    for ridge in (None, 'r'):
      if m < n and ridge is None:
        continue
      for ini in ((False, True) if m == n else (True,)):
        add(f'normal_cg_{m}x{n}' + ('_ridge' if ridge else '') + ('_init' if ini else ''),
            dict(A=Sp(m, n), b=Sp(m), r=Sp(), x0=Sp(n)),
            lambda A, b, r, x0, ridge=ridge, ini=ini: ls.solve_normal_cg(
                lambda v: A @ v, b, ridge=None if ridge is None else r, init=x0 if ini else None, tol=1e-9),
            lambda s, i, o, m=m, n=n, ridge=ridge: [('solves the normal equations', resid(
                s, normal(i, m, n, ridge)[0], o, normal(i, m, n, ridge)[1]))],
            assume=lambda s, i, m=m, n=n, ridge=ridge: And(
                pd(normal(i, m, n, ridge)[0]), V.rlt(V.ZERO, sc(i['r']))),
            bound=f'{m}x{n}', timeout=60,
            sample=lambda r, m=m, n=n: dict(A=np.array([[r.uniform(-1, 1) + (a == b) * 2 for b in range(n)]
                                                        for a in range(m)]),
                                            b=np.ones(m), r=np.array(0.5), x0=np.zeros(n)))

  def f_raise(A, b):
    try:
      ls.solve_normal_cg(lambda v: A @ v, b)
    except TypeError:
      return jnp.asarray(1)
    return jnp.asarray(0)
  add('normal_cg_nonsquare_needs_init', dict(A=Sp(2, 1), b=Sp(2)), f_raise,
      lambda s, i, o: [('raises TypeError', s.eq(sc(o), 1))])

  # linear operators
  def f_dense(p, x, y):
    op = lo._make_linear_operator(None)(p)
    return dict(mv=op(x), mv2=op.matvec(x), rmv=op.rmatvec(x, y), both=op.matvec_and_rmatvec(x, y),
                nmv=op.normal_matvec(x), cn=op.columns_l2_norms(), cn2=op.columns_l2_norms(squared=True))

  def mvs(A, x):
    return matvec(A, x)

  def dense_claims(s, i, o):
    cl = []
    for k in ('u', 'w'):
      A, x, y = i['p'][k], i['x'][k], i['y'][k]
      cl += [('matvec ' + k, s.And([s.eq(o[n][k], mvs(A, x)) for n in ('mv', 'mv2')]
                                   + [s.eq(o['both'][0][k], mvs(A, x))])),
             ('rmatvec ' + k, s.And(s.eq(o['rmv'][k], mvs(A.T, y)), s.eq(o['both'][1][k], mvs(A.T, y)))),
             ('normal matvec ' + k, s.eq(o['nmv'][k], mvs(A.T, mvs(A, x))))]
      if 'cn' in o:
        q = np.array([s.dot(A[:, j], A[:, j]) for j in range(A.shape[1])], dtype=object)
        cl += [('column norms ' + k, s.And(s.eq(o['cn2'][k], q), s.eq(np.array([s.sq(e) for e in o['cn'][k]], dtype=object), q),
                                           s.ge(o['cn'][k], 0)))]
    return cl
  tree = dict(p=dict(u=Sp(2, 3), w=Sp(2, 2)), x=dict(u=Sp(3), w=Sp(2)), y=dict(u=Sp(2), w=Sp(2)))
  add('dense_operator', tree, f_dense, dense_claims, bound='2x3 and 2x2 leaves')

  def f_diag(p):
    return lo.DenseLinearOperator(p).diag()
  add('dense_diag', dict(p=dict(u=Sp(2, 2), w=Sp(3, 3))), f_diag, lambda s, i, o: [
      ('diagonal', s.And([s.eq(o[k], np.diag(i['p'][k]))
                          for k in ('u', 'w')]))], bound='2x2 and 3x3 leaves')

  def f_fun(p, x, y):
    op = lo._make_linear_operator(lambda p, x: tm(jnp.dot, p, x))(p)
    return dict(mv=op(x), mv2=op.matvec(x), rmv=op.rmatvec(x, y), both=op.matvec_and_rmatvec(x, y),
                nmv=op.normal_matvec(x))
  add('functional_operator', tree, f_fun, dense_claims, bound='2x3 and 2x2 leaves')
  return ps
