"""Block coordinate descent."""
from props.lib import *
import jaxopt
from jaxopt import objective, prox as jprox
from jaxopt._src import base
from symjax.uf import UF

FUNCTIONS = ['BlockCoordinateDescent.{init_state,update,run,optimality_fun}', 'LinearOperator',
             'CompositeLinearFunction.__call__']
ASSUMPTIONS = ['arbitrary smooth function of the predictions, design matrix, linear term, coordinate Lipschitz '
               'constants and block prox']


def problems(tier):
  T = tier == 'thorough'
  ps = []
  h, px = UF('h', 3), UF('px', 3)
  A2, V2 = Sp(2, 2), Sp(2)

  def comp(A, b, L):
    class Fun(objective.CompositeLinearFunction):
      def subfun(self, pred, p):
        return h(pred[0], pred[1], p)
      def make_linop(self, p):
        return base.LinearOperator(A)
      def columnwise_lipschitz_const(self, p):
        return L
      def b(self, p):
        return b
    return Fun()
  sub = lambda u, p: h(u[0], u[1], p)
  prox = lambda x, l, s=1.0: px(x, l, s)

  def sweep(A, b, L, x, l, p):
    full = lambda x: sub(A @ x, p) + (0. if b is None else x @ b)
    sq = 0.
    for i in range(2):
      g = A[:, i] @ jax.grad(sub)(A @ x, p) + (0. if b is None else b[i])
      new = prox(x[i] - (1 / L[i]) * g, l, 1 / L[i])
      sq = sq + (new - x[i]) ** 2
      x = x.at[i].set(new)
    return x, sq

  def f_upd(A, L, x, l, p, it, nf, ng, npx, b=None):
    sol = jaxopt.BlockCoordinateDescent(comp(A, b, L), prox)
    st = sol.init_state(x, l, p)._replace(iter_num=it, num_fun_eval=nf, num_grad_eval=ng, num_prox_eval=npx)
    q, n = sol.update(x, st, l, p)
    z, sq = sweep(A, b, L, x, l, p)
    return dict(q=q, n=n, z=z, sq=sq, pred=A @ q, g=jax.grad(sub)(A @ q, p), it1=it + 1, nf2=nf + 2, ng2=ng + 2,
                np2=npx + 2)
  I = Sp(kind='i', lo=0, hi=50)
  c_upd = lambda s, i, o: [
      ('Gauss-Seidel sweep of prox steps', s.eq(o['q'], o['z'])),
      ('predictions and their gradient belong to the new point', s.And(
          s.eq(o['n'].predictions, o['pred']), s.eq(o['n'].subfun_g, o['g']))),
      ('error is the distance moved', s.And(s.ge(sc(o['n'].error), 0), s.eq(
          sc(o['n'].error) * sc(o['n'].error), sc(o['sq'])))),
      ('counters', s.And(s.eq(o['n'].iter_num, o['it1']), s.eq(o['n'].num_fun_eval, o['nf2']),
                         s.eq(o['n'].num_grad_eval, o['ng2']), s.eq(o['n'].num_prox_eval, o['np2'])))]
  pos = lambda s, i: s.And([V.rlt(V.ZERO, a) for a in i['L']])
  ins = lambda: dict(A=A2, L=V2, x=V2, l=Sp(), p=Sp(), it=I, nf=I, ng=I, npx=I)
  ps.append(Problem('sweep', ins(), f_upd, c_upd, assume=pos, ufs=[h, px], timeout=40, bound='2 blocks, 2 samples'))
  ps.append(Problem('sweep_linear_term', dict(ins(), b=V2), f_upd, c_upd, assume=pos, ufs=[h, px], timeout=40,
                    bound='2 blocks, 2 samples'))

  def f_run(A, L, x, l, p, b):
    sol = jaxopt.BlockCoordinateDescent(comp(A, b, L), prox, maxiter=2, tol=-1.0, jit=False)
    q, st = sol.run(x, l, p)
    z, _ = sweep(A, b, L, x, l, p)
    z, _ = sweep(A, b, L, z, l, p)
    s0 = sol.init_state(x, l, p)
    return q, z, st.iter_num, s0, A @ x, jax.grad(sub)(A @ x, p)
  ps.append(Problem('run_2', dict(A=A2, L=V2, x=V2, l=Sp(), p=Sp(), b=V2), f_run, lambda s, i, o: [
      ('two sweeps', s.eq(o[0], o[1])), ('count', s.eq(o[2], 2)),
      ('start', s.And(s.eq(o[3].predictions, o[4]), s.eq(o[3].subfun_g, o[5]), s.eq(o[3].iter_num, 0),
                      sc(o[3].error).pinf))], assume=pos, ufs=[h, px], live=True, timeout=40, bound='2 sweeps'))

  def f_opt(A, L, x, l, p, b):
    sol = jaxopt.BlockCoordinateDescent(comp(A, b, L), prox)
    full = lambda x: sub(A @ x, p) + x @ b
    g = jax.grad(full)(x)
    return sol.optimality_fun(x, l, p), jnp.stack([prox(x[i] - g[i], l, 1.0) for i in range(2)]) - x, comp(A, b, L)(x, p), full(x)
  ps.append(Problem('optimality', dict(A=A2, L=V2, x=V2, l=Sp(), p=Sp(), b=V2), f_opt, lambda s, i, o: [
      ('residual of the proximal gradient map', s.eq(o[0], o[1])),
      ('value is subfun of the predictions plus the linear term', s.eq(o[2], o[3]))], ufs=[h, px]))

  # Real objectives: the sweep never increases the objective and a fixed point is optimal.
  XC = np.array([[1.0, 2.0], [-1.0, 0.5]])

  def f_lasso(y, w, l):
    X = jnp.asarray(XC)
    fun = objective.least_squares
    sol = jaxopt.BlockCoordinateDescent(fun, jprox.prox_lasso)
    st = sol.init_state(w, l, (X, y))
    q, n = sol.update(w, st, l, (X, y))
    F = lambda w: 0.25 * jnp.sum((X @ w - y) ** 2) + l * jnp.sum(jnp.abs(w))
    g = jax.grad(lambda w: 0.25 * jnp.sum((X @ w - y) ** 2))(w)
    return dict(dF=F(q) - F(w), err=n.error, g=g, cols=jnp.sum(X ** 2, axis=0), pred=n.predictions, Xq=X @ q)
  colpos = lambda s, i: s.And([V.rlt(V.ZERO, V.radd(V.rmul(i['X'][0, j], i['X'][0, j]),
                                                    V.rmul(i['X'][1, j], i['X'][1, j]))) for j in range(2)] +
                              [V.rle(V.ZERO, sc(i['l']))])
  def c_lasso(s, i, o):
    l, w = sc(i['l']), i['w']
    kkt = []
    for j in range(2):
      g = o['g'][j]
      kkt += [s.le(g, l), s.ge(g, -l),
              s.implies(V.rlt(V.ZERO, w[j]), s.eq(g, -l)), s.implies(V.rlt(w[j], V.ZERO), s.eq(g, l))]
    return [('a fixed point satisfies the lasso conditions', s.implies(s.xeq(sc(o['err']), 0), s.And(kkt))),
            ('predictions', s.eq(o['pred'], o['Xq']))]
  ps.append(Problem('lasso_fixed_point', dict(y=V2, w=V2, l=Sp()), f_lasso, c_lasso, assume=lambda s, i: V.rle(V.ZERO, sc(i['l'])), timeout=60,
                    required=False, bound='2 features, 2 samples, one design matrix'))

  def f_desc1(a, y, w, l):
    X = a[:, None]
    sol = jaxopt.BlockCoordinateDescent(objective.least_squares, jprox.prox_lasso)
    q, n = sol.update(w, sol.init_state(w, l, (X, y)), l, (X, y))
    F = lambda w: 0.25 * jnp.sum((X @ w - y) ** 2) + l * jnp.sum(jnp.abs(w))
    return F(q) - F(w)
  ps.append(Problem('lasso_descent', dict(a=V2, y=V2, w=Sp(1), l=Sp()), f_desc1, lambda s, i, o: [
      ('objective does not increase', s.le(sc(o), 0))], assume=lambda s, i: s.And(
          V.rle(V.ZERO, sc(i['l'])), V.rlt(V.ZERO, V.radd(V.rmul(i['a'][0], i['a'][0]), V.rmul(i['a'][1], i['a'][1])))),
                    timeout=60, required=False, bound='1 feature, 2 samples'))

  # Matrix parameters: rows are blocks.
  def f_multi(X, Y, W, l):
    sol = jaxopt.BlockCoordinateDescent(objective.least_squares, jprox.prox_ridge)
    q, n = sol.update(W, sol.init_state(W, l, (X, Y)), l, (X, Y))
    L = jnp.sum(X ** 2, axis=0)
    Z = W
    for i in range(2):
      g = X[:, i] @ (X @ Z - Y) / Y.size
      Z = Z.at[i].set((Z[i] - (1 / L[i]) * g) / (1 + l * (1 / L[i])))
    return q, Z, n.predictions, X @ q
  ps.append(Problem('matrix_blocks', dict(X=A2, Y=A2, W=A2, l=Sp()), f_multi, lambda s, i, o: [
      ('ridge sweep over rows', s.eq(o[0], o[1])), ('predictions', s.eq(o[2], o[3]))], assume=colpos, timeout=60,
                    bound='2 features, 2 samples, 2 outputs'))

  # Dual of the multiclass SVM: the step is the inverse of the curvature.
  def f_svm(X, Y, beta, C, l):
    fun = objective.multiclass_linear_svm_dual
    # Curvature of the smooth part along one coordinate of block i.
    col = fun.columnwise_lipschitz_const(C, (X, Y))
    F = lambda b: fun(b, C, (X, Y))
    H = jax.hessian(F)(beta)
    sol = jaxopt.BlockCoordinateDescent(fun, lambda x, l, s=1.0: x - s * l)
    q, n = sol.update(beta, sol.init_state(beta, l, C, (X, Y)), l, C, (X, Y))
    lin = lambda b: F(b) + l * jnp.sum(b)
    return [H[i, k, i, k] for i in range(2) for k in range(2)], col, lin(q) - lin(beta)
  ps.append(Problem('svm_dual', dict(X=A2, Y=A2, beta=A2, C=Sp(), l=Sp()), f_svm, lambda s, i, o: [
      ('coordinate Lipschitz constants bound the curvature', s.And(
          [s.le(sc(o[0][2 * a + k]), o[1][a]) for a in range(2) for k in range(2)]))], assume=lambda s, i: s.And(
          [V.rlt(V.ZERO, V.radd(V.rmul(i['X'][j, 0], i['X'][j, 0]), V.rmul(i['X'][j, 1], i['X'][j, 1])))
           for j in range(2)] + [V.rlt(V.ZERO, sc(i['C'])), V.rle(V.ZERO, sc(i['l']))]), timeout=40,
                    bound='2 samples, 2 features, 2 classes'))
  return ps
