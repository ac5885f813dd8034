"""Objective functions, their linear operators and Lipschitz constants."""
from props.lib import *
from jaxopt import objective as ob, loss
from jaxopt._src import base

FUNCTIONS = ['objective.{least_squares,ridge_regression,binary_logreg,multiclass_logreg,multiclass_logreg_with_intercept,'
             'l2_multiclass_logreg,l2_multiclass_logreg_with_intercept,multiclass_linear_svm_dual}', 'CompositeLinearFunction',
             'base.LinearOperator']
ASSUMPTIONS = ['losses of single samples are those of jaxopt.loss (P03)', 'l2reg > 0 for the SVM dual, labels in range',
               'exp is an uninterpreted positive function in the curvature problems']


def problems(tier):
  T = tier == 'thorough'
  ps = []
  X = Sp(2, 2)
  lab = lambda hi: Sp(2, kind='i', lo=0, hi=hi)
  add = lambda name, ins, fn, claim, **k: ps.append(Problem(name, ins, fn, claim, **k))
  two = lambda label: lambda s, i, o: [(label, s.eq(o[0], o[1]))]

  def f_ls(w, X, y, l):
    r = [X[k] @ w - y[k] for k in range(2)]
    v = sum(jnp.sum(a * a) for a in r) / (2 * jnp.size(y))
    return (ob.least_squares(w, (X, y)), ob.ridge_regression(w, l, (X, y)), jax.grad(ob.least_squares)(w, (X, y))), (
        v, v + 0.5 * l * jnp.sum(w * w), sum(jnp.outer(X[k], jnp.atleast_1d(r[k])).reshape(w.shape) for k in range(2)) / jnp.size(y))
  for tag, W, y in (('', Sp(2), Sp(2)), ('_matrix', Sp(2, 2), Sp(2, 2))):
    add('least_squares' + tag, dict(w=W, X=X, y=y, l=Sp()), f_ls, lambda s, i, o: [
        ('half mean of squared residuals', s.eq(sc(o[0][0]), sc(o[1][0]))), ('ridge', s.eq(sc(o[0][1]), sc(o[1][1]))),
        ('gradient', s.eq(o[0][2], o[1][2]))])

  def f_bin(w, X, y):
    return ob.binary_logreg(w, (X, y)), sum(loss.binary_logistic_loss(y[k], X[k] @ w) for k in range(2)) / 2
  add('binary_logreg', dict(w=Sp(2), X=X, y=lab(1)), f_bin, two('mean of the losses'))

  def f_multi(W, b, X, y, l):
    f = lambda b: sum(loss.multiclass_logistic_loss(y[k], X[k] @ W + b) for k in range(2)) / 2
    reg = 0.5 * l * jnp.sum(W * W)
    return [ob.multiclass_logreg(W, (X, y)), ob.multiclass_logreg_with_intercept((W, b), (X, y)),
            ob.l2_multiclass_logreg(W, l, (X, y)), ob.l2_multiclass_logreg_with_intercept((W, b), l, (X, y))], [
                f(0 * b), f(b), f(0 * b) + reg, f(b) + reg]
  add('multiclass_logreg', dict(W=Sp(2, 3), b=Sp(3), X=X, y=lab(2), l=Sp()), f_multi, lambda s, i, o: [
      (n, s.eq(sc(a), sc(b))) for n, a, b in zip(('mean of the losses', 'with intercept', 'l2', 'l2 with intercept'), *o)])

  # The dual of the multiclass SVM, up to the constant of its definition.
  def f_svm(B, X, Y, l):
    V = X.T @ Y - X.T @ B
    ref = 0.5 / l * jnp.sum(V * V) + jnp.sum(B * (Y - 1))
    return ob.multiclass_linear_svm_dual(B, l, (X, Y)), ref, jax.grad(ob.multiclass_linear_svm_dual)(B, l, (X, Y)), -X @ V / l + Y - 1
  add('svm_dual', dict(B=Sp(2, 2), X=X, Y=Sp(2, 2), l=Sp()), f_svm, lambda s, i, o: [
      ('value', s.eq(sc(o[0]), sc(o[1]))), ('gradient', s.eq(o[2], o[3]))], assume=lambda s, i: V.rlt(V.ZERO, sc(i['l'])))

  # Column-wise Lipschitz constants bound the curvature along each block.
  def curv(fun, args, hyper):
    def f(W, v, X, y, j):
      h = (X, y)
      D = jnp.zeros_like(W).at[j].set(v)
      g = lambda t: fun(W + t * D, h)
      return jax.jvp(jax.grad(g), (0.,), (1.,))[1], fun.columnwise_lipschitz_const(h)[j], jnp.sum(v * v)
    return f
  c_curv = lambda s, i, o: [('curvature at most the constant', s.le(sc(o[0]), sc(o[1]) * sc(o[2]))), ('convex', s.ge(sc(o[0]), 0))]
  for j in range(2):
    add(f'curvature_least_squares_{j}', dict(W=Sp(2), v=Sp(), X=X, y=Sp(2)),
        lambda j=j, **i: curv(ob.least_squares, (), ())(j=j, **i), c_curv, timeout=60)
  add('curvature_binary', dict(W=Sp(1), v=Sp(), X=Sp(1, 1), y=Sp(1, kind='i', lo=0, hi=1)),
      lambda **i: curv(ob.binary_logreg, (), ())(j=0, **i), c_curv, timeout=60, bound='1 sample, 1 feature')
  add('curvature_multiclass', dict(W=Sp(1, 2), v=Sp(2), X=Sp(1, 1), y=Sp(1, kind='i', lo=0, hi=1)),
      lambda **i: curv(ob.multiclass_logreg, (), ())(j=0, **i), c_curv, timeout=60, required=T, bound='1 sample, 2 classes')

  # Linear operators.
  def f_op(A, x, z, X2, d, d2, k, j):
    op = base.LinearOperator(A)
    cols = op.column_l2_norms()
    x2 = x.at[j].add(d)
    Z2 = X2.at[j].add(d2)
    z2 = z.at[k].add(d)
    got = (op.matvec(x), op.matvec(X2), op.rmatvec(z), op.matvec_element(x, k), op.matvec_element(X2, k), op.rmatvec_element(z, j),
           op.update_matvec(A @ x, d, j), op.update_matvec(A @ X2, d2, j), op.update_rmatvec(A.T @ z, d, k), op.column_l2_norms(squared=True))
    want = (A @ x, A @ X2, A.T @ z, (A @ x)[k], (A @ X2)[k], (A.T @ z)[j], A @ x2, A @ Z2, A.T @ z2, jnp.stack([A[:, q] @ A[:, q] for q in range(3)]))
    l, td = jax.tree_util.tree_flatten(op)
    return got, want, cols, jnp.all(jax.tree_util.tree_unflatten(td, l).matvec(x) == A @ x)
  names = ('matvec', 'matvec of a matrix', 'rmatvec', 'matvec_element', 'matvec_element of a matrix', 'rmatvec_element', 'update_matvec',
           'update_matvec of a matrix', 'update_rmatvec', 'squared column norms')
  for j in range(3):
    add(f'operator_{j}', dict(A=Sp(2, 3), x=Sp(3), z=Sp(2), X2=Sp(3, 2), d=Sp(), d2=Sp(2), k=Sp(kind='i', lo=0, hi=1)),
        lambda j=j, **i: f_op(j=j, **i), lambda s, i, o: [(n, s.eq(a, b)) for n, a, b in zip(names, o[0], o[1])] + [
          ('column norms', s.And([s.And(s.ge(a, 0), s.eq(a * a, b)) for a, b in zip(o[2], o[1][-1])])), ('pytree', sc(o[3]))])
  return ps
