"""Planted bugs, as edits of jaxopt/_src files."""
SEEDS = []


def S(id, property, edits, demo, needs, breaks):
  SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


S('p01-sparse-simplex-ties', 'P01',
  [('projection.py', '''  max_nz_simplex_projection = jax.nn.relu(
      1 / idx + (max_nz_values - cumsum_max_nz_values[idx - 1] / idx))

  # Put the projection of max_nz_values to their original indices;
  # set all other indices zero.
  sparse_simplex_projection = jnp.sum(
      max_nz_simplex_projection[ :, jnp.newaxis] * jax.nn.one_hot(
          max_nz_indices, len(x), dtype=x.dtype), axis=0)
''', '''  # Threshold all the coordinates and set the ones not selected to zero.
  sparse_simplex_projection = jnp.where(
      x >= max_nz_values[-1],
      jax.nn.relu(1 / idx + (x - cumsum_max_nz_values[idx - 1] / idx)), 0)
''')],
  '''
p = jaxopt.projection.projection_sparse_simplex(jnp.array([1.0, 1.0, 1.0, 0.0]), max_nz=2)
assert abs(float(p.sum()) - 1) < 1e-9, p
assert int((p > 0).sum()) <= 2, p
''', 'ties between the max_nz-th and the next largest coordinate',
  'the result has more than max_nz non-zeros and does not sum to value')

S('p08-fixed-point-solve', 'P08',
  [('implicit_diff.py', '''  return custom_root(optimality_fun=optimality_fun,
                     has_aux=has_aux,
                     solve=solve,
''', '''  return custom_root(optimality_fun=optimality_fun,
                     has_aux=has_aux,
''')],
  '''
T = lambda x, a: 0.5 * x + a
half = lambda matvec, b: 0.5 * jaxopt.linear_solve.solve_lu(matvec, b)
solver = jaxopt.implicit_diff.custom_fixed_point(T, solve=half)(lambda x, a: 2 * a)
g = jax.grad(lambda a: solver(None, a))(1.0)
assert abs(g - 1.0) < 1e-6, g
''', 'a linear solver whose result differs from the default one (a regularised one)',
  'custom_fixed_point computes derivatives with the default linear solver instead of the one it is given')

S('p10-bicgstab-warm-ridge', 'P10',
  [('linear_solve.py', '''  if ridge is not None:
    matvec = _make_ridge_matvec(matvec, ridge=ridge)
  return jsp.sparse.linalg.bicgstab(matvec, b, x0=init, **kwargs)[0]
''', '''  # With a warm start, solve for the correction to add to it.
  if init is not None:
    b = tree_add_scalar_mul(b, -1, matvec(init))
  if ridge is not None:
    matvec = _make_ridge_matvec(matvec, ridge=ridge)
  x = jsp.sparse.linalg.bicgstab(matvec, b, **kwargs)[0]
  return x if init is None else tree_add_scalar_mul(x, 1, init)
''')],
  '''
A = jnp.array([[2., 1.], [0., 3.]]); b = jnp.array([1., 2.])
x = jaxopt.linear_solve.solve_bicgstab(lambda v: A @ v, b, ridge=1.0, init=jnp.array([1., 1.]), tol=1e-12)
assert jnp.allclose(A @ x + x, b, atol=1e-6), x
''', 'a ridge together with a non-zero init', 'the solution is of another system, as the residual of the warm start leaves the ridge out')

S('p11-nan-accepted', 'P11',
  [('backtracking_linesearch.py', '''    error_cond1 = jnp.where(jnp.isnan(diff_cond1), jnp.inf, diff_cond1)
    error_cond1 = jnp.maximum(error_cond1, 0.0)
''', '''    error_cond1 = jnp.fmax(diff_cond1, 0.0)
''')],
  '''
f = lambda x: jnp.sum(x - jnp.log(x))
ls = jaxopt.BacktrackingLineSearch(f, maxiter=20, condition='armijo', max_stepsize=100.)
s, st = ls.run(10.0, jnp.array([2.0]))
assert np.isfinite(float(f(st.params))), (s, st.params)
''', 'an objective that is NaN at the tried point', 'a NaN objective value passes the sufficient decrease test')

S('p12-quad-outside', 'P12',
  [('zoom_linesearch.py', '''    middle_quad_valid = (middle_quad > left + quad_chk) & (
        middle_quad < right - quad_chk
    )
''', '''    middle_quad_valid = jnp.abs(middle_quad - left) > quad_chk
    middle_quad_valid &= jnp.abs(right - middle_quad) > quad_chk
''')],
  '''
from jaxopt import ZoomLineSearch
al = 5.05 / 3; be = (1.95 - 6 * al) / 27
f = lambda x: -1e7 - x[0] + al * x[0] ** 2 + be * x[0] ** 3
ls = ZoomLineSearch(f, maxiter=15, jit=False, unroll=True, max_stepsize=100.0)
x = jnp.array([0.0]); s = jnp.asarray(3.0); st = ls.init_state(3.0, x)
for _ in range(6):
  lo, hi, found = float(st.low), float(st.high), bool(st.interval_found)
  s, st = ls.update(s, st, x)
  assert not found or min(lo, hi) < float(s) < max(lo, hi), (lo, hi, s)
  if bool(st.done) or bool(st.failed):
    break
''', 'an interval in which the quadratic interpolation has its stationary point outside',
  'the trial stepsize leaves the interval, so that the interval need not shrink')

S('p13-bracket-low', 'P13',
  [('hager_zhang_linesearch.py', 'new_low = jnp.where(~done & update_right_endpoint, best_middle, low)',
    'new_low = jnp.where(~done & update_right_endpoint, middle / self.expansion_factor, low)')],
  '''
from jaxopt import HagerZhangLineSearch
# the value first rises, then falls, then rises again: the point 1 / expansion_factor is on the wrong side
for seed in range(40):
  r = np.random.RandomState(seed)
  a, w, p = r.uniform(0.5, 6), r.uniform(2, 12), r.uniform(0, 6)
  f = lambda x: a * (x[0] - 0.05) ** 2 + jnp.sin(w * x[0] + p)
  x = jnp.array([0.0]); v, g = jax.value_and_grad(f)(x)
  st = HagerZhangLineSearch(f, jit=False).init_state(1.0, x)
  y = x - st.low * g
  sl = -float(jnp.dot(jax.grad(f)(y), g))
  assert float(f(y)) <= float(v) + 1e-6 * abs(float(v)) + 1e-9 and sl < 1e-9, (seed, st.low, f(y), v, sl)
''', 'an objective whose slope at the unit step is already positive while the point 1 / expansion_factor does not decrease',
  'the low end of the initial bracket is above the threshold or slopes up')
