"""Broyden: the inverse Jacobian approximation and the step."""
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['Broyden.{init_state,update,run}', 'inv_jacobian_product, inv_jacobian_rproduct through update']
ASSUMPTIONS = ['the function is an arbitrary smooth map of a pytree with two leaves',
               'the denominator of the Broyden update is not zero where its result is used']
tm = jax.tree_util.tree_map
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
unvec = lambda v: dict(a=v[:1], b=v[1])


def problems(tier):
  T = tier == 'thorough'
  ps = []
  F = UF('F', 3, (2,))
  fun = lambda x, p: unvec(F(x['a'][0], x['b'], p))
  X = dict(a=Sp(1), b=Sp())
  row = lambda h, k: vec(tm(lambda l: l[k], h))

  def f_upd(m, it, step, aux, x, v, p, D, Cc, gamma, t):
    kw = dict(history_size=m, stepsize=(lambda k: 0.25 * (k + 1)) if step == 'fun' else 0.5)
    sol = jaxopt.Broyden(lambda x, p: (fun(x, p), {'e': x['a'] * 3}), has_aux=True, **kw) if aux else \
        jaxopt.Broyden(fun, **kw)
    st = sol.init_state(x, p)
    st = st._replace(iter_num=jnp.asarray(it), value=v, d_history=D, c_history=Cc, gamma=gamma, stepsize=t)
    q, n = sol.update(x, st, p)
    B = gamma * jnp.eye(2) + sum(jnp.outer(row(Cc, k), row(D, k)) for k in range(m))
    eta = 0.25 * (it + 1) if step == 'fun' else 0.5
    want = vec(x) - eta * B @ vec(v)
    v1 = fun(q, p)
    dx, dg = vec(q) - vec(x), vec(v1) - vec(v)
    w = B.T @ dx
    return dict(q=vec(q), want=want, n=n._replace(aux=None), v1=v1, den=w @ dg, w=(1 / (w @ dg)) * w, c=dx - B @ dg,
                eta=jnp.asarray(eta), err2=vec(v1) @ vec(v1), aux=n.aux if aux else {}, a3=q['a'] * 3,
                dx=dx, dg=dg)

  def c_upd(m, it, aux):
    def claim(s, i, o):
      n = o['n']
      slot = it % m
      r = lambda h, k: np.concatenate([np.ravel(h['a'][k]), np.ravel(h['b'][k])])
      den = sc(o['den'])
      nz = s.Not(s.xeq(den, 0))
      cl = [('step is minus stepsize times inverse Jacobian times value', s.eq(o['q'], o['want'])),
            ('value at the new point', s.eq(n.value, o['v1'])),
            ('left vector of the rank-one update', s.implies(nz, s.eq(r(n.c_history, slot), o['c']))),
            ('right vector of the rank-one update', s.implies(nz, s.eq(r(n.d_history, slot), o['w']))),
            ('other updates kept', s.And([s.And(
                s.eq(r(n.c_history, k), r(i['Cc'], k)), s.eq(r(n.d_history, k), r(i['D'], k)))
                for k in range(m) if k != slot])),
            ('gamma kept', s.eq(sc(n.gamma), sc(i['gamma']))),
            ('stepsize recorded', s.eq(sc(n.stepsize), sc(o['eta']))),
            ('error is the norm of the value', s.And(s.ge(sc(n.error), 0), s.eq(
                sc(n.error) * sc(n.error), sc(o['err2'])))),
            ('counters', s.And(s.eq(n.iter_num, it + 1), s.eq(n.num_fun_eval, 2)))]
      if aux:
        cl.append(('aux at the new point', s.eq(o['aux']['e'], o['a3'])))
      return cl
    return claim
  for m, it, step, aux in ((1, 0, 'const', False), (1, 3, 'fun', True), (2, 0, 'const', False),
                           (2, 1, 'const', False), (2, 2, 'fun', False), (2, 3, 'const', True),
                           (3, 4, 'const', False)) + (((4, 6, 'const', False), (4, 2, 'fun', True)) if T else ()):
    h = dict(a=Sp(m, 1), b=Sp(m))
    ps.append(Problem(f'update_m{m}_it{it}' + ('_callable' if step == 'fun' else '') + ('_aux' if aux else ''),
                      dict(x=X, v=X, p=Sp(), D=h, Cc=h, gamma=Sp(), t=Sp()),
                      lambda m=m, it=it, step=step, aux=aux, **i: f_upd(m, it, step, aux, **i), c_upd(m, it, aux),
                      ufs=[F], timeout=30, bound=f'history {m}, any contents, dimension 2'))

  # the approximation after the first update satisfies the secant equation
  def f_secant(x, v, p, gamma):
    sol = jaxopt.Broyden(fun, history_size=2, stepsize=0.5)
    st = sol.init_state(x, p)._replace(value=v, gamma=gamma)
    q, n = sol.update(x, st, p)
    B = n.gamma * jnp.eye(2) + sum(jnp.outer(row(n.c_history, k), row(n.d_history, k)) for k in range(2))
    dx, dg = vec(q) - vec(x), vec(n.value) - vec(v)
    return B @ dg, dx, gamma * dx @ dg
  ps.append(Problem('secant_equation', dict(x=X, v=X, p=Sp(), gamma=Sp()), f_secant,
                    lambda s, i, o: [('inverse Jacobian maps the change of value to the step', s.implies(
                        s.Not(s.xeq(sc(o[2]), 0)), s.eq(o[0], o[1])))], ufs=[F], timeout=30,
                    bound='first update, dimension 2'))

  # backtracking on the squared norm
  def f_ls(x, v, p, gamma, t, cond):
    sol = jaxopt.Broyden(fun, history_size=1, maxls=2, condition=cond, decrease_factor=0.5, max_stepsize=0.75,
                         min_stepsize=1e-3, increase_factor=1.25)
    st = sol.init_state(x, p)._replace(gamma=gamma, stepsize=t)
    q, n = sol.update(x, st, p)
    d = tm(lambda e: -gamma * e, st.value)
    sq = lambda x, p: sum(jnp.sum(l ** 2) for l in jax.tree_util.tree_leaves(fun(x, p)))
    t0 = jnp.where(t <= 1e-3, 0.75, t * 1.25)
    eta, lst = jaxopt.BacktrackingLineSearch(sq, maxiter=2, condition=cond, decrease_factor=0.5,
                                             max_stepsize=0.75, tol=1e-2).run(
        t0, x, None, None, descent_direction=d, fun_args=(p,))
    return dict(q=q, n=n, eta=eta, lq=lst.params, lv=fun(lst.params, p), failed=lst.failed, nl=lst.iter_num)
  for cond in ('armijo',) + (('wolfe',) if T else ()):
    ps.append(Problem('backtracking_' + cond, dict(x=X, v=X, p=Sp(), gamma=Sp(), t=Sp()),
                      lambda cond=cond, **i: f_ls(cond=cond, **i), lambda s, i, o: [
                          ('new point is the line search\'s', s.eq(o['q'], o['lq'])),
                          ('stepsize', s.eq(sc(o['n'].stepsize), sc(o['eta']))),
                          ('value', s.eq(o['n'].value, o['lv'])),
                          ('failure flag', s.iff(sc(o['n'].failed_linesearch), sc(o['failed']))),
                          ('line search iterations', s.eq(o['n'].num_linesearch_iter, o['nl']))],
                      ufs=[F], timeout=30, assume=lambda s, i: s.xlt(0, sc(i['t'])),
                      bound='at most 2 line search steps'))

  def f_init(x, p, D, Cc, gamma, t, it, warm):
    sol = jaxopt.Broyden(fun, history_size=2, max_stepsize=0.75, gamma=0.5)
    if warm:
      st0 = sol.init_state(x, p)._replace(d_history=D, c_history=Cc, gamma=gamma, stepsize=t, iter_num=it)
      return sol.init_state(jaxopt.OptStep(x, st0), p), fun(x, p)
    return sol.init_state(x, p), fun(x, p)

  def c_init(warm):
    def claim(s, i, o):
      st, v = o
      cl = [('value', s.eq(st.value, v)), ('error', sc(st.error).pinf)]
      if warm:
        cl.append(('state carried over', s.And(
            s.eq(st.d_history, i['D']), s.eq(st.c_history, i['Cc']), s.eq(st.gamma, i['gamma']),
            s.eq(st.stepsize, i['t']), s.eq(st.iter_num, i['it']))))
      else:
        cl.append(('empty history, gamma and stepsize', s.And(
            [s.eq(e, 0) for e in flat([st.d_history, st.c_history])]
            + [s.eq(sc(st.gamma), R_(0.5)), s.eq(sc(st.stepsize), R_(0.75)), s.eq(st.iter_num, 0)])))
      return cl
    return claim
  h2 = dict(a=Sp(2, 1), b=Sp(2))
  for warm in (False, True):
    ps.append(Problem('warm_start' if warm else 'cold_start',
                      dict(x=X, p=Sp(), D=h2, Cc=h2, gamma=Sp(), t=Sp(), it=Sp(kind='i', lo=0, hi=9)),
                      lambda warm=warm, **i: f_init(warm=warm, **i), c_init(warm), ufs=[F]))
  return ps
