"""L-BFGS: the two-loop recursion, history handling and the step."""
from props.lib import *
import jaxopt
from symjax.uf import UF

DCE = True   # drop what the claims do not depend on
FUNCTIONS = ['LBFGS.{init_state,update,run}', 'inv_hessian_product, compute_gamma and update_history '
             'through LBFGS.update']
ASSUMPTIONS = ['the objective is an arbitrary smooth function of a pytree with two leaves']
tm = jax.tree_util.tree_map
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def setup():
  f = UF('f', 3)
  obj = lambda x, p: f(x['a'][0], x['b'], p)
  return f, obj


def unvec(v):
  return dict(a=v[:1], b=v[1])


def dense(pairs, gamma, n):
  """Inverse Hessian approximation from pairs (s, y, rho), oldest first."""
  H = gamma * jnp.eye(n)
  for s, y, rho in pairs:
    W = jnp.eye(n) - rho * jnp.outer(s, y)
    H = W @ H @ W.T + rho * jnp.outer(s, s)
  return H


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f, obj = setup()
  X = dict(a=Sp(1), b=Sp())
  vg = jax.value_and_grad(obj)

  def mk(mode, **k):
    if mode == 'aux':
      return jaxopt.LBFGS(lambda x, p: (obj(x, p), {'e': x['a'] * 3}), has_aux=True, **k)
    if mode == 'vg':
      return jaxopt.LBFGS(vg, value_and_grad=True, **k)
    return jaxopt.LBFGS(obj, **k)

  # one update from an arbitrary state
  def f_upd(m, it, mode, step, use_gamma, x, g, v, p, S_, Y, rho, gamma, t):
    sol = mk(mode, history_size=m, stepsize=(lambda k: 0.25 * (k + 1)) if step == 'fun' else 0.5,
             use_gamma=use_gamma)
    st = sol.init_state(x, p)
    st = st._replace(iter_num=jnp.asarray(it), grad=g, value=v, s_history=S_, y_history=Y, rho_history=rho,
                     gamma=gamma, stepsize=t)
    q, n = sol.update(x, st, p)
    age = [(it + k) % m for k in range(m)] if it >= m else list(range(it))
    row = lambda h, k: vec(tm(lambda l: l[k], h))
    H = dense([(row(S_, k), row(Y, k), rho[k]) for k in age], gamma, 2)
    eta = 0.25 * (it + 1) if step == 'fun' else 0.5
    want = vec(x) - eta * H @ vec(g)
    v1, g1 = vg(q, p)
    s, y = vec(q) - vec(x), vec(g1) - vec(g)
    sy, yy = s @ y, y @ y
    return dict(q=vec(q), want=want, n=n._replace(aux=None), s=s, y=y, sy=sy, yy=yy, v1=v1, g1=g1,
                eta=jnp.asarray(eta), aux=n.aux if mode == 'aux' else {}, a3=q['a'] * 3,
                err2=vec(g1) @ vec(g1))

  def c_upd(m, it, mode, use_gamma):
    def claim(s, i, o):
      n = o['n']
      slot = it % m
      row = lambda h, k: np.concatenate([np.ravel(h['a'][k]), np.ravel(h['b'][k])])
      cl = [('step is minus stepsize times inverse Hessian times gradient', s.eq(o['q'], o['want'])),
            ('value and gradient at the new point', s.And(s.eq(n.value, o['v1']), s.eq(n.grad, o['g1']))),
            ('newest pair stored', s.And(s.eq(row(n.s_history, slot), o['s']), s.eq(row(n.y_history, slot), o['y']))),
            ('inverse curvature stored', s.And(
                s.implies(s.Not(s.xeq(sc(o['sy']), 0)), s.eq(n.rho_history[slot] * sc(o['sy']), 1)),
                s.implies(s.xeq(sc(o['sy']), 0), s.eq(n.rho_history[slot], 0)))),
            ('other pairs kept', s.And([s.And(
                s.eq(row(n.s_history, k), row(i['S_'], k)), s.eq(row(n.y_history, k), row(i['Y'], k)),
                s.eq(n.rho_history[k], i['rho'][k])) for k in range(m) if k != slot])),
            ('scaling of the initial matrix', s.And(
                s.implies(s.gt(sc(o['yy']), 0), s.eq(sc(n.gamma) * sc(o['yy']), sc(o['sy']))),
                s.implies(s.xeq(sc(o['yy']), 0), s.eq(sc(n.gamma), 1))) if use_gamma else s.eq(sc(n.gamma), 1)),
            ('stepsize recorded', s.eq(sc(n.stepsize), sc(o['eta']))),
            ('error is the gradient norm', s.And(s.ge(sc(n.error), 0), s.eq(
                sc(n.error) * sc(n.error), sc(o['err2'])))),
            ('counters', s.And(s.eq(n.iter_num, it + 1), s.eq(n.num_fun_eval, 2), s.eq(n.num_grad_eval, 2)))]
      if mode == 'aux':
        cl.append(('aux at the new point', s.eq(o['aux']['e'], o['a3'])))
      return cl
    return claim
  for m, its in ((1, (0, 1, 2)), (2, (0, 1, 2, 3)), (3, (1, 4))) + (((4, (2, 4, 5, 6, 7)),) if T else ()):
    for it in its:
      for mode, step, ug in {(1, 2): (('aux', 'fun', True), ('', 'const', False)),
                             (2, 3): (('', 'const', True), ('vg', 'fun', True))}.get(
                                 (m, it), (('', 'const', True),)):
        ps.append(Problem(
            f'update_m{m}_it{it}' + ('_' + mode if mode else '') + ('_callable' if step == 'fun' else '')
            + ('' if ug else '_no_gamma'),
            dict(x=X, g=X, v=Sp(), p=Sp(), S_=dict(a=Sp(m, 1), b=Sp(m)), Y=dict(a=Sp(m, 1), b=Sp(m)), rho=Sp(m),
                 gamma=Sp(), t=Sp()),
            lambda m=m, it=it, mode=mode, step=step, ug=ug, **i: f_upd(m, it, mode, step, ug, **i),
            c_upd(m, it, mode, ug), ufs=[f], timeout=30, assume=(
                lambda s, i, m=m, it=it: s.And([s.xeq(i['rho'][k], 0) for k in range(it, m)]
                                               + [s.And(s.xeq(i['S_']['a'][k, 0], 0), s.xeq(i['S_']['b'][k], 0),
                                                        s.xeq(i['Y']['a'][k, 0], 0), s.xeq(i['Y']['b'][k], 0))
                                                  for k in range(it, m)])),
            bound=f'history {m}, iteration {it}, any history, dimension 2'))

  # line search: the step is the one the line search returns from the documented initial stepsize
  def f_ls(ls, init, x, g, v, p, gamma, t):
    kw = dict(maxls=1 if ls != 'backtracking' else 2, max_stepsize=0.75, min_stepsize=1e-3)
    sol = mk('aux', history_size=1, linesearch=ls, linesearch_init=init, increase_factor=1.25, **kw)
    st = sol.init_state(x, p)._replace(grad=g, value=v, gamma=gamma, stepsize=t)
    q, n = sol.update(x, st, p)
    d = tm(lambda e: -gamma * e, g)
    cls = dict(backtracking=jaxopt.BacktrackingLineSearch, zoom=jaxopt.ZoomLineSearch)[ls]
    t0 = dict(max=0.75, current=t, increase=jnp.where(t <= 1e-3, 0.75, t * 1.25))[init]
    eta, lst = cls(lambda x, p: (obj(x, p), {'e': x['a'] * 3}), has_aux=True, maxiter=kw['maxls'],
                   max_stepsize=0.75).run(t0, x, value=v, grad=g, descent_direction=d, fun_args=(p,))
    return dict(q=q, n=n, eta=eta, lq=lst.params, lv=lst.value, lg=lst.grad, failed=lst.failed, la=lst.aux,
                nf=1 + lst.num_fun_eval, ng=1 + lst.num_grad_eval, nl=lst.iter_num)

  def c_ls(s, i, o):
    n = o['n']
    return [('new point is the line search\'s', s.eq(o['q'], o['lq'])),
            ('stepsize', s.eq(sc(n.stepsize), sc(o['eta']))),
            ('value', s.eq(n.value, o['lv'])), ('gradient', s.eq(n.grad, o['lg'])),
            ('aux', s.eq(n.aux, o['la'])), ('failure flag', s.iff(sc(n.failed_linesearch), sc(o['failed']))),
            ('counters', s.And(s.eq(n.num_fun_eval, o['nf']), s.eq(n.num_grad_eval, o['ng']),
                               s.eq(n.num_linesearch_iter, o['nl'])))]
  li = dict(x=X, g=X, v=Sp(), p=Sp(), gamma=Sp(), t=Sp())
  for ls, init in (('backtracking', 'increase'), ('backtracking', 'max'), ('backtracking', 'current'),
                   ('zoom', 'increase')):
    ps.append(Problem(f'{ls}_{init}', li, lambda ls=ls, init=init, **i: f_ls(ls, init, **i), c_ls, ufs=[f],
                      timeout=30, assume=lambda s, i: s.xlt(0, sc(i['t'])),
                      bound='at most 2 line search steps, first iteration, any gradient and stepsize'))

  # whole runs against the dense recursion over the last m pairs
  def f_run(m, K, x, p):
    sol = jaxopt.LBFGS(obj, history_size=m, stepsize=0.5, maxiter=K, tol=-1.0, jit=False)
    q, st = sol.run(x, p)
    y, pairs, gamma = vec(x), [], 1.0
    _, g = vg(x, p)
    for k in range(K):
      y2 = y - 0.5 * dense(pairs[-m:] if m else [], gamma, 2) @ vec(g)
      _, g2 = vg(unvec(y2), p)
      s, r = y2 - y, vec(g2) - vec(g)
      sy, rr = s @ r, r @ r
      if m:
        pairs.append((s, r, jnp.where(sy == 0, 0, 1 / sy)))
        gamma = jnp.where(rr > 0, sy / rr, 1.0)
      y, g = y2, g2
    return vec(q), y, st.iter_num
  for m, K in ((0, 2), (2, 2)) + (((1, 2), (1, 3), (2, 3)) if T else ()):
    ps.append(Problem(f'run_m{m}_K{K}', dict(x=X, p=Sp()), lambda x, p, m=m, K=K: f_run(m, K, x, p),
                      lambda s, i, o, K=K: [('iterates follow the limited-memory BFGS recursion', s.eq(o[0], o[1])),
                                            ('all iterations', s.eq(o[2], K))],
                      ufs=[f], timeout=30, live=True, bound=f'history {m}, {K} iterations, dimension 2'))

  # start, warm start and stopping
  def f_init(x, p, S_, Y, rho, gamma, t, it, warm):
    sol = jaxopt.LBFGS(obj, history_size=2, max_stepsize=0.75)
    if warm:
      st0 = sol.init_state(x, p)._replace(s_history=S_, y_history=Y, rho_history=rho, gamma=gamma, stepsize=t,
                                          iter_num=it)
      st = sol.init_state(jaxopt.OptStep(x, st0), p)
    else:
      st = sol.init_state(x, p)
    v, g = vg(x, p)
    return st, v, g

  def c_init(warm):
    def claim(s, i, o):
      st, v, g = o
      cl = [('value and gradient', s.And(s.eq(st.value, v), s.eq(st.grad, g))), ('error', sc(st.error).pinf)]
      if warm:
        cl += [('state carried over', s.And(
            s.eq(st.s_history, i['S_']), s.eq(st.y_history, i['Y']), s.eq(st.rho_history, i['rho']),
            s.eq(st.gamma, i['gamma']), s.eq(st.stepsize, i['t']), s.eq(st.iter_num, i['it'])))]
      else:
        cl += [('empty history', s.And([s.eq(e, 0) for e in flat([st.s_history, st.y_history, st.rho_history])])),
               ('initial matrix and stepsize', s.And(s.eq(sc(st.gamma), 1), s.eq(sc(st.stepsize), R_(0.75)),
                                                     s.eq(st.iter_num, 0)))]
      return cl
    return claim
  h2 = dict(a=Sp(2, 1), b=Sp(2))
  for warm in (False, True):
    ps.append(Problem('warm_start' if warm else 'cold_start',
                      dict(x=X, p=Sp(), S_=h2, Y=h2, rho=Sp(2), gamma=Sp(), t=Sp(), it=Sp(kind='i', lo=0, hi=9)),
                      lambda warm=warm, **i: f_init(warm=warm, **i), c_init(warm), ufs=[f]))

  def f_stop(x, p, stop):
    sol = jaxopt.LBFGS(obj, history_size=1, linesearch='backtracking', maxls=1, maxiter=2,
                       stop_if_linesearch_fails=stop, tol=1e-3)
    q, st = sol.run(x, p)
    s0 = sol.init_state(x, p)
    q1, s1 = sol.update(x, s0, p)
    return dict(it=st.iter_num, fail1=s1.failed_linesearch, err1=s1.error)
  for stop in (True, False):
    ps.append(Problem(f'stop_if_linesearch_fails_{stop}', dict(x=X, p=Sp()),
                      lambda x, p, stop=stop: f_stop(x, p, stop),
                      lambda s, i, o, stop=stop: [
                          ('stops exactly when asked', s.implies(
                              s.gt(sc(o['err1']), R_(1e-3)), s.iff(
                                  s.eq(o['it'], 1), s.And(sc(o['fail1']), stop))))],
                      ufs=[f], bound='maxiter=2, one line search step', timeout=30))
  return ps
