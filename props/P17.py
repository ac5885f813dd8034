"""Nonlinear conjugate gradient steps."""
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['NonlinearCG.{init_state,update,run,optimality_fun}']
ASSUMPTIONS = ['the objective is an arbitrary smooth function of a pytree with two leaves']
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
unvec = lambda v: dict(a=v[:1], b=v[1])
METHODS = ('polak-ribiere', 'fletcher-reeves', 'hestenes-stiefel')


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f = UF('f', 3)
  obj = lambda x, p: f(x['a'][0], x['b'], p)
  vg = jax.value_and_grad(obj)
  obja = lambda x, p: (obj(x, p), {'e': x['a'] * 3})
  X = dict(a=Sp(1), b=Sp())

  def mk(mode, **k):
    if mode == 'aux':
      return jaxopt.NonlinearCG(obja, has_aux=True, **k)
    if mode == 'vg':
      return jaxopt.NonlinearCG(vg, value_and_grad=True, **k)
    return jaxopt.NonlinearCG(obj, **k)

  def f_upd(mode, method, ls, init, maxls, x, g, v, p, d, t, it, nf, ng, nl):
    kw = dict(max_stepsize=0.75, min_stepsize=1e-3)
    sol = mk(mode, method=method, linesearch=ls, linesearch_init=init, increase_factor=1.25, maxls=maxls, **kw)
    st = sol.init_state(x, p)
    st = st._replace(iter_num=it, grad=g, value=v, descent_direction=d, stepsize=t, num_fun_eval=nf,
                     num_grad_eval=ng, num_linesearch_iter=nl)
    q, n = sol.update(x, st, p)
    cls = {'backtracking': jaxopt.BacktrackingLineSearch, 'zoom': jaxopt.ZoomLineSearch,
           'hager-zhang': jaxopt.HagerZhangLineSearch}[ls]
    t0 = dict(max=0.75, current=t, increase=jnp.where(t <= 1e-3, 0.75, t * 1.25))[init]
    eta, lst = cls(obja, has_aux=True, maxiter=maxls, max_stepsize=0.75).run(
        t0, x, value=v, grad=g, descent_direction=None if ls == 'backtracking' else d, fun_args=(p,))
    # The formulas, at the point the solver moved to.
    G, H, D = vec(g), vec(n.grad), vec(d)
    floor = lambda a: jnp.maximum(a, 1e-6)
    beta = {'polak-ribiere': lambda: (H - G) @ H / floor(G @ G),
            'fletcher-reeves': lambda: H @ H / floor(G @ G),
            'hestenes-stiefel': lambda: (H - G) @ H / floor((H - G) @ D)}[method]()
    want = -H + jnp.maximum(beta, 0.0) * D
    return dict(q=q, n=n, eta=eta, lst=lst, want=want, d=vec(n.descent_direction), sq=H @ H, it1=it + 1,
                nf=nf + lst.num_fun_eval, ng=ng + lst.num_grad_eval, nl=nl + lst.iter_num)

  def c_upd(mode):
    def claim(s, i, o):
      n, l = o['n'], o['lst']
      cl = [('new point, value, gradient and stepsize of the line search', s.And(
          s.eq(o['q'], l.params), s.eq(n.value, l.value), s.eq(n.grad, l.grad), s.eq(sc(n.stepsize), sc(o['eta'])))),
            ('conjugate direction', s.eq(o['d'], o['want'])),
            ('error is the norm of the new gradient', s.And(
                s.ge(sc(n.error), 0), s.eq(sc(n.error) * sc(n.error), sc(o['sq'])))),
            ('counters', s.And(s.eq(n.iter_num, o['it1']), s.eq(n.num_fun_eval, o['nf']),
                               s.eq(n.num_grad_eval, o['ng']), s.eq(n.num_linesearch_iter, o['nl'])))]
      if mode == 'aux':
        cl.append(('aux', s.eq(n.aux, l.aux)))
      return cl
    return claim
  I = lambda: Sp(kind='i', lo=0, hi=50)
  for mode, method, ls, init, maxls in (
      [('aux', m, 'backtracking', 'increase', 2) for m in METHODS] +
      [('aux', 'polak-ribiere', 'zoom', 'increase', 1), ('', 'fletcher-reeves', 'zoom', 'max', 1),
       ('vg', 'hestenes-stiefel', 'zoom', 'current', 1),
       ('vg', 'fletcher-reeves', 'backtracking', 'max', 2), ('', 'polak-ribiere', 'backtracking', 'current', 2)]):
    ps.append(Problem(f'{method}_{ls}_{init}', dict(x=X, g=X, v=Sp(), p=Sp(), d=X, t=Sp(), it=I(), nf=I(), ng=I(), nl=I()),
                      lambda mode=mode, method=method, ls=ls, init=init, maxls=maxls, **i: f_upd(
                          mode, method, ls, init, maxls, **i), c_upd(mode), ufs=[f], timeout=30,
                      assume=lambda s, i: s.xlt(0, sc(i['t'])),
                      bound=f'at most {maxls} line search steps, any state'))

  def f_init(mode, x, p):
    sol = mk(mode, max_stepsize=0.75)
    return sol.init_state(x, p), vg(x, p), -vec(vg(x, p)[1]), x['a'] * 3
  for mode in ('', 'aux', 'vg'):
    ps.append(Problem('cold_start' + mode, dict(x=X, p=Sp()), lambda x, p, mode=mode: f_init(mode, x, p),
                      lambda s, i, o, mode=mode: [
        ('value and gradient', s.And(s.eq(o[0].value, o[1][0]), s.eq(o[0].grad, o[1][1]))),
        ('first direction is steepest descent', s.eq(np.concatenate(
            [o[0].descent_direction['a'], [sc(o[0].descent_direction['b'])]]), o[2])),
        ('first stepsize and counters', s.And(
            s.eq(sc(o[0].stepsize), R_(0.75)), s.eq(o[0].iter_num, 0), sc(o[0].error).pinf,
            s.eq(o[0].num_fun_eval, 1), s.eq(o[0].num_grad_eval, 1)))] + (
                [('aux', s.eq(o[0].aux['e'], o[3]))] if mode == 'aux' else []), ufs=[f]))

  # The first zoom step is along -grad and later ones along the stored direction.
  def f_run(method, x, p):
    k = dict(method=method, linesearch='backtracking', maxls=1, maxiter=2, tol=-1.0, jit=False, max_stepsize=0.75)
    sol = jaxopt.NonlinearCG(obj, **k)
    q, st = sol.run(x, p)
    q1, s1 = sol.update(x, sol.init_state(x, p), p)
    q2, s2 = sol.update(q1, s1, p)
    return q, st, q2, s2
  ps.append(Problem('run_2', dict(x=X, p=Sp()), lambda x, p: f_run('polak-ribiere', x, p), lambda s, i, o: [
      ('run is two updates', s.And(s.eq(o[0], o[2]), s.eq(o[1], o[3])))], ufs=[f], live=True, timeout=30,
      bound='2 iterations'))

  def f_opt(mode, x, p):
    return mk(mode).optimality_fun(x, p), vg(x, p)[1]
  for mode in ('', 'aux', 'vg'):
    ps.append(Problem('optimality' + mode, dict(x=X, p=Sp()), lambda x, p, mode=mode: f_opt(mode, x, p),
                      lambda s, i, o: [('gradient', s.eq(o[0], o[1]))], ufs=[f]))
  return ps
