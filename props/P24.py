"""Fixed point iteration, Anderson acceleration and the Anderson wrapper."""
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['FixedPointIteration.{init_state,update,run,optimality_fun}',
             'AndersonAcceleration.{init_state,update,run,optimality_fun}', 'AndersonWrapper.{init_state,update,run}',
             'anderson.{anderson_step,minimize_residuals,update_history}']
ASSUMPTIONS = ['the fixed point function is an arbitrary function of a pytree with two leaves',
               'the residual Gram matrix in the state is positive semidefinite, ridge > 0',
               'linear systems are solved exactly (contract of jnp.linalg.solve)']
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])
unvec = lambda v: dict(a=v[:1], b=v[1])
RIDGE = 0.125


def problems(tier):
  T = tier == 'thorough'
  ps = []
  fa, fb = UF('fa', 3), UF('fb', 3)
  F = lambda x, p: dict(a=fa(x['a'][0], x['b'], p)[None], b=fb(x['a'][0], x['b'], p))
  Faux = lambda x, p: (F(x, p), {'e': x['a'] * 3})
  X = dict(a=Sp(1), b=Sp())
  HX = dict(a=Sp(2, 1), b=Sp(2))
  I = lambda lo=0, hi=5: Sp(kind='i', lo=lo, hi=hi)
  teq = lambda s, t, v: s.eq(np.concatenate([np.ravel(t['a']), np.ravel(t['b'])]), v)

  # Fixed point iteration.
  def f_fp(mode, x, p, it, nf):
    sol = jaxopt.FixedPointIteration(Faux if mode else F, has_aux=mode)
    st = sol.init_state(x, p)
    n0 = st
    q, n = sol.update(x, st._replace(iter_num=it, num_fun_eval=nf), p)
    w = F(x, p)
    d = vec(w) - vec(x)
    return dict(q=q, w=w, n=n, it1=it + 1, nf1=nf + 1, sq=d @ d, a3=x['a'] * 3, opt=sol.optimality_fun(x, p), d=d, n0=n0)
  for mode in (False, True):
    ps.append(Problem('picard' + ('_aux' if mode else ''), dict(x=X, p=Sp(), it=I(), nf=I()),
                      lambda mode=mode, **i: f_fp(mode, **i), lambda s, i, o, mode=mode: [
        ('next point is the image', s.eq(o['q'], o['w'])),
        ('error is the residual norm', s.And(s.ge(sc(o['n'].error), 0), s.eq(sc(o['n'].error) * sc(o['n'].error), sc(o['sq'])))),
        ('counters', s.And(s.eq(o['n'].iter_num, o['it1']), s.eq(o['n'].num_fun_eval, o['nf1']))),
        ('optimality_fun is the residual', teq(s, o['opt'], o['d'])),
        ('start', s.And(s.eq(o['n0'].iter_num, 0), sc(o['n0'].error).pinf, s.eq(o['n0'].num_fun_eval, 0)))] + (
            [('aux', s.eq(o['n'].aux['e'], o['a3']))] if mode else []), ufs=[fa, fb]))

  def f_fprun(x, p):
    sol = jaxopt.FixedPointIteration(Faux, has_aux=True, maxiter=3, tol=-1.0, jit=False)
    q, st = sol.run(x, p)
    y = F(F(x, p), p)
    return q, F(y, p), st.iter_num, st.aux, y['a'] * 3
  ps.append(Problem('picard_run', dict(x=X, p=Sp()), f_fprun, lambda s, i, o: [
      ('three applications', s.eq(o[0], o[1])), ('count', s.eq(o[2], 3)), ('aux', s.eq(o[3]['e'], o[4]))],
                    ufs=[fa, fb], live=True))

  # Anderson acceleration with two stored iterates.
  def mix(xs, rs, G, beta):
    """Residual-minimising affine combination, history of two."""
    a = (G[1, 1] + RIDGE - G[0, 1]) / (G[0, 0] + G[1, 1] + 2 * RIDGE - 2 * G[0, 1])
    P = jnp.stack([vec(jax.tree_util.tree_map(lambda l: l[k], xs)) for k in range(2)])
    R = jnp.stack([vec(jax.tree_util.tree_map(lambda l: l[k], rs)) for k in range(2)])
    return a * P[0] + (1 - a) * P[1] + beta * (a * R[0] + (1 - a) * R[1])

  def hist_ref(pos, xs, rs, x, r):
    put = lambda h, e: jax.tree_util.tree_map(lambda l, v: jnp.where(
        (jnp.arange(2) == pos).reshape((2,) + (1,) * (l.ndim - 1)), v[None], l), h, e)
    return put(xs, x), put(rs, r)

  def f_and(mode, freq, beta, x, p, it, nf, xs, rs, G):
    sol = jaxopt.AndersonAcceleration(Faux if mode else F, has_aux=mode, history_size=2, mixing_frequency=freq,
                                      beta=beta, ridge=RIDGE)
    st = sol.init_state(x, p)
    G = (G + G.T) / 2
    q, n = sol.update(x, st._replace(iter_num=it, num_fun_eval=nf, params_history=xs, residuals_history=rs,
                                     residual_gram=G), p)
    pos = it % 2
    used = jax.tree_util.tree_map(lambda l: jnp.where(pos == 0, l[0], l[1]), n.params_history)
    mixed = mix(xs, rs, G, beta)
    w = F(used, p)
    r = unvec(vec(w) - vec(used))
    hx, hr = hist_ref(pos, xs, rs, used, r)
    row = jnp.stack([vec(jax.tree_util.tree_map(lambda l: l[k], hr)) @ vec(r) for k in range(2)])
    G2 = jnp.where(pos == 0, jnp.array([[row[0], row[1]], [row[1], G[1, 1]]]), jnp.array([[G[0, 0], row[0]], [row[0], row[1]]]))
    accel = (it >= 2) & (it % freq == 0)
    return dict(q=q, n=n, used=vec(used), mixed=mixed, x=vec(x), w=w, hx=hx, hr=hr, G2=G2, accel=accel, it1=it + 1,
                nf1=nf + 1, sq=vec(r) @ vec(r), a3=used['a'] * 3)
  def c_and(mode):
    def claim(s, i, o):
      n = o['n']
      return [('plain iteration outside the mixing steps', s.implies(s.Not(sc(o['accel'])), s.eq(o['used'], o['x']))),
              ('mixing steps start from the residual-minimising combination', s.implies(sc(o['accel']), s.eq(o['used'], o['mixed']))),
              ('next point is the image', s.eq(o['q'], o['w'])),
              ('histories', s.And(s.eq(n.params_history, o['hx']), s.eq(n.residuals_history, o['hr']))),
              ('Gram matrix of the residuals', s.eq(n.residual_gram, o['G2'])),
              ('error is the residual norm', s.And(s.ge(sc(n.error), 0), s.eq(sc(n.error) * sc(n.error), sc(o['sq'])))),
              ('counters', s.And(s.eq(n.iter_num, o['it1']), s.eq(n.num_fun_eval, o['nf1'])))] + (
                  [('aux', s.eq(n.aux['e'], o['a3']))] if mode else [])
    return claim
  # Symmetrised Gram matrix positive semidefinite.
  def gpsd(s, i):
    G = i['G']
    return s.And([V.veq(G[0, 1].v, G[1, 0].v)] + psd2(G))
  def sample(r, nxt=None):
    return None
  for mode, freq, beta in ((False, 1, 1.0), (True, 2, 0.5), (False, 3, 0.25)):
    ps.append(Problem(f'anderson_every{freq}', dict(x=X, p=Sp(), it=I(0, 7), nf=I(), xs=HX, rs=HX, G=Sp(2, 2)),
                      lambda mode=mode, freq=freq, beta=beta, **i: f_and(mode, freq, beta, **i), c_and(mode), ufs=[fa, fb],
                      assume=gpsd, timeout=60, bound='history of 2, any state, iterations 0 to 7'))

  def f_init(x, p):
    sol = jaxopt.AndersonAcceleration(Faux, has_aux=True, history_size=3)
    return sol.init_state(x, p), sol.optimality_fun(x, p), vec(F(x, p)) - vec(x), x['a'] * 3
  ps.append(Problem('anderson_start', dict(x=X, p=Sp()), f_init, lambda s, i, o: [
      ('history filled with the start', s.And([s.And(s.eq(o[0].params_history['a'][k], i['x']['a']),
                                                    s.eq(o[0].params_history['b'][k], sc(i['x']['b']))) for k in range(3)])),
      ('no residuals', s.And([s.eq(a, 0) for a in flat((o[0].residuals_history, o[0].residual_gram))])),
      ('residual', teq(s, o[1], o[2])), ('aux and counters', s.And(
          s.eq(o[0].aux['e'], o[3]), s.eq(o[0].iter_num, 0), s.eq(o[0].num_fun_eval, 1), sc(o[0].error).pinf))], ufs=[fa, fb]))

  # run on an affine scalar map: two plain steps, then the secant step.
  def f_run(a, b, x):
    sol = jaxopt.AndersonAcceleration(lambda x: a * x + b, history_size=2, maxiter=3, tol=-1.0, ridge=RIDGE, jit=False)
    q, st = sol.run(x)
    f = lambda x: a * x + b
    x1 = f(x); r0 = x1 - x; r1 = f(x1) - x1
    al = (r1 * r1 + RIDGE - r0 * r1) / (r0 * r0 + r1 * r1 + 2 * RIDGE - 2 * r0 * r1)
    m = al * x + (1 - al) * x1 + (al * r0 + (1 - al) * r1)
    return q, f(m), st.iter_num
  ps.append(Problem('anderson_run', dict(a=Sp(), b=Sp(), x=Sp()), f_run, lambda s, i, o: [
      ('accelerated iterate', s.eq(o[0], o[1])), ('count', s.eq(o[2], 3))], live=True, timeout=60, bound='3 iterations'))

  # Wrapper around proximal gradient with momentum.
  f = UF('f', 3)
  obj = lambda x, p: f(x['a'][0], x['b'], p)
  def f_wrap(freq, x, p, it, xs, rs, G, vel, t, k):
    inner = jaxopt.ProximalGradient(obj, stepsize=0.5, acceleration=True)
    sol = jaxopt.AndersonWrapper(inner, history_size=2, mixing_frequency=freq, beta=0.5, ridge=RIDGE)
    st = sol.init_state(x, None, p)
    e0 = st.error
    s0 = st.solver_state._replace(velocity=vel, t=t, iter_num=k)
    G = (G + G.T) / 2
    q, n = sol.update(x, st._replace(iter_num=it, params_history=xs, residuals_history=rs, residual_gram=G,
                                     solver_state=s0), None, p)
    pos = it % 2
    used = jax.tree_util.tree_map(lambda l: jnp.where(pos == 0, l[0], l[1]), n.params_history)
    accel = (it >= 2) & (it % (2 if freq is None else freq) == 0)
    fresh = inner.init_state(used, None, p)
    pick = lambda a, b: jax.tree_util.tree_map(lambda u, v: jnp.where(accel, u, v), a, b)
    sv = pick(fresh, s0)
    w, m = inner.update(used, sv, None, p)
    r = unvec(vec(w) - vec(used))
    hx, hr = hist_ref(pos, xs, rs, used, r)
    return dict(q=q, n=n, used=vec(used), mixed=mix(xs, rs, G, 0.5), x=vec(x), w=w, m=m, hx=hx, hr=hr, accel=accel,
                it1=it + 1, e0=e0)
  def c_wrap(s, i, o):
    n = o['n']
    return [('the inner solver continues outside the mixing steps', s.implies(s.Not(sc(o['accel'])), s.eq(o['used'], o['x']))),
            ('mixing steps start from the combination', s.implies(sc(o['accel']), s.eq(o['used'], o['mixed']))),
            ('one update of the inner solver, restarted after mixing', s.And(
                s.eq(o['q'], o['w']), s.eq(n.solver_state, o['m']))),
            ('error of the inner solver', s.eq(sc(n.error), sc(o['m'].error))),
            ('histories', s.And(s.eq(n.params_history, o['hx']), s.eq(n.residuals_history, o['hr']))),
            ('count', s.eq(n.iter_num, o['it1']))]
  for freq in (None, 1):
    ps.append(Problem(f'wrapper_{freq}', dict(x=X, p=Sp(), it=I(0, 5), xs=HX, rs=HX, G=Sp(2, 2), vel=X, t=Sp(), k=I()),
                      lambda freq=freq, **i: f_wrap(freq, **i), c_wrap, ufs=[f],
                      assume=lambda s, i: s.And(gpsd(s, i), V.rle(R_(1), sc(i['t']))), timeout=60,
                      bound='history of 2, any state, iterations 0 to 5'))
  return ps
