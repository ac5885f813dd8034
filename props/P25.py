"""Bisection."""
from props.lib import *
import jaxopt
from symjax.uf import UF

FUNCTIONS = ['Bisection.{init_state,update,run}']
ASSUMPTIONS = ['the function is an arbitrary function of one variable and a parameter']


def problems(tier):
  T = tier == 'thorough'
  ps = []
  f = UF('f', 2)
  F = lambda x, p: f(x, p)
  Faux = lambda x, p: (f(x, p), {'e': 3 * x})
  I = Sp(kind='i', lo=0, hi=50)

  def f_upd(aux, lo, hi, sg, p, it, nf):
    sol = jaxopt.Bisection(Faux if aux else F, -1.0, 2.0, check_bracket=False, has_aux=aux)
    st = sol.init_state(None, p)._replace(iter_num=it, num_fun_eval=nf, low=lo, high=hi, sign=sg)
    x, n = sol.update(None, st, p)
    m = 0.5 * (lo + hi)
    v = F(m, p)
    return dict(x=x, n=n, m=m, v=v, it1=it + 1, nf1=nf + 1, a3=3 * m, fl=sg * F(lo, p), fh=sg * F(hi, p),
                nl=sg * F(n.low, p), nh=sg * F(n.high, p), sv=sg * v)

  def c_upd(aux):
    def claim(s, i, o):
      n, lo, hi = o['n'], sc(i['lo']), sc(i['hi'])
      m, sv = sc(o['m']), sc(o['sv'])
      return [('midpoint', s.eq(sc(o['x']), m)), ('value there', s.And(
          s.eq(sc(n.value), sc(o['v'])), s.eq(sc(n.error), s.abs(sc(o['v']))))),
              ('keeps the half with the sign change', s.And(
                  s.implies(V.rlt(V.ZERO, sv), s.And(s.eq(sc(n.low), lo), s.eq(sc(n.high), m))),
                  s.implies(V.rle(sv, V.ZERO), s.And(s.eq(sc(n.low), m), s.eq(sc(n.high), hi))))),
              ('sign change stays bracketed', s.implies(s.And(V.rle(sc(o['fl']), V.ZERO), V.rle(V.ZERO, sc(o['fh']))),
                                                        s.And(s.le(sc(o['nl']), 0), s.ge(sc(o['nh']), 0)))),
              ('counters', s.And(s.eq(n.iter_num, o['it1']), s.eq(n.num_fun_eval, o['nf1']), s.eq(n.sign, i['sg'])))] + (
                  [('aux', s.eq(n.aux['e'], o['a3']))] if aux else [])
    return claim
  for aux in (False, True):
    ps.append(Problem('update' + ('_aux' if aux else ''),
                      dict(lo=Sp(), hi=Sp(), sg=Sp(kind='i', lo=-1, hi=1), p=Sp(), it=I, nf=I),
                      lambda aux=aux, **i: f_upd(aux, **i), c_upd(aux), ufs=[f], timeout=30,
                      assume=lambda s, i: s.And(V.rle(sc(i['lo']), sc(i['hi'])), s.Not(s.eq(i['sg'], 0))),
                      bound='any bracket'))

  def f_init(aux, p):
    sol = jaxopt.Bisection(Faux if aux else F, -1.0, 2.0, check_bracket=False, has_aux=aux)
    return sol.init_state(None, p), F(jnp.asarray(-1.0), p), F(jnp.asarray(2.0), p)
  def c_init(s, i, o):
    n, a, b = o[0], sc(o[1]), sc(o[2])
    z = V.ZERO
    up = s.And(V.rle(a, z), V.rle(z, b))
    down = s.And(V.rle(z, a), V.rle(b, z))
    return [('increasing bracket', s.implies(s.And(up, s.Not(down)), s.eq(n.sign, 1))),
            ('decreasing bracket', s.implies(s.And(down, s.Not(up)), s.eq(n.sign, -1))),
            ('bracketed', s.implies(s.And(up, down), s.Not(s.eq(n.sign, 0)))),
            ('no bracket', s.implies(s.Not(s.Or([up, down])), s.eq(n.sign, 0))),
            ('interval and counters', s.And(s.eq(sc(n.low), -1), s.eq(sc(n.high), 2), s.eq(n.iter_num, 0),
                                            s.eq(n.num_fun_eval, 2), sc(n.error).pinf))]
  for aux in (False, True):
    ps.append(Problem('start' + ('_aux' if aux else ''), dict(p=Sp()), lambda p, aux=aux: f_init(aux, p), c_init, ufs=[f]))

  # check_bracket raises exactly when there is no sign change.
  def f_check(p):
    sol = jaxopt.Bisection(F, -1.0, 2.0, jit=False)
    a, b = F(jnp.asarray(-1.0), p), F(jnp.asarray(2.0), p)
    try:
      sol.init_state(None, p)
      ok = 1
    except ValueError:
      ok = 0
    return jnp.asarray(ok), a, b
  ps.append(Problem('bracket_checked', dict(p=Sp()), f_check, lambda s, i, o: [
      ('raises exactly without a sign change', s.iff(s.eq(o[0], 1), s.Or([
          s.And(V.rle(sc(o[1]), V.ZERO), V.rle(V.ZERO, sc(o[2]))),
          s.And(V.rle(V.ZERO, sc(o[1])), V.rle(sc(o[2]), V.ZERO))])))], ufs=[f], live=True))

  # run on any function with a sign change: width and bracket after k steps.
  def f_run(k, tol, p):
    sol = jaxopt.Bisection(F, -1.0, 2.0, check_bracket=False, maxiter=k, tol=tol, jit=False)
    x, st = sol.run(None, p)
    return dict(x=x, st=st, fa=F(jnp.asarray(-1.0), p), fb=F(jnp.asarray(2.0), p), fl=F(st.low, p), fh=F(st.high, p), fx=F(x, p))
  def c_run(k, tol):
    def claim(s, i, o):
      st, z = o['st'], V.ZERO
      fa, fb, fl, fh = (sc(o[n]) for n in ('fa', 'fb', 'fl', 'fh'))
      up = s.And(V.rlt(fa, z), V.rle(z, fb))
      down = s.And(V.rlt(z, fa), V.rle(fb, z))
      cl = [('bracket kept', s.And(s.implies(up, s.And(s.le(fl, 0), s.ge(fh, 0))),
                                   s.implies(down, s.And(s.ge(fl, 0), s.le(fh, 0))))),
            ('the result is an end of the last bracket', s.Or([s.eq(sc(o['x']), sc(st.low)), s.eq(sc(o['x']), sc(st.high))])),
            ('error is the absolute value at the result', s.eq(sc(st.error), s.abs(sc(o['fx'])))),
            ('halved each time', s.Or([s.And(s.eq(st.iter_num, j), s.eq(sc(st.high) - sc(st.low), R_(3.0 / 2 ** j)))
                                       for j in range(1, k + 1)])),
            ('stops at the tolerance or the limit', s.Or([s.eq(st.iter_num, k), s.le(sc(st.error), tol)]))]
      return cl
    return claim
  for k, tol in ((3, 0.0), (3, 0.25)) + (((5, 0.0),) if T else ()):
    ps.append(Problem(f'run_{k}_{tol}', dict(p=Sp()), lambda p, k=k, tol=tol: f_run(k, tol, p), c_run(k, tol), ufs=[f],
                      live=True, timeout=30, max_paths=200, bound=f'{k} iterations'))

  # Linear functions: distance to the root, and its derivative.
  def f_lin(a, r):
    sol = jaxopt.Bisection(lambda x, a, r: a * (x - r), -1.0, 2.0, check_bracket=False, maxiter=4, tol=0.0, jit=False)
    return sol.run(None, a, r)
  ps.append(Problem('linear', dict(a=Sp(), r=Sp()), lambda a, r: f_lin(a, r).params, lambda s, i, o: [
      ('within the last half width of the root', s.le(s.abs(sc(o) - sc(i['r'])), R_(3.0 / 16)))],
      assume=lambda s, i: s.And(s.Not(s.xeq(sc(i['a']), 0)), V.rle(R_(-1), sc(i['r'])), V.rle(sc(i['r']), R_(2))),
      live=True, timeout=30, max_paths=200, bound='4 iterations'))

  def f_grad(aux, p):
    g = lambda x, p: x * x * x + x - p
    fun = (lambda x, p: (g(x, p), x)) if aux else g
    sol = jaxopt.Bisection(fun, -1.0, 2.0, check_bracket=False, maxiter=2, tol=0.0, has_aux=aux)
    x, st = sol.run(None, p)
    return jax.grad(lambda p: sol.run(None, p).params)(p), 1 / (3 * x * x + 1)
  for aux in (False, True):
    ps.append(Problem('derivative' + ('_aux' if aux else ''), dict(p=Sp()), lambda p, aux=aux: f_grad(aux, p),
                      lambda s, i, o: [('implicit derivative at the result', s.eq(sc(o[0]), sc(o[1])))], timeout=40,
                      bound='2 iterations', required=False))
  return ps
