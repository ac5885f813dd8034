"""Bounded loops: every unroll/jit variant computes the same thing."""
from props.lib import *
from jaxopt import loop
from symjax.uf import UF

FUNCTIONS = ['loop.while_loop (scan, lax and Python variants) and its derivatives']
ASSUMPTIONS = ['cond_fun and body_fun are arbitrary smooth functions of the state']


def problems(tier):
  T = tier == 'thorough'
  ps = []
  c, b, b2 = UF('cond', 2), UF('body', 2), UF('body2', 2)
  cond = lambda v: c(v['a'], v['b'][0]) > 0.0
  body = lambda v: {'a': b(v['a'], v['b'][0]), 'b': (b2(v['a'], v['b'][0]),)}

  def ref(v, n):
    go = True
    for _ in range(n):
      go = jnp.logical_and(go, cond(v))
      w = body(v)
      v = jax.tree_util.tree_map(lambda p, q: jnp.where(go, p, q), w, v)
    return v
  variants = [(False, True), (True, True), (True, False)]
  x = dict(a=Sp(), b=(Sp(),))
  for n in (0, 1, 2, 3) + ((4, 5) if T else ()):
    for unroll, jit in variants:
      ps.append(Problem(
          f'iterate_{n}_unroll{int(unroll)}_jit{int(jit)}', dict(x=x),
          lambda x, n=n, unroll=unroll, jit=jit: (
              loop.while_loop(cond, body, x, n, unroll=unroll, jit=jit), ref(x, n)),
          lambda s, i, o: [('equals the bounded loop', s.eq(o[0], o[1]))],
          ufs=[c, b, b2], live=not jit, bound=f'maxiter={n}, 2-leaf state'))
  for n in (1, 2) + ((3,) if T else ()):
    for jit in (True, False):
      def fn(x, t, n=n, jit=jit):
        f = lambda x: loop.while_loop(cond, body, x, n, unroll=True, jit=jit)
        y, dy = jax.jvp(f, (x,), (t,))
        z, dz = jax.jvp(lambda x: ref(x, n), (x,), (t,))
        _, vjp = jax.vjp(f, x)
        r = vjp(t)[0]
        _, vjp = jax.vjp(lambda x: ref(x, n), x)
        return dy, dz, r, vjp(t)[0]
      ps.append(Problem(
          f'derivative_{n}_jit{int(jit)}', dict(x=x, t=x), fn,
          lambda s, i, o: [('forward derivative', s.eq(o[0], o[1])),
                           ('reverse derivative', s.eq(o[2], o[3]))],
          ufs=[c, b, b2], live=not jit, bound=f'maxiter={n}'))

  def bad(x):
    try:
      loop.while_loop(cond, body, x, 3, unroll=False, jit=False)
    except ValueError:
      return jnp.asarray(1)
    return jnp.asarray(0)
  ps.append(Problem('refuses_no_unroll_no_jit', dict(x=x), bad,
                    lambda s, i, o: [('raises ValueError', s.eq(sc(o), 1))], ufs=[c, b, b2],
                    live=True, bound='maxiter=3'))

  # a traced (symbolic) iteration bound
  ps.append(Problem(
      'traced_maxiter', dict(x=x, m=Sp(kind='i', lo=0, hi=3)),
      lambda x, m: (loop.while_loop(cond, body, x, m, unroll=False, jit=True),
                    [ref(x, n) for n in range(4)]),
      lambda s, i, o: [('equals the bounded loop', s.And(
          [s.implies(s.eq(sc(i['m']), n), s.eq(o[0], o[1][n])) for n in range(4)]))],
      ufs=[c, b, b2], bound='maxiter <= 3'))
  return ps
