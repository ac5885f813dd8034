"""Pytree algebra."""
from props.lib import *
from jaxopt import tree_util as tu
from jaxopt._src import tree_util as tu2

FUNCTIONS = ['tree_util.*']
ASSUMPTIONS = ['divisors are not zero']
vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def problems(tier):
  ps = []
  shapes = dict(
      array=lambda: Sp(3),
      dict=lambda: dict(a=Sp(2), b=Sp()),
      nested=lambda: (Sp(1), [dict(x=Sp(2, 1), y=Sp())], None),
      single=lambda: [Sp()])
  struct = lambda t: jax.tree_util.tree_structure(t)

  def arith(t, u, v, c):
    td = struct(t)
    o = dict(add=tu.tree_add(t, u), sub=tu.tree_sub(t, u), mul=tu.tree_mul(t, u), div=tu.tree_div(t, u), smul=tu.tree_scalar_mul(c, t),
             asm=tu.tree_add_scalar_mul(t, c, u), neg=tu.tree_negative(t), zeros=tu.tree_zeros_like(t), ones=tu.tree_ones_like(t),
             rec=tu2.tree_reciproqual(u), re=tu2.tree_real(t), im=tu2.tree_imag(t), cj=tu2.tree_conj(t))
    same = all(struct(a) == td and [l.shape for l in jax.tree_util.tree_leaves(a)] == [jnp.shape(l) for l in jax.tree_util.tree_leaves(t)]
               for a in o.values())
    a, b = vec(t), vec(u)
    w = dict(add=a + b, sub=a - b, mul=a * b, div=a / b, smul=c * a, asm=a + c * b, neg=-a, zeros=0 * a, ones=0 * a + 1, rec=1 / b,
             re=a, im=0 * a, cj=a)
    return {k: vec(x) for k, x in o.items()}, w, same

  def red(t, u, v, c):
    a, b = vec(t), vec(u)
    leaves = [vec([l]) for l in jax.tree_util.tree_leaves(t)]
    n2 = tu.tree_l2_norm(t)
    return (dict(vdot=tu.tree_vdot(t, u), rdot=tu2.tree_vdot_real(t, u), sum=tu.tree_sum(t), sq=tu.tree_l2_norm(t, squared=True),
                 inf=tu2.tree_inf_norm(t), mean=tu2.tree_mean(t)),
            dict(vdot=a @ b, rdot=a @ b, sum=jnp.sum(a), sq=a @ a, inf=jnp.max(jnp.abs(a)),
                 mean=sum(jnp.sum(l) / l.size for l in leaves) / len(leaves)), n2, a @ a,
            tu2.tree_single_dtype(t) == a.dtype)

  def where(t, u, v, c):
    k = jax.tree_util.tree_map(lambda x: x > 0, v)
    a, b, d = vec(t), vec(u), vec(v)
    full = lambda x: vec(tu2.tree_where(*x)) if not isinstance(tu2.tree_where(*x), jnp.ndarray) else jnp.ravel(tu2.tree_where(*x))
    return ([full((k, t, u)), full((k, t, 0.)), full((k, c, u)), full((c > 0, t, u))],
            [jnp.where(d > 0, a, b), jnp.where(d > 0, a, 0.), jnp.where(d > 0, c, b), jnp.where(c > 0, a, b)])

  for name, mk in shapes.items():
    ins = lambda: dict(t=mk(), u=mk(), v=mk(), c=Sp())
    ps.append(Problem('arithmetic_' + name, ins(), arith, lambda s, i, o: [
        (f'tree {k}', s.eq(o[0][k], o[1][k])) for k in o[0]] + [('structure kept', sc(o[2]))],
                      assume=lambda s, i: s.And([s.Not(s.xeq(a, 0)) for a in s.flat(i['u'])])))
    ps.append(Problem('reductions_' + name, ins(), red, lambda s, i, o: [
        (f'tree {k}', s.eq(sc(o[0][k]), sc(o[1][k]))) for k in o[0]] + [
            ('tree l2 norm', s.And(s.ge(sc(o[2]), 0), s.eq(sc(o[2]) * sc(o[2]), sc(o[3])))), ('dtype', sc(o[4]))]))
    ps.append(Problem('where_' + name, ins(), where, lambda s, i, o: [
        (f'tree where, form {k}', s.eq(a, b)) for k, (a, b) in enumerate(zip(*o))]))

  def batch(t, u, w):
    av = tu2.tree_average(t, w)
    m = lambda k: vec([l[k] for l in jax.tree_util.tree_leaves(t)])
    return vec(av), sum(w[k] * m(k) for k in range(3)), tu2.tree_gram(t), jnp.stack(
        [jnp.stack([m(a) @ m(b) for b in range(3)]) for a in range(3)])
  TT = lambda: dict(a=Sp(3, 2), b=Sp(3), c=Sp(3, 1, 2))
  ps.append(Problem('average_gram', dict(t=TT(), u=Sp(), w=Sp(3)), batch, lambda s, i, o: [
      ('average', s.eq(o[0], o[1])), ('Gram matrix', s.eq(o[2], o[3]))]))

  def dot(M, x):
    d = tu2.tree_dot(M, x)
    return d, dict(a=M['a'] @ x['a'], b=M['b'] @ x['b'])
  ps.append(Problem('dot', dict(M=dict(a=Sp(2, 1), b=Sp(1, 2)), x=dict(a=Sp(1), b=Sp(2))), dot, lambda s, i, o: [
      ('blockwise products', s.And([s.eq(o[0][k], o[1][k]) for k in 'ab']))]))

  # Derivatives through the norms used as stopping criteria and objectives.
  def der(t, u):
    g, d = jax.grad(lambda t: tu.tree_l2_norm(t, squared=True))(t), jax.jvp(lambda t: tu.tree_l2_norm(t), (t,), (u,))
    return vec(g), 2 * vec(t), d[0], d[1], vec(t) @ vec(u), vec(t) @ vec(t)
  ps.append(Problem('norm_derivatives', dict(t=shapes['dict'](), u=shapes['dict']()), der, lambda s, i, o: [
      ('gradient of the squared norm', s.eq(o[0], o[1])),
      ('directional derivative of the norm', s.implies(s.gt(sc(o[5]), 0), s.eq(sc(o[2]) * sc(o[3]), sc(o[4]))))]))
  return ps
