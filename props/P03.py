"""Losses equal their definitions, and so do their gradients."""
from props.lib import *
import z3
from jaxopt import loss as L
from jaxopt import projection as pj

FUNCTIONS = ['huber_loss', 'binary_logistic_loss', 'binary_sparsemax_loss', 'sparse_plus',
             'sparse_sigmoid', 'binary_hinge_loss', 'binary_perceptron_loss',
             'multiclass_logistic_loss', 'multiclass_sparsemax_loss', 'multiclass_hinge_loss',
             'multiclass_perceptron_loss', 'make_fenchel_young_loss']
ASSUMPTIONS = ['exp and log are an uninterpreted inverse pair with exp(x)>0, monotonicity, '
               'exp(a+b)=exp(a)exp(b), exp(x)>=1+x',
               'labels in range']


def mul_axioms(s, ctx, i, o):
  """x_a + x_b = x_c iff exp x_a * exp x_b = exp x_c on all triples in use."""
  t = ctx._exp
  for a in range(len(t)):
    for b in range(a, len(t)):
      for c in range(len(t)):
        if c in (a, b):
          continue
        (xa, ya), (xb, yb), (xc, yc) = t[a], t[b], t[c]
        ctx.define([], (V.zr(xa) + V.zr(xb) == V.zr(xc)) == (V.zr(ya) * V.zr(yb) == V.zr(yc)))


def need(s, *ts):
  """Creates the exp/log terms of the reference before the axioms."""
  return ts


def splus(s, x):
  return s.ite(s.xle(x, -1), R_(0), s.ite(s.xle(1, x), x, (x + 1) * (x + 1) * R_(.25)))


def ssig(s, x):
  return s.ite(s.xle(x, -1), R_(0), s.ite(s.xle(1, x), R_(1), (x + 1) * R_(.5)))


def pick(s, arr, lab):
  r = arr[0]
  for k in range(1, len(arr)):
    r = s.ite(V.ieq(lab, k), arr[k], r)
  return r


def problems(tier):
  T = tier == 'thorough'
  ps = []

  def add(name, inputs, fn, claim, assume=None, **kw):
    ps.append(Problem(name, inputs, fn, claim, assume=assume, **kw))

  lab2 = Sp(kind='i', lo=0, hi=1)
  g = lambda f: (lambda y, z, *a: (f(y, z, *a), jax.grad(f, argnums=1)(y, z, *a)))

  def hub(s, i, o):
    r, d = sc(i['z']) - sc(i['t']), sc(i['d'])
    a = s.abs(r)
    return [('value', s.eq(o[0][0], s.ite(s.xle(a, d), r * r * R_(.5), d * (a - d * R_(.5))))),
            ('gradient', s.eq(o[0][1], s.max(s.min(r, d), -d))),
            ('default delta', s.eq(o[1], s.ite(s.xle(a, 1), r * r * R_(.5), a - R_(.5))))]
  add('huber', dict(t=Sp(), z=Sp(), d=Sp()),
      lambda t, z, d: (g(L.huber_loss)(t, z, d), L.huber_loss(t, z)), hub,
      lambda s, i: [V.rlt(V.ZERO, sc(i['d']))], sample=lambda r: dict(d=np.array(r.uniform(.2, 2))),
      bound='scalar')

  def blog(s, i, o):
    y, z = sc(i['y']), sc(i['z'])
    e = s.exp(z)
    ref = s.log(e + 1) - s.ite(V.ieq(y, 1), z, R_(0))
    if s.ctx is not None and not getattr(s.ctx, '_mul', False):
      s.ctx._mul = True
      mul_axioms(s, s.ctx, i, o)
    return [('value', s.eq(o[0], ref)),
            ('gradient', s.eq(o[1] * (e + 1), e - s.ite(V.ieq(y, 1), e + 1, R_(0))))]
  add('binary_logistic', dict(y=lab2, z=Sp()), g(L.binary_logistic_loss), blog,
      fork_select=True, bound='scalar', timeout=60)
  add('sparse_plus', dict(z=Sp()), lambda z: (L.sparse_plus(z), L.sparse_sigmoid(z),
                                              jax.grad(L.sparse_plus)(z)),
      lambda s, i, o: [('value', s.eq(o[0], splus(s, sc(i['z'])))),
                       ('sigmoid', s.eq(o[1], ssig(s, sc(i['z'])))),
                       ('gradient', s.eq(o[2], ssig(s, sc(i['z']))))], bound='scalar')

  def bsp(s, i, o):
    y, z = sc(i['y']), sc(i['z'])
    pos = V.ieq(y, 1)
    return [('value', s.eq(o[0], splus(s, s.ite(pos, -z, z)))),
            ('gradient', s.eq(o[1], ssig(s, z) - s.ite(pos, R_(1), R_(0))))]
  add('binary_sparsemax', dict(y=lab2, z=Sp()), g(L.binary_sparsemax_loss), bsp, bound='scalar')

  def bhi(c):
    def f(s, i, o):
      z = s.ite(V.ieq(sc(i['y']), 1), sc(i['z']), -sc(i['z']))
      d = s.ite(V.ieq(sc(i['y']), 1), R_(-1), R_(1))
      return [('value', s.eq(o[0], s.max(R_(0), R_(c) - z))),
              ('gradient', s.And(s.implies(s.gt(R_(c) - z, 0), s.eq(o[1], d)),
                                 s.implies(s.lt(R_(c) - z, 0), s.eq(o[1], 0))))]
    return f
  add('binary_hinge', dict(y=lab2, z=Sp()), g(L.binary_hinge_loss), bhi(1), bound='scalar')
  add('binary_perceptron', dict(y=lab2, z=Sp()), g(L.binary_perceptron_loss), bhi(0), bound='scalar')

  for n in (2, 3):
    lab = Sp(kind='i', lo=0, hi=n - 1)

    def mlog(s, i, o, n=n):
      y, z = sc(i['y']), i['z']
      es = [s.exp(e) for e in z]
      tot = s.sum(np.array(es, dtype=object))
      ref = s.log(tot) - pick(s, z, y)
      if s.ctx is not None and not getattr(s.ctx, '_mul', False):
        s.ctx._mul = True
        mul_axioms(s, s.ctx, i, o)
      return [('value', s.eq(o[0], ref)),
              ('gradient', s.And([s.eq(o[1][k] * tot, es[k] - s.ite(V.ieq(y, k), tot, R_(0)))
                                  for k in range(n)]))]
    if n == 2 or T:
      add(f'multiclass_logistic_{n}', dict(y=lab, z=Sp(n)), g(L.multiclass_logistic_loss), mlog,
          fork_select=True, bound=f'{n} classes', timeout=120)

    def hinge(c):
      def f(s, i, o, n=n):
        y, z = sc(i['y']), i['z']
        m = None
        cand = [z[k] + s.ite(V.ieq(y, k), R_(0), R_(c)) for k in range(n)]
        for q in cand:
          m = q if m is None else s.max(m, q)
        strict = [s.And([s.gt(cand[k], cand[j]) for j in range(n) if j != k]) for k in range(n)]
        return [('value', s.eq(o[0], m - pick(s, z, y))),
                ('gradient', s.And([s.implies(strict[k], s.And(
                    [s.eq(o[1][j], R_(1 if j == k else 0) - s.ite(V.ieq(y, j), R_(1), R_(0)))
                     for j in range(n)])) for k in range(n)]))]
      return f
    add(f'multiclass_hinge_{n}', dict(y=lab, z=Sp(n)), g(L.multiclass_hinge_loss), hinge(1),
        bound=f'{n} classes')
    add(f'multiclass_perceptron_{n}', dict(y=lab, z=Sp(n)), g(L.multiclass_perceptron_loss),
        hinge(0), bound=f'{n} classes')

    def mspar(s, i, o, n=n):
      y, z, q = sc(i['y']), i['z'], i['q']
      (l, gr), p = o
      val = lambda w: s.dot(w, z) + (R_(1) - s.sq(w)) * R_(.5) - pick(s, z, y)
      simplex = s.And([s.xle(0, e) for e in q] + [s.xeq(s.sum(q), 1)])
      return [('is the conjugate at the sparsemax', s.eq(l, val(p))),
              ('upper bounds every distribution', s.implies(simplex, s.ge(l, val(q)))),
              ('nonnegative', s.ge(l, 0)),
              ('gradient', s.And([s.eq(gr[k], p[k] - s.ite(V.ieq(y, k), R_(1), R_(0)))
                                  for k in range(n)]))]
    if n == 2 or T:
      add(f'multiclass_sparsemax_{n}', dict(y=lab, z=Sp(n), q=Sp(n)),
          lambda y, z: (g(L.multiclass_sparsemax_loss)(y, z), pj.projection_simplex(z)), mspar,
          ghost=('q',), fork_select=True, bound=f'{n} classes', timeout=120)
  from symjax.uf import UF
  F = UF('F', 3)

  def fyfn(y, z, t):
    fl = L.make_fenchel_young_loss(lambda sc_, extra: F(sc_, extra))
    return (fl(y, z, t), jax.grad(fl, argnums=1)(y, z, t), F(z, t), jax.grad(lambda q: F(q, t))(z),
            L.make_fenchel_young_loss(lambda sc_, extra=None: F(sc_, extra))(y, z, extra=t))
  add('fenchel_young', dict(y=Sp(2), z=Sp(2), t=Sp(1)), fyfn,
      lambda s, i, o: [('value', s.eq(o[0], o[2] - s.dot(i['y'], i['z']))),
                       ('keyword arguments', s.eq(o[4], o[2] - s.dot(i['y'], i['z']))),
                       ('gradient', s.eq(o[1], o[3] - i['y']))], ufs=[F], bound='n=2')
  add('batched', dict(y=Sp(2, kind='i', lo=0, hi=1), z=Sp(2, 2)),
      lambda y, z: (jax.vmap(L.multiclass_hinge_loss)(y, z),
                    jax.vmap(L.multiclass_sparsemax_loss)(y, z),
                    jnp.stack([L.multiclass_hinge_loss(y[k], z[k]) for k in range(2)]),
                    jnp.stack([L.multiclass_sparsemax_loss(y[k], z[k]) for k in range(2)])),
      lambda s, i, o: [('vmap hinge', s.eq(o[0], o[2])), ('vmap sparsemax', s.eq(o[1], o[3]))],
      bound='batch 2, 2 classes', timeout=120)
  return ps
