"""Proximal operators minimise their documented objective."""
from props.lib import *
from jaxopt import prox, projection as pj

FUNCTIONS = ['prox_none', 'prox_lasso', 'prox_non_negative_lasso', 'prox_elastic_net',
             'prox_group_lasso', 'prox_ridge', 'prox_non_negative_ridge',
             'make_prox_from_projection']
ASSUMPTIONS = ['regularisation strengths and scaling >= 0',
               'prox_ridge / prox_non_negative_ridge: the penalty is scaling*l2reg*0.5*||y||^2 '
               '(the factor 1/2 of the implementation and its tests; the docstrings omit it)']


def soft(s, x, lam, p):
  """0 in p - x + lam * d|p|."""
  out = []
  for a, l, b in zip(x, lam, p):
    out += [s.implies(s.gt(b, 0), s.eq(a - b, l)), s.implies(s.lt(b, 0), s.eq(a - b, -l)),
            s.le(s.abs(a - b), l)]
  return s.And(out)


def nnsoft(s, x, lam, p):
  out = [s.ge(p, 0)]
  for a, l, b in zip(x, lam, p):
    out += [s.implies(s.gt(b, 0), s.eq(a - b, l)), s.le(a - b, l)]
  return s.And(out)


def enet(s, x, lam, gam, p):
  out = []
  for a, l, g, b in zip(x, lam, gam, p):
    r = a - b - l * g * b
    out += [s.implies(s.gt(b, 0), s.eq(r, l)), s.implies(s.lt(b, 0), s.eq(r, -l)),
            s.le(s.abs(r), l)]
  return s.And(out)


def group(s, x, c, p):
  """p = t x, 0 <= t; p = 0 iff ||x|| <= c; else ||x - p|| = c."""
  small = s.xle(s.sq(x), c * c)
  return [('zero block', s.implies(small, s.eq(p, 0))),
          ('shrinkage', s.implies(s.Not(small), s.eq(s.sq(x - p), c * c))),
          ('direction', s.And(parallel(s, p, x), s.ge(s.dot(p, x), 0),
                              s.le(s.sq(p), s.sq(x))))]


def problems(tier):
  ps = []

  def add(name, inputs, fn, claim, assume=None, **kw):
    ps.append(Problem(name, inputs, fn, claim, assume=assume, **kw))

  tree = dict(a=Sp(2), b=(Sp(), Sp(1, 2)))
  nn = lambda *ks: (lambda s, i: [V.rle(V.ZERO, e) for k in ks for e in flat(i[k])])
  smp = lambda *ks: (lambda r: {k: np.array(r.uniform(.1, 2)) for k in ks})
  for nm, sp, n in (('vec', Sp(3), 3), ('tree', tree, 5)):
    add('none_' + nm, dict(x=sp, t=Sp()),
        lambda x, t: (prox.prox_none(x), prox.prox_none(x, None, t)),
        lambda s, i, o: [('identity', s.And(s.eq(o[0], i['x']), s.eq(o[1], i['x'])))],
        bound=f'{n} coordinates')
    add('lasso_scalar_' + nm, dict(x=sp, l=Sp(), t=Sp()),
        lambda x, l, t: prox.prox_lasso(x, l, t),
        lambda s, i, o: [('optimal', soft(s, flat(i['x']), [sc(i['l']) * sc(i['t'])] * 9,
                                          flat(o)))], nn('l', 't'), bound=f'{n} coordinates')
    add('lasso_tree_' + nm, dict(x=sp, l=sp, t=Sp()),
        lambda x, l, t: prox.prox_lasso(x, l, t),
        lambda s, i, o: [('optimal', soft(s, flat(i['x']), flat(i['l']) * sc(i['t']), flat(o)))],
        nn('l', 't'), bound=f'{n} coordinates')
    add('lasso_default_' + nm, dict(x=sp, t=Sp(), l=Sp()),
        lambda x, t, l: (prox.prox_lasso(x), prox.prox_lasso(x, None, t), prox.prox_lasso(x, l)),
        lambda s, i, o: [('optimal', soft(s, flat(i['x']), [R_(1)] * 9, flat(o[0]))),
                         ('optimal l1reg=None', soft(s, flat(i['x']), [sc(i['t'])] * 9, flat(o[1]))),
                         ('optimal scaling default', soft(s, flat(i['x']), [sc(i['l'])] * 9, flat(o[2])))],
        nn('t', 'l'), bound=f'{n} coordinates')
    add('nn_lasso_' + nm, dict(x=sp, l=Sp(), t=Sp()),
        lambda x, l, t: (prox.prox_non_negative_lasso(x, l, t),
                         prox.prox_non_negative_lasso(x, None, t),
                         prox.prox_non_negative_lasso(x)),
        lambda s, i, o: [
            ('optimal', nnsoft(s, flat(i['x']), [sc(i['l']) * sc(i['t'])] * 9, flat(o[0]))),
            ('optimal l1reg=None', nnsoft(s, flat(i['x']), [sc(i['t'])] * 9, flat(o[1]))),
            ('optimal default', nnsoft(s, flat(i['x']), [R_(1)] * 9, flat(o[2])))],
        nn('l', 't'), bound=f'{n} coordinates')
    add('elastic_net_tree_' + nm, dict(x=sp, l=sp, g=sp, t=Sp()),
        lambda x, l, g, t: prox.prox_elastic_net(x, (l, g), t),
        lambda s, i, o: [('optimal', enet(s, flat(i['x']), flat(i['l']) * sc(i['t']),
                                          flat(i['g']), flat(o)))], nn('l', 'g', 't'),
        sample=lambda r, sp=sp: {k: jax.tree_util.tree_map(
            lambda q: np.full(q.shape, r.uniform(.1, 2)), sp, is_leaf=lambda z: isinstance(z, Sp))
            for k in ('l', 'g')} | dict(t=np.array(r.uniform(.1, 2))),
        bound=f'{n} coordinates', timeout=120)
    add('elastic_net_default_' + nm, dict(x=sp, t=Sp()),
        lambda x, t: (prox.prox_elastic_net(x), prox.prox_elastic_net(x, (2.0, 0.5), t),
                      prox.prox_elastic_net(x, None, t)),
        lambda s, i, o: [
            ('optimal', enet(s, flat(i['x']), [R_(1)] * 9, [R_(1)] * 9, flat(o[0]))),
            ('optimal floats', enet(s, flat(i['x']), [sc(i['t']) * 2] * 9, [R_(.5)] * 9, flat(o[1]))),
            ('optimal None', enet(s, flat(i['x']), [sc(i['t'])] * 9, [R_(1)] * 9, flat(o[2])))],
        nn('t'), sample=smp('t'), bound=f'{n} coordinates')
    for op, nneg in ((prox.prox_ridge, False), (prox.prox_non_negative_ridge, True)):
      def cl(s, i, o, nneg=nneg):
        x, l, t = flat(i['x']), sc(i['l']), sc(i['t'])
        out = []
        for tag, p, c in (('', o[0], l * t), (' l2reg=None', o[1], t), (' default', o[2], R_(1))):
          p = flat(p)
          if nneg:
            q = s.And(s.ge(p, 0), s.And([s.And(s.ge(b * (1 + c), a),
                                               s.implies(s.gt(b, 0), s.eq(b * (1 + c), a)))
                                         for a, b in zip(x, p)]))
          else:
            q = s.And([s.eq(b * (1 + c), a) for a, b in zip(x, p)])
          out.append(('optimal' + tag, q))
        return out
      add(('nn_ridge_' if nneg else 'ridge_') + nm, dict(x=sp, l=Sp(), t=Sp()),
          lambda x, l, t, op=op: (op(x, l, t), op(x, None, t), op(x)), cl, nn('l', 't'),
          sample=smp('l', 't'), bound=f'{n} coordinates')
  for nm, sp, n in (('1', Sp(1), 1), ('2', Sp(2), 2), ('tree', dict(a=Sp(1), b=Sp(2)), 3)):
    add('group_lasso_' + nm, dict(x=sp, l=Sp(), t=Sp()),
        lambda x, l, t: prox.prox_group_lasso(x, l, t),
        lambda s, i, o: group(s, flat(i['x']), sc(i['l']) * sc(i['t']), flat(o)), nn('l', 't'),
        sample=smp('l', 't'), bound=f'{n} coordinates', timeout=120)
    add('group_lasso_default_' + nm, dict(x=sp, t=Sp()),
        lambda x, t: (prox.prox_group_lasso(x), prox.prox_group_lasso(x, None, t)),
        lambda s, i, o: group(s, flat(i['x']), R_(1), flat(o[0])) + [
            ('l2reg=None ' + l, c) for l, c in group(s, flat(i['x']), sc(i['t']), flat(o[1]))],
        nn('t'), sample=smp('t'), bound=f'{n} coordinates', timeout=120)
  add('group_lasso_vmap', dict(x=Sp(2, 2), l=Sp(), t=Sp()),
      lambda x, l, t: jax.vmap(prox.prox_group_lasso, in_axes=(0, None, None))(x, l, t),
      lambda s, i, o: group(s, i['x'][0], sc(i['l']) * sc(i['t']), o[0]) + [
          ('row 1 ' + l, c) for l, c in group(s, i['x'][1], sc(i['l']) * sc(i['t']), o[1])],
      nn('l', 't'), sample=smp('l', 't'), bound='2 groups of 2', timeout=120)
  add('from_projection', dict(x=Sp(3), lo=Sp(3), w=Sp(3), t=Sp()),
      lambda x, lo, w, t: (prox.make_prox_from_projection(pj.projection_box)(x, (lo, lo + w), t),
                           prox.make_prox_from_projection(pj.projection_non_negative)(x)),
      lambda s, i, o: [('projection', proj_box_claim(s, i['x'], i['lo'], i['lo'] + i['w'], o[0])),
                       ('default', s.And(s.ge(o[1], 0), s.And(
                           [s.And(s.ge(b, a), s.implies(s.gt(b, 0), s.eq(a, b)))
                            for a, b in zip(i['x'], o[1])])))],
      nn('w', 't'), sample=lambda r: dict(w=np.abs(np.array([r.random() for _ in range(3)]))),
      bound='3 coordinates')
  return ps
