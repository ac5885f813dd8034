"""Isotonic regression."""
from props.lib import *
from jaxopt import isotonic

FUNCTIONS = ['isotonic_l2_pav (through its pure_callback body and clip)']
ASSUMPTIONS = ['y_min <= y_max']


def kkt(s, y, v, inc=True, tag=''):
  n = len(y)
  sg = R_(1 if inc else -1)
  lam = R_(0)
  mono, opt = [], []
  for k in range(n):
    lam = lam + (y[k] - v[k]) * sg
    if k < n - 1:
      mono.append(s.le(v[k] * sg, v[k + 1] * sg))
      opt.append(s.ge(lam, 0))
      opt.append(s.implies(s.gt(v[k + 1] * sg, v[k] * sg), s.eq(lam, 0)))
    else:
      opt.append(s.eq(lam, 0))
  return [(tag + 'monotone', s.And(mono)), (tag + 'least squares', s.And(opt))]


def problems(tier):
  T = tier == 'thorough'
  ps = []

  def add(name, inputs, fn, claim, assume=None, **kw):
    ps.append(Problem(name, inputs, fn, claim, assume=assume, **kw))

  for n in (1, 2, 3, 4) + ((5,) if T else ()):
    for inc in (True, False):
      add(f'pav_{n}_{"inc" if inc else "dec"}', dict(y=Sp(n)),
          lambda y, inc=inc: isotonic.isotonic_l2_pav(y, increasing=inc),
          lambda s, i, o, inc=inc: kkt(s, i['y'], o, inc), bound=f'n={n}')
  add('default_is_increasing', dict(y=Sp(3)), lambda y: isotonic.isotonic_l2_pav(y),
      lambda s, i, o: kkt(s, i['y'], o), bound='n=3')
  for inc in (True, False):
    def cl(s, i, o):
      u, b = o
      lo, up = sc(i['lo']), sc(i['up'])
      return [('bounded solution', s.And([s.eq(b[k], s.max(lo, s.min(up, u[k])))
                                          for k in range(3)])),
              ('bounds', s.And(s.ge(b, lo), s.le(b, up)))]
    add(f'bounded_{"inc" if inc else "dec"}', dict(y=Sp(3), lo=Sp(), up=Sp()),
        lambda y, lo, up, inc=inc: (isotonic.isotonic_l2_pav(y, increasing=inc),
                                    isotonic.isotonic_l2_pav(y, y_min=lo, y_max=up, increasing=inc)),
        cl, lambda s, i: [V.rle(sc(i['lo']), sc(i['up']))],
        sample=lambda r: dict(lo=np.array(-.5), up=np.array(r.random())), bound='n=3')
  add('vmap', dict(y=Sp(2, 3)), lambda y: jax.vmap(isotonic.isotonic_l2_pav)(y),
      lambda s, i, o: kkt(s, i['y'][0], o[0], tag='row 0 ') + kkt(s, i['y'][1], o[1], tag='row 1 '),
      bound='batch 2, n=3', timeout=60)
  return ps
