"""Derivatives of projections, proximal operators and isotonic regression.

The operators are piecewise linear (or smooth) maps.  Where two inputs share
the active pattern of a piecewise linear operator the increment equals the
Jacobian applied to the increment, so the derivative is specified by the
operator's own values; smooth pieces use the differentiated closed form.
"""
from props.lib import *
from jaxopt import projection as pj, prox, isotonic

FUNCTIONS = ['jax.jvp and jax.vjp of projection_{non_negative,box,hypercube,simplex,'
             'sparse_simplex,l1_sphere,l1_ball,l2_sphere,l2_ball,linf_ball,hyperplane,halfspace,'
             'affine_set}, prox_{lasso,non_negative_lasso,elastic_net,group_lasso,ridge,'
             'non_negative_ridge}, isotonic_l2_pav']
ASSUMPTIONS = ['radii, bounds and strengths valid as in P01/P02',
               'the forward derivative is claimed off the kinks (strict patterns)',
               'isotonic: up to 1e-4 relative (the implementation divides by size + 1e-8), '
               'for sequences whose distinct levels differ by more than 1e-6']


def problems(tier):
  T = tier == 'thorough'
  ps = []

  def jv(f):
    """x, d, c -> f(x), f(x + d), Jd, J'c."""
    def fn(x, d, c):
      add = lambda a, b: jax.tree_util.tree_map(lambda p, q: p + q, a, b)
      y, t = jax.jvp(f, (x,), (d,))
      _, vjp = jax.vjp(f, x)
      return dict(y=y, z=f(add(x, d)), t=t, r=vjp(c)[0])
    return fn

  def add(name, f, xs, out, pattern=None, direct=None, assume=None, finite=True, tolr=None, **kw):
    def claim(s, i, o):
      cl = []
      fd = flat(i['d'])
      y, z, t = flat(o['y']), flat(o['z']), flat(o['t'])
      if finite:
        cl.append(('derivatives finite', s.And(s.finite(o['t']), s.finite(o['r']))))
      cl.append(('reverse = forward', s.eq(s.dot(o['r'], i['d']), s.dot(o['t'], i['c']))))
      if pattern is not None:
        pat = s.And(pattern(s, i, o))
        if tolr is None:
          cl.append(('forward derivative', s.implies(pat, s.eq(z - y, t))))
        else:
          e = R_(tolr)
          cl.append(('forward derivative', s.implies(pat, s.And(
              [s.And(s.le(c - b - a, e * (s.abs(b) + R_(1))), s.ge(c - b - a, -e * (s.abs(b) + R_(1))))
               for a, b, c in zip(y, t, z)]))))
      if direct is not None:
        cl += direct(s, i, o)
      return cl
    ps.append(Problem(name, dict(x=xs, d=xs, c=out), jv(f), claim, assume=assume, **kw))

  def same(s, a, b, strict_off):
    """0/positive pattern shared, strictly off the kink when zero."""
    return s.Or(s.And(s.xlt(0, a[0]), s.xlt(0, b[0])),
                s.And(strict_off(a[0], a[1]), strict_off(b[0], b[1])))

  # --- elementwise
  def el(lo=None, up=None):
    def pattern(s, i, o):
      x, d, y, z = flat(i['x']), flat(i['d']), flat(o['y']), flat(o['z'])
      res = []
      for k in range(len(x)):
        alts = []
        a, b = x[k], x[k] + d[k]
        if lo is not None:
          alts.append(s.And(s.xlt(a, lo), s.xlt(b, lo)))
        if up is not None:
          alts.append(s.And(s.xlt(up, a), s.xlt(up, b)))
        alts.append(s.And([s.xlt(lo, e) if lo is not None else True for e in (a, b)]
                          + [s.xlt(e, up) if up is not None else True for e in (a, b)]))
        res.append(s.Or(alts))
      return res
    return pattern
  tree = dict(a=Sp(2), b=Sp())
  add('non_negative', pj.projection_non_negative, tree, tree, el(lo=0), bound='3 coordinates')
  ps_box = lambda x: pj.projection_box(x['x'], (x['l'], x['u']))

  def boxpat(s, i, o):
    x, d = i['x'], i['d']
    res = []
    for k in range(2):
      q = [(x['x'][k], x['l'][k], x['u'][k]),
           (x['x'][k] + d['x'][k], x['l'][k] + d['l'][k], x['u'][k] + d['u'][k])]
      res += [s.xlt(l, u) for _, l, u in q]
      res.append(s.Or(s.And([s.xlt(a, l) for a, l, u in q]), s.And([s.xlt(u, a) for a, l, u in q]),
                      s.And([s.And(s.xlt(l, a), s.xlt(a, u)) for a, l, u in q])))
    return res
  add('box', ps_box, dict(x=Sp(2), l=Sp(2), u=Sp(2)), Sp(2), boxpat, bound='n=2',
      assume=lambda s, i: [V.rle(a, b) for a, b in zip(i['x']['l'], i['x']['u'])])

  def radpat(s, i, o):
    x, d = i['x'], i['d']
    u, w = sc(x['v']), sc(x['v']) + sc(d['v'])
    res = [s.xlt(0, u), s.xlt(0, w)]
    for k in range(2):
      a, b = x['x'][k], x['x'][k] + d['x'][k]
      res.append(s.Or(s.And(s.xlt(a, -u), s.xlt(b, -w)), s.And(s.xlt(u, a), s.xlt(w, b)),
                      s.And(s.xlt(-u, a), s.xlt(a, u), s.xlt(-w, b), s.xlt(b, w))))
    return res
  pos = lambda s, i: [V.rlt(V.ZERO, sc(i['x']['v'])), V.rlt(V.ZERO, sc(i['x']['v']) + sc(i['d']['v']))]
  smpv = lambda shp: (lambda r: dict(
      x=dict(x=np.array([r.uniform(-2, 2) for _ in range(shp)]), v=np.array(r.uniform(.5, 2))),
      d=dict(x=np.array([r.uniform(-.2, .2) for _ in range(shp)]), v=np.array(r.uniform(-.2, .2)))))
  xv = lambda n: dict(x=Sp(n), v=Sp())
  add('linf_ball', lambda x: pj.projection_linf_ball(x['x'], x['v']), xv(2), Sp(2), radpat,
      assume=pos, sample=smpv(2), bound='n=2')

  def cubepat(s, i, o):
    x, d = i['x'], i['d']
    u, w = sc(x['v']), sc(x['v']) + sc(d['v'])
    return [s.Or(s.And(s.xlt(a, 0), s.xlt(b, 0)), s.And(s.xlt(u, a), s.xlt(w, b)),
                 s.And(s.xlt(0, a), s.xlt(a, u), s.xlt(0, b), s.xlt(b, w)))
            for a, b in zip(x['x'], x['x'] + d['x'])]
  add('hypercube', lambda x: pj.projection_hypercube(x['x'], x['v']), xv(2), Sp(2), cubepat,
      assume=pos, sample=smpv(2), bound='n=2')

  # --- simplex family: zero coordinates are strictly below the threshold
  def simplexpat(s, i, o, absv=False):
    res = []
    x0 = i['x']['x']
    x1 = x0 + i['d']['x']
    n = len(x0)
    for x, p in ((x0, o['y']), (x1, o['z'])):
      ax, ap = (s.abs(x), s.abs(p)) if absv else (x, p)
      for k in range(n):
        for j in range(n):
          if j != k:
            res.append(s.Or(s.xlt(0, ap[k]), s.Not(s.xlt(0, ap[j])), s.xlt(ax[k], ax[j] - ap[j])))
    for k in range(n):
      if absv:
        res.append(s.Or(s.And(s.xlt(0, o['y'][k]), s.xlt(0, o['z'][k])),
                        s.And(s.xlt(o['y'][k], 0), s.xlt(o['z'][k], 0)),
                        s.And(s.xeq(o['y'][k], 0), s.xeq(o['z'][k], 0))))
        res.append(s.Or(s.xeq(o['y'][k], 0), s.And(s.Not(s.xeq(x0[k], 0)), s.Not(s.xeq(x1[k], 0)))))
      else:
        res.append(s.iff(s.xlt(0, o['y'][k]), s.xlt(0, o['z'][k])))
    return res
  for n in (2, 3) + ((4,) if T else ()):
    add(f'simplex_{n}', lambda x: pj.projection_simplex(x['x'], x['v']), xv(n), Sp(n), simplexpat,
        assume=pos, sample=smpv(n), bound=f'n={n}', fork_select=True, timeout=40, max_paths=9000)
  for n in (2,) + ((3,) if T else ()):
    apat = lambda s, i, o: simplexpat(s, i, o, True)
    add(f'l1_sphere_{n}', lambda x: pj.projection_l1_sphere(x['x'], x['v']), xv(n), Sp(n), apat,
        assume=pos, sample=smpv(n), bound=f'n={n}', fork_select=True, max_paths=9000)

    def l1pat(s, i, o):
      x0, x1 = i['x']['x'], i['x']['x'] + i['d']['x']
      v0, v1 = sc(i['x']['v']), sc(i['x']['v']) + sc(i['d']['v'])
      return s.Or(s.And(s.xlt(s.sum(s.abs(x0)), v0), s.xlt(s.sum(s.abs(x1)), v1)),
                  s.And([s.xlt(v0, s.sum(s.abs(x0))), s.xlt(v1, s.sum(s.abs(x1)))] + apat(s, i, o)))
    add(f'l1_ball_{n}', lambda x: pj.projection_l1_ball(x['x'], x['v']), xv(n), Sp(n),
        lambda s, i, o: [l1pat(s, i, o)], assume=pos, sample=smpv(n), bound=f'n={n}', fork_select=True, max_paths=9000)

  def sparsepat(k):
    def pat(s, i, o):
      x0, x1 = i['x']['x'], i['x']['x'] + i['d']['x']
      res = []
      n = len(x0)
      for x, p in ((x0, o['y']), (x1, o['z'])):
        for a in range(n):
          for b in range(a + 1, n):
            res.append(s.Not(s.xeq(x[a], x[b])))       # no ties
      # the same top-k set and the same support, strictly inactive
      for a in range(n):
        for b in range(n):
          if a != b:
            res.append(s.iff(s.xlt(x0[a], x0[b]), s.xlt(x1[a], x1[b])))
      for a in range(n):
        res.append(s.iff(s.xlt(0, o['y'][a]), s.xlt(0, o['z'][a])))
      return res
    return pat
  add('sparse_simplex_3_2', lambda x: pj.projection_sparse_simplex(x['x'], 2, value=x['v']), xv(3), Sp(3),
      sparsepat(2), assume=pos, sample=smpv(3), bound='n=3, 2 nonzeros', fork_select=True, timeout=40)

  # --- smooth pieces
  def l2(s, i, o, outside):
    x, d = flat(i['x']['x']), flat(i['d']['x'])
    v, dv = sc(i['x']['v']), sc(i['d']['v'])
    t = flat(o['t'])
    r = s.sqrt(s.sq(x))
    r2 = s.sq(x)
    xd = s.dot(x, d)
    form = s.And([s.eq(t[k] * r * r2, dv * x[k] * r2 + v * (d[k] * r2 - x[k] * xd))
                  for k in range(len(x))])
    return s.implies(outside, form)
  tr = dict(x=dict(a=Sp(1), b=Sp()), v=Sp())
  for nm, xs in (('vec', xv(2)), ('tree', tr)):
    out = xs['x']
    ass = lambda s, i: [V.rlt(V.ZERO, sc(i['x']['v']))]
    add('l2_ball_' + nm, lambda x: pj.projection_l2_ball(x['x'], x['v']), xs, out,
        direct=lambda s, i, o: [
            ('derivative outside', l2(s, i, o, s.xlt(sc(i['x']['v']) * sc(i['x']['v']), s.sq(i['x']['x'])))),
            ('derivative inside', s.implies(s.xlt(s.sq(i['x']['x']), sc(i['x']['v']) * sc(i['x']['v'])),
                                            s.eq(flat(o['t']), flat(i['d']['x']))))],
        assume=ass, bound='n=2', fork_select=True)
    add('l2_sphere_' + nm, lambda x: pj.projection_l2_sphere(x['x'], x['v']), xs, out,
        direct=lambda s, i, o: [('derivative', l2(s, i, o, True))],
        assume=lambda s, i: ass(s, i) + [V.rlt(V.ZERO, s.sq(i['x']['x']))], bound='n=2')

  def hyp(half):
    def direct(s, i, o):
      x, a, b = i['x']['x'], i['x']['a'], sc(i['x']['b'])
      dx, da, db = i['d']['x'], i['d']['a'], sc(i['d']['b'])
      t = o['t']
      aa, g = s.sq(a), s.dot(a, x) - b
      dg = s.dot(da, x) + s.dot(a, dx) - db
      form = s.And([s.eq(t[k] * aa * aa, dx[k] * aa * aa - dg * aa * a[k]
                         + R_(2) * g * s.dot(a, da) * a[k] - g * aa * da[k]) for k in range(2)])
      if not half:
        return [('derivative', form)]
      return [('derivative outside', s.implies(s.xlt(0, g), form)),
              ('derivative inside', s.implies(s.xlt(g, 0), s.eq(t, dx)))]
    return direct
  xab = dict(x=Sp(2), a=Sp(2), b=Sp())
  for nm, f, h in (('hyperplane', pj.projection_hyperplane, False), ('halfspace', pj.projection_halfspace, True)):
    add(nm, lambda x, f=f: f(x['x'], (x['a'], x['b'])), xab, Sp(2), direct=hyp(h),
        assume=lambda s, i: [V.rlt(V.ZERO, s.sq(i['x']['a']))], bound='n=2', fork_select=True, timeout=40)

  def affine(x, d, c):
    f = lambda x: pj.projection_affine_set(x['x'], (x['A'], x['b']))
    y, vjp = jax.vjp(f, x)
    return dict(y=y, z=f({k: x[k] + d[k] for k in x}), r=vjp(c)[0])
  sp = dict(x=Sp(2), A=Sp(1, 2), b=Sp(1))
  ps.append(Problem(
      'affine_set', dict(x=sp, d=dict(x=Sp(2), b=Sp(1)), c=Sp(2)),
      lambda x, d, c: affine(x, dict(d, A=jnp.zeros((1, 2))), c),
      lambda s, i, o: [('reverse derivative in x and b', s.eq(
          s.dot(i['c'], o['z'] - o['y']),
          s.dot(o['r']['x'], i['d']['x']) + s.dot(o['r']['b'], i['d']['b'])))],
      assume=lambda s, i: [V.rlt(V.ZERO, s.sq(i['x']['A']))],
      bound='n=2, one constraint', timeout=60))

  # --- proximal operators
  def lassopat(s, i, o, nn=False):
    x, d = i['x'], i['d']
    res = []
    for k in range(len(x['x'])):
      q = [(x['x'][k], x['l'][k] * sc(x['t'])),
           (x['x'][k] + d['x'][k], (x['l'][k] + d['l'][k]) * (sc(x['t']) + sc(d['t'])))]
      alts = [s.And([s.xlt(l, a) for a, l in q])]
      if nn:
        alts += [s.And([s.xlt(a, l) for a, l in q])]
      else:
        alts += [s.And([s.xlt(a, -l) for a, l in q]), s.And([s.And(s.xlt(-l, a), s.xlt(a, l)) for a, l in q])]
      res.append(s.Or(alts))
    return res
  xlt_ = dict(x=Sp(2), l=Sp(2), t=Sp())

  def lassodirect(nn, en):
    def direct(s, i, o):
      x, d, out = i['x'], i['d'], []
      t, dt = sc(x['t']), sc(d['t'])
      for k in range(2):
        a, da, l, dl = x['x'][k], d['x'][k], x['l'][k], d['l'][k]
        g, dg = (sc(x['g']), sc(d['g'])) if en else (R_(0), R_(0))
        h = l * t                      # threshold
        dh = dl * t + l * dt
        den = R_(1) + h * g
        dden = dh * g + h * dg
        j = o['t'][k]
        for sg, cond in ((1, s.xlt(h, a)),) + (() if nn else ((-1, s.xlt(a, -h)),)):
          num, dnum = a - R_(sg) * h, da - R_(sg) * dh
          out.append(s.implies(cond, s.eq(j * den * den, dnum * den - num * dden)))
        out.append(s.implies(s.And(s.xlt(a, h), True if nn else s.xlt(-h, a)), s.eq(j, 0)))
      return [('derivative', s.And(out))]
    return direct
  nnl = lambda *ks: (lambda s, i: [V.rle(V.ZERO, e) for k in ks for e in flat(i['x'][k])])
  smpp = lambda *ks: (lambda r: dict(x={k: np.array([r.uniform(.1, 1) for _ in range(2)]) if k in 'xl'
                                        else np.array(r.uniform(.1, 1)) for k in ks}))
  add('lasso', lambda x: prox.prox_lasso(x['x'], x['l'], x['t']), xlt_, Sp(2),
      direct=lassodirect(False, False), assume=nnl('l', 't'), sample=smpp('x', 'l', 't'), bound='n=2', max_paths=9000,
      fork_select=True)
  add('non_negative_lasso', lambda x: prox.prox_non_negative_lasso(x['x'], x['l'], x['t']),
      dict(x=Sp(2), l=Sp(), t=Sp()), Sp(2),
      direct=lambda s, i, o: lassodirect(True, False)(
          s, dict(x=dict(i['x'], l=[sc(i['x']['l'])] * 2), d=dict(i['d'], l=[sc(i['d']['l'])] * 2)), o),
      assume=nnl('l', 't'), sample=lambda r: dict(x=dict(x=np.array([r.uniform(-1, 2), .7]),
                                                         l=np.array(.3), t=np.array(1.2))),
      bound='n=2', fork_select=True)
  xlgt = dict(x=Sp(2), l=Sp(), g=Sp(), t=Sp())
  add('elastic_net', lambda x: prox.prox_elastic_net(x['x'], (x['l'], x['g']), x['t']), xlgt, Sp(2),
      direct=lambda s, i, o: lassodirect(False, True)(
          s, dict(x=dict(i['x'], l=[sc(i['x']['l'])] * 2), d=dict(i['d'], l=[sc(i['d']['l'])] * 2)), o),
      assume=nnl('l', 'g', 't'), sample=lambda r: dict(x=dict(x=np.array([r.uniform(-1, 2), .7]),
                                                              l=np.array(.3), g=np.array(.5), t=np.array(1.2))),
      bound='n=2', max_paths=9000, fork_select=True, timeout=60)

  def gl(s, i, o):
    x, d = i['x']['x'], i['d']['x']
    h = sc(i['x']['l']) * sc(i['x']['t'])
    dh = sc(i['d']['l']) * sc(i['x']['t']) + sc(i['x']['l']) * sc(i['d']['t'])
    r, r2 = s.sqrt(s.sq(x)), s.sq(x)
    t = o['t']
    # (1 - h/r) x
    form = s.And([s.eq((t[k] - d[k]) * r * r2, -dh * x[k] * r2 - h * d[k] * r2 + h * x[k] * s.dot(x, d))
                  for k in range(2)])
    return [('derivative of kept block', s.implies(s.xlt(h * h, r2), form)),
            ('derivative of zero block', s.implies(s.xlt(r2, h * h), s.eq(t, 0)))]
  add('group_lasso', lambda x: prox.prox_group_lasso(x['x'], x['l'], x['t']), dict(x=Sp(2), l=Sp(), t=Sp()),
      Sp(2), direct=gl, assume=nnl('l', 't'), sample=lambda r: dict(
          x=dict(x=np.array([r.uniform(-1, 2), .7]), l=np.array(.3), t=np.array(1.2))), bound='n=2',
      fork_select=True, timeout=60)

  def rd(s, i, o, nn=False):
    x, d = i['x'], i['d']
    c, dc = sc(x['l']) * sc(x['t']), sc(d['l']) * sc(x['t']) + sc(x['l']) * sc(d['t'])
    den = R_(1) + c
    out = []
    for k in range(2):
      form = s.eq(o['t'][k] * den * den, d['x'][k] * den - x['x'][k] * dc)
      if nn:
        out += [s.implies(s.xlt(0, x['x'][k]), form), s.implies(s.xlt(x['x'][k], 0), s.eq(o['t'][k], 0))]
      else:
        out.append(form)
    return [('derivative', s.And(out))]
  xl = dict(x=Sp(2), l=Sp(), t=Sp())
  smpr = lambda r: dict(x=dict(x=np.array([r.uniform(-1, 2), .7]), l=np.array(.3), t=np.array(1.2)))
  add('ridge', lambda x: prox.prox_ridge(x['x'], x['l'], x['t']), xl, Sp(2), direct=rd, assume=nnl('l', 't'),
      sample=smpr, bound='n=2', timeout=40)
  add('non_negative_ridge', lambda x: prox.prox_non_negative_ridge(x['x'], x['l'], x['t']), xl, Sp(2),
      direct=lambda s, i, o: rd(s, i, o, True), assume=nnl('l', 't'), sample=smpr, bound='n=2', timeout=40,
      fork_select=True)

  # --- isotonic
  def isopat(s, i, o):
    x0, x1 = i['x'], i['x'] + i['d']
    res = []
    gap = Fraction(1, 10 ** 6)
    for x, p in ((x0, o['y']), (x1, o['z'])):
      for k in range(len(x) - 1):
        res.append(s.Or(s.xeq(p[k], p[k + 1]), s.xlt(p[k] + R_(gap), p[k + 1]),
                        s.xlt(p[k + 1] + R_(gap), p[k])))
    for k in range(len(x0) - 1):
      res.append(s.iff(s.xeq(o['y'][k], o['y'][k + 1]), s.xeq(o['z'][k], o['z'][k + 1])))
    return res

  def nokink(s, i, o, inc):
    # inside a pooled block no prefix is exactly at the block level
    res = []
    sg = R_(1 if inc else -1)
    for x, p in ((i['x'], o['y']), (i['x'] + i['d'], o['z'])):
      lam = R_(0)
      for k in range(len(x) - 1):
        lam = lam + (x[k] - p[k]) * sg
        res.append(s.Or(s.Not(s.xeq(p[k], p[k + 1])), s.xlt(0, lam)))
    return res
  for inc in (True, False):
    for n in (2, 3) + ((4,) if T else ()):
      add(f'isotonic_{n}_{"inc" if inc else "dec"}',
          lambda x, inc=inc: isotonic.isotonic_l2_pav(x, increasing=inc), Sp(n), Sp(n),
          lambda s, i, o, inc=inc: isopat(s, i, o) + nokink(s, i, o, inc),
          assume=lambda s, i: box_le(i['x'], 100) + box_le(i['d'], 100) + box_le(i['c'], 100),
          tolr=Fraction(1, 10 ** 4), bound=f'n={n}, |entries| <= 100', timeout=40, max_paths=4000,
          fork_select=True)
  return ps
