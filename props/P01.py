"""Projections return the closest point of their set."""
from props.lib import *
from jaxopt import projection as pj

FUNCTIONS = ['projection_' + n for n in (
    'non_negative', 'box', 'hypercube', 'simplex', 'l1_sphere', 'l1_ball', 'l2_sphere',
    'l2_ball', 'linf_ball', 'hyperplane', 'halfspace', 'affine_set', 'sparse_simplex',
    'box_section', 'transport', 'birkhoff')]
ASSUMPTIONS = [
    'value / max_value / unit > 0, lower <= upper, a != 0, A of full row rank, w > 0',
    'the linear solve inside projection_affine_set meets its contract A x = b',
    'box_section: runs of the root search beyond the unwinding are cut',
    'transport: the solver passed as make_solver returns a stationary point of the '
    'function it is given',
]


def uni(r):
  return r.uniform(.2, 2)


def nonneg(s, i, o):
  x, p = flat(i['x']), flat(o)
  return [('nonnegative', s.ge(p, 0)),
          ('closest point', s.And([s.And(s.ge(b, a), s.implies(s.gt(b, 0), s.eq(a, b)))
                                   for a, b in zip(x, p)]))]


def l1ball(s, x, v, p):
  n = len(x)
  ax, ap = s.abs(x), s.abs(p)
  inside = s.xle(s.sum(ax), v)
  pos = [s.gt(ap[k], 0) for k in range(n)]
  return [('in the ball', s.le(s.sum(ap), v)),
          ('interior unchanged', s.implies(inside, s.eq(p, x))),
          ('boundary reached', s.implies(s.Not(inside), s.eq(s.sum(ap), v))),
          ('signs', s.And([s.implies(pos[k], s.Or(
              s.And(s.ge(p[k], 0), s.ge(x[k], 0)), s.And(s.le(p[k], 0), s.le(x[k], 0))))
              for k in range(n)])),
          ('closest point', s.And([s.And(
              s.implies(pos[a], s.ge(ax[a] - ap[a], ax[b] - ap[b])), s.ge(ax[a], ap[a]))
              for a in range(n) for b in range(n) if a != b or n == 1]))]


def l1sphere(s, x, v, p):
  n = len(x)
  ax, ap = s.abs(x), s.abs(p)
  pos = [s.gt(ap[k], 0) for k in range(n)]
  return [('on the sphere', s.eq(s.sum(ap), v)),
          ('signs', s.And([s.implies(pos[k], s.Or(
              s.And(s.ge(p[k], 0), s.ge(x[k], 0)), s.And(s.le(p[k], 0), s.le(x[k], 0))))
              for k in range(n)])),
          ('closest point', s.And([s.implies(pos[a], s.ge(ax[a] - ap[a], ax[b] - ap[b]))
                                   for a in range(n) for b in range(n)]))]


def l2sphere(s, x, v, p):
  return [('on the sphere', s.eq(s.sq(p), v * v)),
          ('same direction', s.And(parallel(s, p, x), s.ge(s.dot(p, x), 0)))]


def l2ball(s, x, v, p):
  inside = s.xle(s.sq(x), v * v)
  return [('in the ball', s.le(s.sq(p), v * v)),
          ('interior unchanged', s.implies(inside, s.eq(p, x))),
          ('boundary reached', s.implies(s.Not(inside), s.eq(s.sq(p), v * v))),
          ('same direction', s.And(parallel(s, p, x), s.ge(s.dot(p, x), 0)))]


def hyper(s, i, o):
  x, a, b, p = flat(i['x']), flat(i['a']), sc(i['b']), flat(o)
  return [('on the hyperplane', s.eq(s.dot(a, p), b)),
          ('closest point', parallel(s, x - p, a))]


def half(s, i, o):
  x, a, b, p = flat(i['x']), flat(i['a']), sc(i['b']), flat(o)
  inside = s.xle(s.dot(a, x), b)
  return [('in the halfspace', s.le(s.dot(a, p), b)),
          ('interior unchanged', s.implies(inside, s.eq(p, x))),
          ('boundary reached', s.implies(s.Not(inside), s.eq(s.dot(a, p), b))),
          ('closest point', parallel(s, x - p, a))]


def sparse(s, x, k, v, p):
  n = len(x)
  pos = [s.gt(p[a], 0) for a in range(n)]
  few = s.Or([s.And([s.Not(V.rlt(V.ZERO, p[a])) for a in c])
              for c in itertools.combinations(range(n), n - k + 1)]) if k <= n else True
  return [('sums to value', s.eq(s.sum(p), v)), ('nonnegative', s.ge(p, 0)),
          ('sparsity', s.And([s.Or([s.le(p[a], 0) for a in c])
                              for c in itertools.combinations(range(n), k + 1)])),
          ('closest: support', s.And([s.implies(s.And(pos[a], s.Not(V.rlt(V.ZERO, p[b]))),
                                                s.ge(x[a], x[b]))
                                      for a in range(n) for b in range(n) if a != b])),
          ('closest: threshold', s.And(
              [s.implies(s.And(pos[a], pos[b]), s.eq(x[a] - p[a], x[b] - p[b]))
               for a in range(n) for b in range(a)] +
              [s.implies(s.And(few, pos[a], s.Not(V.rlt(V.ZERO, p[b]))),
                         s.ge(x[a] - p[a], x[b]))
               for a in range(n) for b in range(n) if a != b]))]


def affine(s, i, o):
  x, A, b, p = i['x'], i['A'], i['b'], o
  m, n = A.shape
  cl = [('feasible', s.eq(matvec(A, p), b))]
  d = x - p
  if m == 1:
    cl.append(('closest point', parallel(s, d, A[0])))
  elif (m, n) == (2, 3):
    c = [A[0, 1] * A[1, 2] - A[0, 2] * A[1, 1], A[0, 2] * A[1, 0] - A[0, 0] * A[1, 2],
         A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]]
    cl.append(('closest point', s.eq(sum(d[k] * c[k] for k in range(3)), 0)))
  return cl


def boxsec(s, i, o):
  x, al, be, w, c, p = i['x'], i['al'], i['be'], i['w'], sc(i['c']), o
  n = len(x)
  inter = [s.And(s.gt(p[k], al[k]), s.lt(p[k], be[k])) for k in range(n)]
  lo = [s.gt(p[k], al[k]) for k in range(n)]
  up = [s.lt(p[k], be[k]) for k in range(n)]
  # exists tau with p = clip(x + tau w): tau_k >= / <= conditions are pairwise
  return [('bounds', s.And(s.ge(p, al), s.le(p, be))),
          ('section', s.le(s.abs(s.dot(w, p) - c), R_(2e-5))),
          ('closest point', s.And([s.implies(s.And(lo[a], up[b]),
                                             s.le((p[a] - x[a]) * w[b], (p[b] - x[b]) * w[a]))
                                   for a in range(n) for b in range(n) if a != b]))]


class StubSolver:
  """make_solver stub: returns the dual variables given as an input."""

  def __init__(self, fun, dual, rec):
    self.fun, self.dual, self.rec = fun, dual, rec

  def run(self, init_params, **kw):
    assert (jax.tree_util.tree_structure(init_params) ==
            jax.tree_util.tree_structure(self.dual))
    self.rec.append(jax.grad(self.fun)(self.dual, **kw))
    from jaxopt import OptStep
    return OptStep(params=self.dual, state=None)


def transport_fn(semi, birkhoff=False):
  def fn(Sm, dual, a=None, b=None):
    rec = []
    mk = lambda fun: StubSolver(fun, dual, rec)
    if birkhoff:
      P = pj.projection_birkhoff(Sm, make_solver=mk, use_semi_dual=semi)
    else:
      P = pj.projection_transport(Sm, (a, b), make_solver=mk, use_semi_dual=semi)
    return P, rec[0]
  return fn


def transport_claim(s, i, o):
  P, g = o
  M = i['Sm']
  m, n = M.shape
  a = i.get('a', np.array([R_(1)] * m, dtype=object))
  b = i.get('b', np.array([R_(1)] * n, dtype=object))
  stat = s.And([s.xeq(e, 0) for e in flat(g)])
  out = [('nonnegative', s.implies(stat, s.ge(P, 0))),
         ('row marginals', s.implies(stat, s.And([s.eq(s.sum(P[k]), a[k]) for k in range(m)]))),
         ('column marginals', s.implies(stat, s.And(
             [s.eq(s.sum(P[:, k]), b[k]) for k in range(n)])))]
  # optimality: S - P = u_i + v_j on the support, <= off it; for 2x2 blocks:
  D = M - P
  q = []
  for r1, r2 in itertools.permutations(range(m), 2):
    for c1, c2 in itertools.permutations(range(n), 2):
      # moving mass from (r1,c1),(r2,c2) to (r1,c2),(r2,c1) must not help
      q.append(s.implies(s.And(stat, s.gt(P[r1, c1], 0), s.gt(P[r2, c2], 0)),
                         s.ge(D[r1, c1] + D[r2, c2], D[r1, c2] + D[r2, c1])))
  out.append(('closest point', s.And(q)))
  return out


def problems(tier):
  T = tier == 'thorough'
  ps = []

  def add(name, inputs, fn, claim, assume=None, **kw):
    ps.append(Problem(name, inputs, fn, claim, assume=assume, **kw))

  tree = dict(a=Sp(2), b=(Sp(), Sp(1, 2)))
  add('non_negative', dict(x=Sp(3)), lambda x: pj.projection_non_negative(x), nonneg,
      bound='3 coordinates')
  add('non_negative_tree', dict(x=tree), lambda x: pj.projection_non_negative(x), nonneg,
      bound='pytree of 5')
  bx = lambda s, i, o: [('closest point', proj_box_claim(
      s, flat(i['x']), flat(i['lo']), flat(i['up']), flat(o)))]
  ordered = lambda s, i: [V.rle(a, b) for a, b in zip(flat(i['lo']), flat(i['up']))]
  sbox = lambda r: dict(lo=-r.random() * np.ones(3), up=r.random() * np.ones(3))
  add('box', dict(x=Sp(3), lo=Sp(3), up=Sp(3)),
      lambda x, lo, up: pj.projection_box(x, (lo, up)), bx, ordered, bound='3 coordinates')
  add('box_tree', dict(x=tree, lo=tree, up=tree),
      lambda x, lo, up: pj.projection_box(x, (lo, up)), bx, ordered, bound='pytree of 5')
  add('box_scalar', dict(x=Sp(3), lo=Sp(), up=Sp()),
      lambda x, lo, up: pj.projection_box(x, (lo, up)),
      lambda s, i, o: [('closest point', proj_box_claim(
          s, i['x'], [sc(i['lo'])] * 3, [sc(i['up'])] * 3, o))], ordered, bound='3 coordinates')
  add('hypercube', dict(x=Sp(3), u=Sp()), lambda x, u: (pj.projection_hypercube(x, u),
                                                        pj.projection_hypercube(x)),
      lambda s, i, o: [('closest point', proj_box_claim(
          s, i['x'], [R_(0)] * 3, [sc(i['u'])] * 3, o[0])),
          ('default unit', proj_box_claim(s, i['x'], [R_(0)] * 3, [R_(1)] * 3, o[1]))],
      lambda s, i: [sc(i['u']) > 0], bound='3 coordinates')
  posv = lambda s, i: [sc(i['v']) > 0]
  sv = lambda r: dict(v=np.array(uni(r)))
  for n in ((1, 2, 3, 4) if not T else (1, 2, 3, 4, 5)):
    add(f'simplex_{n}', dict(x=Sp(n), v=Sp()), lambda x, v: pj.projection_simplex(x, v),
        lambda s, i, o: simplex_claims(s, i['x'], sc(i['v']), o), posv, sample=sv,
        bound=f'n={n}', timeout=300)
  add('simplex_default', dict(x=Sp(3)), lambda x: (pj.projection_simplex(x),
                                                   pj.projection_simplex(x, None)),
      lambda s, i, o: simplex_claims(s, i['x'], R_(1), o[0]) +
      simplex_claims(s, i['x'], R_(1), o[1], 'value=None: '), bound='n=3')
  add('simplex_vmap', dict(x=Sp(2, 2), v=Sp(2)),
      lambda x, v: jax.vmap(pj.projection_simplex)(x, v),
      lambda s, i, o: simplex_claims(s, i['x'][0], i['v'][0], o[0], 'row 0: ') +
      simplex_claims(s, i['x'][1], i['v'][1], o[1], 'row 1: '),
      lambda s, i: [i['v'][0] > 0, i['v'][1] > 0],
      sample=lambda r: dict(v=np.array([uni(r), uni(r)])), bound='batch 2, n=2')
  for n in ((1, 2, 3) if not T else (1, 2, 3, 4)):
    add(f'l1_ball_{n}', dict(x=Sp(n), v=Sp()), lambda x, v: pj.projection_l1_ball(x, v),
        lambda s, i, o: l1ball(s, i['x'], sc(i['v']), o), posv, sample=sv, bound=f'n={n}',
        timeout=200, fork_select=n>2)
    add(f'l1_sphere_{n}', dict(x=Sp(n), v=Sp()), lambda x, v: pj.projection_l1_sphere(x, v),
        lambda s, i, o: l1sphere(s, i['x'], sc(i['v']), o), posv, sample=sv, bound=f'n={n}',
        timeout=200, fork_select=n>2)
  add('l1_default', dict(x=Sp(2)), lambda x: (pj.projection_l1_ball(x),
                                              pj.projection_l1_sphere(x)),
      lambda s, i, o: l1ball(s, i['x'], R_(1), o[0]) + [
          ('sphere: ' + l, c) for l, c in l1sphere(s, i['x'], R_(1), o[1])], bound='n=2')
  add('l1_ball_vmap', dict(x=Sp(2, 2), v=Sp(2)),
      lambda x, v: jax.vmap(pj.projection_l1_ball)(x, v),
      lambda s, i, o: l1ball(s, i['x'][0], i['v'][0], o[0]) + [
          ('row 1 ' + l, c) for l, c in l1ball(s, i['x'][1], i['v'][1], o[1])],
      lambda s, i: [i['v'][0] > 0, i['v'][1] > 0],
      sample=lambda r: dict(v=np.array([uni(r), uni(r)])), bound='batch 2, n=2')
  nz = lambda s, i: posv(s, i) + [Or([Not(V.req(e, V.ZERO)) for e in flat(i['x'])])]
  t2 = dict(a=Sp(1), b=Sp(2))
  for nm, sp, k in (('2', Sp(2), 2), ('tree', t2, 3)):
    add('l2_sphere_' + nm, dict(x=sp, v=Sp()), lambda x, v: pj.projection_l2_sphere(x, v),
        lambda s, i, o: l2sphere(s, flat(i['x']), sc(i['v']), flat(o)), nz, sample=sv,
        bound=f'{k} coordinates, x != 0')
    add('l2_ball_' + nm, dict(x=sp, v=Sp()), lambda x, v: pj.projection_l2_ball(x, v),
        lambda s, i, o: l2ball(s, flat(i['x']), sc(i['v']), flat(o)), posv, sample=sv,
        bound=f'{k} coordinates')
    add('linf_ball_' + nm, dict(x=sp, v=Sp()), lambda x, v: pj.projection_linf_ball(x, v),
        lambda s, i, o: [('closest point', proj_box_claim(
            s, flat(i['x']), [-sc(i['v'])] * 3, [sc(i['v'])] * 3, flat(o)))], posv, sample=sv,
        bound=f'{k} coordinates')
    anz = lambda s, i: [Or([Not(V.req(e, V.ZERO)) for e in flat(i['a'])])]
    add('hyperplane_' + nm, dict(x=sp, a=sp, b=Sp()),
        lambda x, a, b: pj.projection_hyperplane(x, (a, b)), hyper, anz, bound=f'{k} coordinates')
    add('halfspace_' + nm, dict(x=sp, a=sp, b=Sp()),
        lambda x, a, b: pj.projection_halfspace(x, (a, b)), half, anz, bound=f'{k} coordinates')
  add('l2_default', dict(x=Sp(2)), lambda x: (pj.projection_l2_ball(x), pj.projection_linf_ball(x),
                                              pj.projection_l2_sphere(x)),
      lambda s, i, o: l2ball(s, i['x'], R_(1), o[0]) + [
          ('linf', proj_box_claim(s, i['x'], [R_(-1)] * 2, [R_(1)] * 2, o[1]))] + [
          ('sphere ' + l, c) for l, c in l2sphere(s, i['x'], R_(1), o[2])],
      lambda s, i: [Or([Not(V.req(e, V.ZERO)) for e in flat(i['x'])])], bound='n=2')
  for n, k in ((3, 1), (3, 2), (3, 3), (4, 2)) + (((4, 3), (5, 2)) if T else ()):
    add(f'sparse_simplex_{n}_{k}', dict(x=Sp(n), v=Sp()),
        lambda x, v, k=k: pj.projection_sparse_simplex(x, k, value=v),
        lambda s, i, o, k=k: sparse(s, i['x'], k, sc(i['v']), o), posv, sample=sv,
        bound=f'n={n}, max_nz={k}', timeout=200, fork_select=k>2)
  add('sparse_simplex_default', dict(x=Sp(3)), lambda x: pj.projection_sparse_simplex(x, 2),
      lambda s, i, o: sparse(s, i['x'], 2, R_(1), o), bound='n=3, max_nz=2')
  add('affine_1x2', dict(x=Sp(2), A=Sp(1, 2), b=Sp(1)),
      lambda x, A, b: pj.projection_affine_set(x, (A, b)), affine,
      lambda s, i: [Or([Not(V.req(e, V.ZERO)) for e in flat(i['A'])])], bound='A 1x2', timeout=120)
  add('affine_2x3', dict(x=Sp(3), A=Sp(2, 3), b=Sp(2)),
      lambda x, A, b: pj.projection_affine_set(x, (A, b)), affine,
      lambda s, i: [Or([Not(V.req(i['A'][0, p] * i['A'][1, q] - i['A'][0, q] * i['A'][1, p], V.ZERO))
                        for p, q in ((0, 1), (0, 2), (1, 2))])], bound='A 2x3', timeout=120)
  def bs_assume(s, i):
    return ([V.rlt(a, b) for a, b in zip(i['al'], i['be'])] +
            [V.rlt(V.ZERO, e) for e in i['w']] +
            [V.rle(s.dot(i['w'], i['al']), sc(i['c'])), V.rle(sc(i['c']), s.dot(i['w'], i['be']))])
  def bs_sample(r, w):
    al = np.array([-uni(r), -uni(r)])
    be = np.array([uni(r), uni(r)])
    t = r.uniform(.2, .8)
    return dict(al=al, be=be, w=w, c=np.array(w @ (t * al + (1 - t) * be)))
  for nm, wc in (('11', (1., 1.)), ('12', (1., 2.))):
    W = np.array(wc)
    Wo = np.array([R_(float(e)) for e in wc], dtype=object)
    add('box_section_w' + nm, dict(x=Sp(2), al=Sp(2), be=Sp(2), c=Sp()),
        lambda x, al, be, c, W=W: pj.projection_box_section(x, (al, be, jnp.asarray(W), c)),
        lambda s, i, o, Wo=Wo: boxsec(s, dict(i, w=Wo), o),
        lambda s, i, Wo=Wo: bs_assume(s, dict(i, w=Wo)),
        sample=lambda r, W=W: {k: v for k, v in bs_sample(r, W).items() if k != 'w'},
        bound=f'n=2, w={wc}, root search <= 3 iterations', unwind=3, allow_cut=True,
        timeout=60, tol=1e-4)
  trs = dict(Sm=Sp(2, 2), dual=Sp(2), a=Sp(2), b=Sp(2))
  pm = lambda s, i: [V.rlt(V.ZERO, e) for e in list(i['a']) + list(i['b'])] + [
      V.req(s.sum(i['a']), s.sum(i['b']))]
  smp = lambda r: dict(a=np.array([uni(r), uni(r)]), b=np.array([uni(r), uni(r)]))
  add('transport_semidual', trs, transport_fn(True), transport_claim, pm, sample=smp,
      bound='2x2', timeout=120)
  add('transport_dual', dict(trs, dual=(Sp(2), Sp(2))), transport_fn(False), transport_claim, pm,
      sample=smp, bound='2x2', timeout=120)
  add('birkhoff', dict(Sm=Sp(2, 2), dual=Sp(2)), transport_fn(True, True), transport_claim,
      bound='2x2', timeout=120)
  add('birkhoff_dual', dict(Sm=Sp(2, 2), dual=(Sp(2), Sp(2))), transport_fn(False, True),
      transport_claim, bound='2x2', timeout=120)
  return ps
