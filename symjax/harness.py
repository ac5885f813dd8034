"""Problems (one symbolic query family each), their solution and replay."""
import json
import os
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax.interpreters import partial_eval as pe
import z3
from . import val as V
from .val import And, Or, Not, Implies, Iff, R, R_, conc, isconc, F0, F1, zr
from . import ctx as C
from . import interp as I
from . import solve
from . import uf as U
from . import live as L


class Sp:
  """Input spec: shape and kind ('f', 'i', 'b')."""

  def __init__(self, *shape, kind='f', lo=None, hi=None):
    self.shape, self.kind, self.lo, self.hi = tuple(shape), kind, lo, hi

  @property
  def dtype(self):
    return {'f': jnp.float64, 'i': jnp.int64, 'b': jnp.bool_}[self.kind]


def is_sp(x):
  return isinstance(x, Sp)


class Problem:
  """One harness.

  inputs: dict name -> pytree of Sp.  fn(**inputs) is run on the real code; its
  outputs o and the inputs i (pytrees of object arrays) go to claim(S, i, o)
  which returns a list of (label, formula).  ghost: names of the inputs that
  are universally quantified in the claim only.
  """

  def __init__(self, name, inputs, fn, claim, assume=None, ghost=(), ufs=(),
               fork_select=False, fork_loops=True, unwind=64, timeout=60.0,
               max_paths=4000, tier='quick', bound='', tol=1e-5, box=8,
               validate=2, sample=None, known=None, allow_cut=False,
               covers=None, uf_poly=None, expect_sat=None, notes='',
               conj=True, cap=None, x64=True, uf_axioms=None, setup=None,
               fast=1.5, live=False, required=True, searches=60, quick_ms=300, mid=None,
               linsolve='contract', dce=False):
    self.__dict__.update(locals())
    del self.__dict__['self']

  def input_names(self):
    return list(self.inputs)


class S:
  """Spec operations.  margin: slack given to every claim atom; `tol`: relative
  slack (concrete replay)."""

  def __init__(self, ctx=None, margin=F0, tol=None):
    self.ctx, self.margin, self.tol = ctx, margin, tol

  And = staticmethod(lambda *a: And(*[_ub(x) for x in a]))
  Or = staticmethod(lambda *a: Or(*[_ubo(x) for x in a]))
  Not = staticmethod(lambda a: Not(V.unb(a)))
  implies = staticmethod(lambda a, b: Implies(V.unb(a), V.unb(b)))
  iff = staticmethod(lambda a, b: Iff(V.unb(a), V.unb(b)))

  def _m(self, a, b):
    if self.tol is None:
      return self.margin
    mx = max([abs(x.v) for x in (a, b) if conc(x.v)] + [F0])
    return Fraction(self.tol) * (1 + mx)

  def eq(self, a, b):
    return self._map(self._eq1, a, b)

  def _eq1(self, a, b):
    if not isinstance(a, R) and not isinstance(b, R) and (_isint(a) or _isint(b)):
      return V.ieq(a, b)
    if isinstance(a, (bool, np.bool_, z3.BoolRef)):
      return Iff(a, V.unb(b))
    a, b = R_(a), R_(b)
    m = self._m(a, b)
    same = None if self.tol is not None else V.poly.diff(a.v, b.v)
    if m == 0:
      fin = V.veq(a.v, b.v)
    elif same is not None:
      fin = abs(same) <= m
    else:
      d = V.vsub(a.v, b.v)
      fin = And(V.vle(d, m), V.vle(V.vneg(zr(d)) if not conc(d) else -d, m))
    if a.plain and b.plain:
      return fin
    return And(Iff(a.nan, b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf),
               Implies(And(a.isfinite, b.isfinite), fin))

  def le(self, a, b):
    def f(p, q):
      if _isint(p) and _isint(q):
        return V.ile(p, q)
      p, q = R_(p), R_(q)
      m = self._m(p, q)
      return V.rle(p, V.radd(q, R(m)) if m != 0 else q)
    return self._map(f, a, b)

  def ge(self, a, b):
    return self.le(b, a)

  def gt(self, a, b):
    """Strict, strengthened by the margin: for antecedents."""
    def f(p, q):
      if _isint(p) and _isint(q):
        return V.ilt(q, p)
      p, q = R_(p), R_(q)
      m = self._m(p, q)
      return V.rlt(V.radd(q, R(m)) if m != 0 else q, p)
    return self._map(f, a, b)

  def lt(self, a, b):
    return self.gt(b, a)

  def ne(self, a, b):
    """Antecedent disequality."""
    return Or(self.gt(a, b), self.lt(a, b))

  def xlt(self, a, b):
    """Exact strict comparison, no margin."""
    return self._map(lambda p, q: V.rlt(R_(p), R_(q)), a, b)

  def xle(self, a, b):
    return self._map(lambda p, q: V.rle(R_(p), R_(q)), a, b)

  def xeq(self, a, b):
    return self._map(lambda p, q: V.req(R_(p), R_(q)), a, b)

  def finite(self, t):
    return And([R_(e).isfinite for l in jax.tree_util.tree_leaves(t)
                for e in np.asarray(l, dtype=object).ravel()])

  def _map(self, f, a, b):
    la, lb = _leaves(a), _leaves(b)
    if len(la) != len(lb):
      raise AssertionError(f'tree mismatch {len(la)} {len(lb)}')
    out = []
    for x, y in zip(la, lb):
      x, y = _oa(x), _oa(y)
      shape = np.broadcast_shapes(x.shape, y.shape)
      x, y = np.broadcast_to(x, shape), np.broadcast_to(y, shape)
      for e in np.ndindex(*shape):
        out.append(f(V.unb(x[e]), V.unb(y[e])))
    return And(out)

  def same_shape(self, a, b):
    return ([np.shape(x) for x in _leaves(a)] == [np.shape(x) for x in _leaves(b)])

  @staticmethod
  def ite(c, a, b):
    return V.ite(V.unb(c), R_(a), R_(b))

  @staticmethod
  def max(a, b):
    return V.rmax(R_(a), R_(b))

  @staticmethod
  def min(a, b):
    return V.rmin(R_(a), R_(b))

  @staticmethod
  def abs(a):
    if isinstance(a, np.ndarray):
      return I.omap(V.rabs, a)
    return V.rabs(R_(a))

  @staticmethod
  def sqrt(a):
    return V.rsqrt_(R_(a))

  @staticmethod
  def exp(a):
    return V.rexp(R_(a))

  @staticmethod
  def log(a):
    return V.rlog(R_(a))

  @staticmethod
  def sum(a):
    r = V.ZERO
    for e in np.asarray(a, dtype=object).ravel():
      r = V.radd(r, R_(e))
    return r

  @staticmethod
  def dot(a, b):
    r = V.ZERO
    for l, m in zip(_leaves(a), _leaves(b)):
      l, m = _oa(l), _oa(m)
      for x, y in zip(l.ravel(), m.ravel()):
        r = V.radd(r, V.rmul(R_(x), R_(y)))
    return r

  def sq(self, a):
    return self.dot(a, a)

  @staticmethod
  def flat(t):
    ls = [_oa(x).ravel() for x in _leaves(t)]
    return np.concatenate(ls) if ls else np.empty((0,), dtype=object)


def _ubo(x):
  if isinstance(x, (list, tuple)):
    return Or(*[_ubo(y) for y in x])
  return V.unb(x)


def _ub(x):
  if isinstance(x, (list, tuple)):
    return And(*[_ub(y) for y in x])
  return V.unb(x)


def _isint(x):
  return (isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))) or (
      isinstance(x, z3.ArithRef) and z3.is_int(x))


def _oa(x):
  if isinstance(x, np.ndarray) and x.dtype == object:
    return x
  if isinstance(x, I.Raw):
    return np.empty((0,), dtype=object)
  if isinstance(x, (R, V.SB, z3.ExprRef)):
    return I.full((), x)
  a = np.asarray(x)
  if a.dtype == object:
    return a
  o = np.empty(a.shape, dtype=object)
  for e in np.ndindex(*a.shape):
    o[e] = a[e].item()
  return o


def _leaves(t):
  return jax.tree_util.tree_leaves(t, is_leaf=lambda x: isinstance(x, (R, V.SB)))


# ------------------------------------------------------------ running
def _flat_specs(P):
  names = [n for n in P.inputs if n not in P.ghost]
  leaves, tree = jax.tree_util.tree_flatten({n: P.inputs[n] for n in names},
                                            is_leaf=is_sp)
  return leaves, tree


def trace(P):
  leaves, tree = _flat_specs(P)
  out_tree = []

  def f(*xs):
    d = jax.tree_util.tree_unflatten(tree, xs)
    o = P.fn(**d)
    l, t = jax.tree_util.tree_flatten(o)
    out_tree.append(t)
    return [jnp.asarray(x) for x in l]
  cj = jax.make_jaxpr(f)(*[jax.ShapeDtypeStruct(s.shape, s.dtype) for s in leaves])
  if P.dce:   # drop what the returned values do not depend on
    jx, _ = pe.dce_jaxpr(cj.jaxpr, [True] * len(cj.jaxpr.outvars), instantiate=True)
    cj = cj.replace(jaxpr=jx)
  return cj, out_tree[-1]


def sym_inputs(ctx, P):
  vals, consts = {}, []
  for n in P.inputs:
    leaves, tree = jax.tree_util.tree_flatten(P.inputs[n], is_leaf=is_sp)
    out = []
    for q, s in enumerate(leaves):
      a = np.empty(s.shape, dtype=object)
      for e in np.ndindex(*s.shape):
        nm = f'{n}_{q}' + ''.join(f'_{k}' for k in e)
        if s.kind == 'f':
          c = z3.Real(nm)
          a[e] = R(c)
        elif s.kind == 'i':
          c = z3.Int(nm)
          a[e] = c
          if s.lo is not None:
            ctx.assume(c >= s.lo)
          if s.hi is not None:
            ctx.assume(c <= s.hi)
        else:
          c = z3.Bool(nm)
          a[e] = c
        consts.append(c)
      out.append(a)
    vals[n] = jax.tree_util.tree_unflatten(tree, out)
  return vals, consts


def conc_inputs(P, getter):
  vals = {}
  for n in P.inputs:
    leaves, tree = jax.tree_util.tree_flatten(P.inputs[n], is_leaf=is_sp)
    out = []
    for q, s in enumerate(leaves):
      a = np.empty(s.shape, dtype=object)
      for e in np.ndindex(*s.shape):
        a[e] = getter(n, q, e, s)
      out.append(a)
    vals[n] = jax.tree_util.tree_unflatten(tree, out)
  return vals


def to_float_inputs(P, vals):
  """Object arrays -> jnp arrays; returns also the exact object arrays of the
  rounded values."""
  fl, ex = {}, {}
  for n in P.inputs:
    sl, tree = jax.tree_util.tree_flatten(P.inputs[n], is_leaf=is_sp)
    vl = jax.tree_util.tree_leaves(vals[n])
    a, b = [], []
    for s, v in zip(sl, vl):
      x = I.to_np(np.asarray(v, dtype=object), np.dtype(s.dtype))
      a.append(jnp.asarray(x))
      b.append(I.from_np(x))
    fl[n] = jax.tree_util.tree_unflatten(tree, a)
    ex[n] = jax.tree_util.tree_unflatten(tree, b)
  return fl, ex


def run_real(P, fl):
  d = {n: fl[n] for n in P.inputs if n not in P.ghost}
  return P.fn(**d)


def real_outputs(o):
  l, t = jax.tree_util.tree_flatten(o)
  return jax.tree_util.tree_unflatten(t, [I.from_np(x) for x in l])


class EncodingMismatch(Exception):
  pass


def poly_interp(seed, nin, out_shape):
  """A fixed strongly convex-ish polynomial map used for encoder validation."""
  rng = random.Random(seed)
  m = int(np.prod(out_shape, dtype=int))
  rat = lambda: Fraction(rng.randint(-8, 8), 8)
  coefs = []
  for _ in range(m):
    A = [[rat() for _ in range(nin)] for _ in range(nin)]
    Q = [[sum(A[k][i] * A[k][j] for k in range(nin)) + (1 if i == j else 0)
          for j in range(nin)] for i in range(nin)]
    coefs.append((Q, [rat() for _ in range(nin)], rat()))

  def f(order, x):
    out = np.empty((m,) + (nin,) * order, dtype=object)
    for k, (Q, b, c) in enumerate(coefs):
      if order == 0:
        out[k] = sum(Q[i][j] * x[i] * x[j] for i in range(nin) for j in range(nin)) / 2 + \
            sum(b[i] * x[i] for i in range(nin)) + c
      elif order == 1:
        for i in range(nin):
          out[k, i] = sum(Q[i][j] * x[j] for j in range(nin)) + b[i]
      elif order == 2:
        for i in range(nin):
          for j in range(nin):
            out[k, i, j] = Q[i][j]
      else:
        out[k] = 0
    return out
  return f


def validate(P, cj, out_tree, seed, shared, n):
  """Runs the encoding on concrete inputs and compares it with the real code."""
  rng = random.Random(1000 + seed)
  done = 0
  bad = 0
  for t in range(3 * n):
    if done >= n:
      break
    if P.sample is not None:
      vals = P.sample(rng)
      vals = {k: jax.tree_util.tree_map(lambda x: I.from_np(np.asarray(x)), v)
              for k, v in vals.items()}
      for nm in P.inputs:
        if nm not in vals:
          vals[nm] = conc_inputs(P, lambda *a: _rand(rng, *a))[nm]
    else:
      vals = conc_inputs(P, lambda *a: _rand(rng, *a))
    fl, ex = to_float_inputs(P, vals)
    interp = {}
    for u in P.ufs:
      f = (P.uf_poly or {}).get(u.name) or poly_interp(7, u.nin, u.out_shape)
      interp[u.name] = lambda order, args, f=f: f(order, [Fraction(a) for a in args])
      U.TABLE[u.name] = lambda order, x, f=f: np.array(
          [float(v) for v in f(order, [Fraction(float(q)) for q in x]).ravel()])
    ctx = C.Ctx({'uf_interp': interp, 'concrete': True}, unwind=10 ** 6)
    ctx.callback_handler = callback_handler
    V.set_ctx(ctx)
    names = [m for m in P.inputs if m not in P.ghost]
    leaves = jax.tree_util.tree_leaves({m: ex[m] for m in names})
    try:
      if P.live:
        outs = jax.tree_util.tree_leaves(L.run(ctx, P.fn, {m: ex[m] for m in names}))
      else:
        outs = I.eval_closed(ctx, cj, leaves)
    finally:
      V.set_ctx(None)
    real = [np.asarray(x) if not jax.dtypes.issubdtype(
        getattr(x, 'dtype', np.dtype(float)), jax.dtypes.extended) else None
        for x in jax.tree_util.tree_leaves(run_real(P, fl))]
    ok = True
    for a, b in zip(outs, real):
      if b is None or isinstance(a, I.Raw):
        continue
      if not I.is_concrete(a):
        raise EncodingMismatch('encoding of concrete inputs is not concrete')
      x = np.array([V.tofloat(e) if isinstance(e, R) else float(e) for e in a.ravel()])
      y = b.astype(float).ravel()
      if not np.allclose(x, y, rtol=1e-4, atol=1e-5, equal_nan=True):
        ok = False
        diff = (x[:6].tolist(), y[:6].tolist())
    if not ok:
      bad += 1
      if bad > max(1, n // 2):
        raise EncodingMismatch(f'encoding disagrees with the real code: {diff}')
      continue
    done += 1
    if not shared.get('witness'):
      # a concrete run that satisfies the assumptions: the claims are not vacuous
      V.set_ctx(ctx)
      try:
        a = _ub(P.assume(S(ctx), ex)) if P.assume else True
        shared['witness'] = isconc(a) and bool(a) and _in_bounds(P, ex)
      except Exception:
        pass
      finally:
        V.set_ctx(None)
  return done


def _in_bounds(P, ex):
  for nm, tree in P.inputs.items():
    for s, a in zip(jax.tree_util.tree_leaves(tree, is_leaf=is_sp), jax.tree_util.tree_leaves(ex[nm])):
      for e in np.asarray(a, dtype=object).ravel():
        x = V.tofloat(e) if isinstance(e, R) else e
        if (s.lo is not None and x < s.lo) or (s.hi is not None and x > s.hi):
          return False
  return True


def _rand(rng, n, q, e, s):
  if s.kind == 'f':
    return R(Fraction(rng.randint(-2000, 2000), 1000))
  if s.kind == 'i':
    return rng.randint(s.lo or 0, s.hi if s.hi is not None else 3)
  return rng.random() < 0.5


def callback_handler(ctx, params, ins, in_avals, out_avals):
  """Runs the Python body of a pure_callback on symbolic elements."""
  cb = params['callback']
  f = getattr(cb, 'callback_func', cb)
  tree = getattr(cb, 'in_tree', None)
  args = [np.array(a, dtype=object, copy=True) for a in ins]
  glob = getattr(f, '__globals__', {})
  saved = {k: v for k, v in glob.items() if v is np}
  shim = NumpyShim()
  for k in saved:
    glob[k] = shim
  try:
    if tree is not None:
      a, kw = jax.tree_util.tree_unflatten(tree, args)
      out = f(*a, **kw)
    else:
      out = f(*args)
  finally:
    glob.update(saved)
  leaves = jax.tree_util.tree_leaves(out, is_leaf=lambda x: isinstance(x, np.ndarray))
  res = []
  for o, av in zip(leaves, out_avals):
    a = np.empty(av.shape, dtype=object)
    o = np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else o
    k = I.kind(av.dtype)
    for e in np.ndindex(*av.shape):
      v = o[e]
      a[e] = R_(v) if k == 'f' else (int(v) if k == 'i' else V.unb(v))
    res.append(a)
  return res


class NumpyShim:
  """numpy whose float array constructors build object arrays."""

  def __getattr__(self, n):
    f = getattr(np, n)
    if n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like',
             'full_like', 'array', 'asarray', 'copy'):
      def g(*a, **k):
        a0 = a[0] if a else None
        dt = k.get('dtype')
        if n.endswith('_like') and getattr(a0, 'dtype', None) == object and dt is None:
          r = f(np.zeros(np.shape(a0)), *a[1:], **k)
        elif n in ('array', 'asarray', 'copy'):
          return f(*a, **k)
        else:
          r = f(*a, **k)
        return I.from_np(r) if r.dtype.kind == 'f' else r
      return g
    return f


# ------------------------------------------------------------ main
def solve_problem(P, tier='quick', seed=1, deadline=None, log=None):
  t0 = time.time()
  res = dict(problem=P.name, bound=P.bound, paths=0, cut=0, obligations=0,
             discharged=0, unknown=[], status='ok', notes=[], validated=0,
             queries=0, solver_s=0.0, primitives=[], tol_discharged=0)
  for k in solve.STATS:
    solve.STATS[k] = {} if k == 'by' else 0
  try:
    _solve(P, tier, seed, deadline, res)
  except EncodingMismatch as e:
    res['status'] = 'error'
    res['error'] = f'encoder validation: {e}'
  except Exception as e:
    res['status'] = 'error'
    res['error'] = f'{type(e).__name__}: {e}'
    res['trace'] = traceback.format_exc()[-3000:]
  res['queries'] = solve.STATS['queries']
  res['by'] = dict(solve.STATS['by'])
  res['solver_s'] = round(solve.STATS['seconds'], 2)
  res['wall_s'] = round(time.time() - t0, 2)
  return res


def _solve(P, tier, seed, deadline, res):
  if P.setup:
    P.setup()
  shared = {}
  try:
    cj, out_tree = (None, None) if P.live else trace(P)
  except Exception as e:
    # the real code refuses inputs it documents as valid: report if a concrete
    # run refuses too.
    res['trace'] = traceback.format_exc()[-3000:]
    rng = random.Random(seed)
    vals = conc_inputs(P, lambda *a: _rand(rng, *a))
    if P.sample is not None:
      sv = P.sample(rng)
      vals.update({k: jax.tree_util.tree_map(lambda x: I.from_np(np.asarray(x)), v)
                   for k, v in sv.items()})
    fl, ex = to_float_inputs(P, vals)
    for u in P.ufs:
      f = (P.uf_poly or {}).get(u.name) or poly_interp(7, u.nin, u.out_shape)
      U.TABLE[u.name] = lambda order, x, f=f: np.array(
          [float(v) for v in f(order, [Fraction(float(q)) for q in x]).ravel()])
    try:
      run_real(P, fl)
    except Exception as e2:
      res['status'] = 'violation'
      res['violations'] = [dict(label='raises', detail=f'{type(e2).__name__}: {e2}'[:500],
                                inputs=jsonable(fl))]
      return
    res['status'] = 'error'
    res['error'] = f'tracing failed: {type(e).__name__}: {e}'
    return
  if not P.live:
    res['eqns'] = count_eqns(cj.jaxpr)
  if P.validate:
    res['validated'] = validate(P, cj, out_tree, seed, shared, P.validate)
  V.poly.clear()
  names = [n for n in P.inputs if n not in P.ghost]
  shared['linsolve'] = P.linsolve
  stack = [[]]
  prims = set()
  vac = bool(shared.get('witness'))
  viol = []
  cov_hit = {}
  while stack:
    script = stack.pop()
    if res['paths'] >= P.max_paths or (deadline and time.time() > deadline):
      if P.allow_cut and res['paths'] >= P.max_paths:
        res['cut'] += len(stack) + 1
      else:
        res['unknown'].append('path or time limit')
      break
    ctx = C.Ctx(shared, script, fork_select=P.fork_select, fork_loops=P.fork_loops,
                unwind=P.unwind, quick_ms=P.quick_ms)
    ctx.callback_handler = callback_handler
    V.set_ctx(ctx)
    try:
      ins, consts = sym_inputs(ctx, P)
      if P.assume:
        ctx.assume(P.assume(S(ctx), ins))
      leaves = jax.tree_util.tree_leaves({n: ins[n] for n in names})
      try:
        if P.live:
          out = L.run(ctx, P.fn, {n: ins[n] for n in names})
          res['eqns'] = ctx.nprims
        else:
          outs = I.eval_closed(ctx, cj, leaves)
          out = jax.tree_util.tree_unflatten(out_tree, outs)
        if P.mid:
          P.mid(S(ctx), ctx, ins, out)
        if P.uf_axioms:
          for a in P.uf_axioms(S(ctx), ctx, ins):
            ctx.assume(a)
        claims = P.claim(S(ctx), ins, out)
      except C.Infeasible:
        stack.extend(ctx.pending)
        continue
      except C.UnwindLimit as e:
        prims |= getattr(ctx, 'prims', set())
        stack.extend(ctx.pending)
        # the unwinding assertion: is the path reachable?
        r, _ = solve.check(ctx.formulas(True), [], timeout=P.timeout)
        if r != 'unsat':
          res['cut'] += 1
          if not P.allow_cut:
            res['unknown'].append(f'unwinding: {e}')
        continue
      stack.extend(ctx.pending)
      prims |= getattr(ctx, 'prims', set())
      res['paths'] += 1
      if not vac:
        r, _ = solve.check(ctx.formulas(True), [], timeout=min(20.0, P.timeout))
        vac = r == 'sat'
      if P.covers:
        for lab, c in P.covers(S(ctx), ins, out):
          if cov_hit.get(lab):
            continue
          r, _ = solve.check(ctx.formulas(_ub(c)), [], timeout=min(20.0, P.timeout))
          cov_hit[lab] = r == 'sat'
      claims = [(l, _ub(c)) for l, c in claims]
      res['obligations'] += len(claims)
      todo = []
      for l, c in claims:
        if isconc(c) and c:
          res['discharged'] += 1
        else:
          todo.append((l, c))
      if len(todo) > 1 and P.conj:
        r, m = solve.check(ctx.formulas(Not(And([c for _, c in todo]))), [],
                           timeout=P.fast, fast=P.fast)
        if r == 'unsat':
          res['discharged'] += len(todo)
          todo = []
      for l, c in todo:
        t0 = time.time()
        r, m = solve.check(ctx.formulas(Not(c)), consts + _ufvars(ctx), timeout=P.timeout,
                           fast=P.fast)
        if os.environ.get('SYMJAX_SLOW') and time.time() - t0 > 1:
          print('SLOW', P.name, l, r, round(time.time() - t0, 1), file=sys.stderr, flush=True)
        if r == 'unsat':
          res['discharged'] += 1
          continue
        v = _counterexample(P, ctx, ins, out, l, m if r == 'sat' else None, consts, res)
        if v is True:
          res['discharged'] += 1
          res['tol_discharged'] += 1
        elif v is None:
          res['unknown'].append(f'{l}: {"sat but not reproduced" if r == "sat" else "solver unknown"}')
        else:
          viol.append(v)
      res['notes'] = sorted(set(res['notes']) | ctx.notes)
      if viol and len({v['label'] for v in viol}) >= 1 and not P.known:
        break
      if len(viol) > 3:
        break
    finally:
      V.set_ctx(None)
  res['primitives'] = sorted(prims)
  res['covers'] = cov_hit
  if not viol and res['paths'] and not vac:
    res['unknown'].append('vacuity: no satisfiable path found')
  if not viol and not res['paths'] and not res['cut']:
    res['unknown'].append('vacuity: no path')
  for l, h in cov_hit.items():
    if not h and not viol:
      res['unknown'].append(f'cover not reached: {l}')
  if viol:
    res['status'] = 'violation'
    res['violations'] = viol
  elif res['unknown']:
    res['status'] = 'unknown'


def _ufvars(ctx):
  return list(ctx.allfresh)


def _label_claim(claims, label):
  for l, c in claims:
    if l == label:
      return _ub(c)
  return True


def _counterexample(P, ctx, ins, out, label, model, consts, res):
  """Returns a violation dict, True (holds up to 1e-6 in the box), or None."""
  uv = _ufvars(ctx)
  if model is not None:
    v = try_replay(P, ctx, label, model)
    if v:
      return v
  box = []
  uvals = {x.decl().name() for tab in ctx.ufs.values() for _, vals in tab
           for arr in vals.values() for x in arr.ravel()
           if isinstance(x, z3.ExprRef) and z3.is_const(x)}
  for c in consts + [u for u in uv if u.decl().name() in uvals]:
    if z3.is_real(c):
      box += [c <= P.box, c >= -P.box]
  for mg, lim in ((Fraction(1, 10), P.timeout / 2), (Fraction(1, 1000), P.timeout / 2),
                  (Fraction(1, 10 ** 6), P.timeout)):
    c = _label_claim(P.claim(S(ctx, margin=mg), ins, out), label)
    r, m = solve.check(ctx.formulas(Not(c), box), consts + uv, timeout=lim, fast=P.fast)
    if r == 'sat':
      v = try_replay(P, ctx, label, m)
      if v:
        return v
    if r == 'unsat' and mg == Fraction(1, 10 ** 6) and model is not None:
      res['notes'] = sorted(set(res['notes']) | {
          f'{label}: discharged up to 1e-6 for inputs in [-{P.box}, {P.box}]'})
      return True
  return _partial_search(P, ctx, ins, out, label, consts, uv, box)


GRID = [Fraction(a, b) for a, b in ((0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (2, 1), (-2, 1),
                                    (3, 1), (-3, 1), (1, 4), (3, 2), (-3, 2), (1, 10))]


def _partial_search(P, ctx, ins, out, label, consts, uv, box):
  """The full query is undecided: ask for counterexamples with a random subset
  of the inputs fixed (still symbolic in the rest)."""
  if P.searches <= 0:
    return None
  rng = random.Random(hash(label) % 1000 if False else len(label))
  c = _label_claim(P.claim(S(ctx, margin=Fraction(1, 1000)), ins, out), label)
  reals = [v for v in consts if z3.is_real(v)]
  for t in range(10):
    P.searches -= 1
    frac = (0.5, 0.7, 0.9)[t % 3]
    fix = [v == z3.RealVal(str(rng.choice(GRID))) for v in reals if rng.random() < frac]
    r, m = solve.check(ctx.formulas(Not(c), box + fix), consts + uv, timeout=4.0, fast=1.0)
    if r == 'sat':
      v = try_replay(P, ctx, label, m)
      if v:
        return v
  return None


def try_replay(P, ctx, label, model):
  """Replays a model on the real code in float64."""
  def getter(n, q, e, s):
    nm = f'{n}_{q}' + ''.join(f'_{k}' for k in e)
    v = model.get(nm, F0)
    if s.kind == 'f':
      return R(Fraction(v))
    if s.kind == 'i':
      return int(v)
    return bool(v)
  vals = conc_inputs(P, getter)
  for n in vals:
    for l in jax.tree_util.tree_leaves(vals[n]):
      for e in np.asarray(l, dtype=object).ravel():
        if isinstance(e, R) and abs(e.v) > 10 ** 9:
          return None
  fl, ex = to_float_inputs(P, vals)
  table = uf_table(ctx, model)
  install_table(table)
  old = V.cur()
  V.set_ctx(None)
  try:
    try:
      o = run_real(P, fl)
      oc = real_outputs(o)
    except Exception as e:
      return dict(label=label, detail=f'real code raised {type(e).__name__}: {e}'[:500],
                  inputs=jsonable(fl), uf=table)
    V.set_ctx(old)
    ok = _label_claim(P.claim(S(None, tol=P.tol), ex, oc), label)
    if not isconc(ok):
      # concrete evaluation introduced definitional variables
      return None
    if ok:
      return None
    return dict(label=label, inputs=jsonable(fl), outputs=jsonable(o), uf=table)
  finally:
    V.set_ctx(old)


def uf_table(ctx, model):
  t = {}
  def ev(x):
    if conc(x):
      return float(x)
    e = z3.simplify(z3.substitute(x, *[
        (z3.Real(k), z3.RealVal(str(v))) for k, v in model.items()
        if not isinstance(v, bool)]))
    try:
      return float(solve._val(e))
    except Exception:
      return None
  for name, tab in ctx.ufs.items():
    rows = []
    for args, vals in tab:
      a = [ev(x) for x in args]
      if any(x is None for x in a):
        # the argument depends on defined symbols: evaluated lazily on replay
        a = None
      rows.append(dict(args=a, vals={str(o): [ev(x) if isinstance(x, z3.ExprRef) else float(x)
                                              for x in arr.ravel()]
                                     for o, arr in vals.items()}))
    t[name] = rows
  return t


def install_table(table):
  for name, rows in table.items():
    def f(order, x, rows=rows):
      best, bd = None, None
      for r in rows:
        if r['args'] is None:
          continue
        d = float(np.max(np.abs(np.asarray(r['args']) - x))) if len(x) else 0.0
        if str(order) in r['vals'] and (bd is None or d < bd):
          best, bd = r, d
      if best is None:
        for r in rows:
          if str(order) in r['vals']:
            best = r
      if best is None:
        return 0.0 * sum(x) if order == 0 else np.zeros(len(x) ** order)
      v = np.asarray(best['vals'][str(order)], dtype=float)
      return v
    U.TABLE[name] = f


def jsonable(t):
  def f(x):
    if jax.dtypes.issubdtype(getattr(x, 'dtype', np.dtype(float)), jax.dtypes.extended):
      return str(x)
    x = np.asarray(x)
    if x.dtype == jax.dtypes.float0:
      return 'float0'
    return x.tolist()
  l, tr = jax.tree_util.tree_flatten(t)
  try:
    r = jax.tree_util.tree_unflatten(tr, [f(x) for x in l])
    json.dumps(r)
    return r
  except Exception:
    return [f(x) for x in l]


def count_eqns(jaxpr):
  n = 0
  for e in jaxpr.eqns:
    n += 1
    for v in e.params.values():
      for j in (v if isinstance(v, (tuple, list)) else (v,)):
        if hasattr(j, 'jaxpr') and hasattr(j.jaxpr, 'eqns'):
          n += count_eqns(j.jaxpr)
        elif hasattr(j, 'eqns'):
          n += count_eqns(j)
  return n
