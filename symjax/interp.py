"""Symbolic interpreter for jaxprs.

Every array is a numpy object array whose elements are R (floats), Python int /
z3 Int (integers) or Python bool / z3 Bool (booleans); arrays of extended dtype
(PRNG keys) stay raw.  Data-movement primitives are run by JAX itself on index
arrays, so that their semantics is JAX's own.
"""
import functools
import math
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax
from jax.extend import core as jcore
from jax._src import core as _core
import z3
from . import val as V
from .val import (R, R_, And, Or, Not, Implies, Iff, BIte, conc, isconc, rite, ite,
                  F0, F1, ZERO, ONE, NAN, PINF, NINF)
from .ctx import Unsupported, UnwindLimit, Infeasible

RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


class Raw:
  """Array of an extended dtype, kept as is."""

  def __init__(self, x):
    self.x = x


def kind(dtype):
  if jax.dtypes.issubdtype(dtype, jax.dtypes.extended):
    return 'e'
  if dtype == jax.dtypes.float0:
    return '0'
  if jnp.issubdtype(dtype, jnp.floating):
    return 'f'
  if jnp.issubdtype(dtype, jnp.bool_):
    return 'b'
  if jnp.issubdtype(dtype, jnp.integer):
    return 'i'
  raise Unsupported(f'dtype {dtype}')


def from_np(x):
  if isinstance(x, Raw):
    return x
  dt = getattr(x, 'dtype', None)
  if dt is not None and jax.dtypes.issubdtype(dt, jax.dtypes.extended):
    return Raw(x)
  x = np.asarray(x)
  out = np.empty(x.shape, dtype=object)
  k = kind(x.dtype)
  if k == '0':
    out[...] = False
    return out
  it = np.nditer(x, flags=['multi_index', 'refs_ok', 'zerosize_ok'])
  for e in (np.ndindex(*x.shape) if x.size else ()):
    v = x[e]
    out[e] = R_(float(v)) if k == 'f' else (bool(v) if k == 'b' else int(v))
  return out


def econc(e):
  if isinstance(e, R):
    return e.concrete
  return not isinstance(e, z3.ExprRef)


def is_concrete(a):
  if isinstance(a, Raw):
    return True
  return all(econc(e) for e in a.ravel())


def to_np(a, dtype):
  if isinstance(a, Raw):
    return a.x
  k = kind(dtype)
  if k == '0':
    return np.zeros(a.shape, dtype=jax.dtypes.float0)
  out = np.empty(a.shape, dtype=np.dtype(dtype))
  for e in np.ndindex(*a.shape):
    out[e] = V.tofloat(a[e]) if k == 'f' else a[e]
  return out


def full(shape, e):
  out = np.empty(shape, dtype=object)
  out[...] = e
  return out


def omap(f, *arrs):
  shape = np.broadcast_shapes(*[a.shape for a in arrs])
  arrs = [a if a.shape == shape else np.broadcast_to(a, shape) for a in arrs]
  out = np.empty(shape, dtype=object)
  for e in np.ndindex(*shape):
    out[e] = f(*[a[e] for a in arrs])
  return out


# ------------------------------------------------------------ evaluation
def eval_closed(ctx, cj, args):
  return eval_jaxpr(ctx, cj.jaxpr, [from_np(c) for c in cj.consts], args)


def eval_jaxpr(ctx, jaxpr, consts, args):
  env = {}

  def read(v):
    if isinstance(v, _core.Literal):
      return from_np(v.val if hasattr(v.val, 'dtype')
                     else np.asarray(v.val, dtype=v.aval.dtype))
    return env[v]

  for v, c in zip(jaxpr.constvars, consts):
    env[v] = c
  assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
  for v, a in zip(jaxpr.invars, args):
    env[v] = a
  for eqn in jaxpr.eqns:
    ins = [read(v) for v in eqn.invars]
    outs = eval_eqn(ctx, eqn.primitive, eqn.params, ins,
                    [v.aval for v in eqn.invars], [v.aval for v in eqn.outvars])
    for v, o in zip(eqn.outvars, outs):
      env[v] = o
  return [read(v) for v in jaxpr.outvars]


CALLS = {'pjit', 'jit', 'closed_call', 'core_call', 'remat', 'remat2', 'checkpoint',
         'custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr',
         'xla_call', 'custom_lin', 'run_state', 'named_call'}


def eval_eqn(ctx, prim, params, ins, in_avals, out_avals):
  name = prim.name
  ctx.prims = getattr(ctx, 'prims', set())
  ctx.prims.add(name)
  for o in out_avals:
    pass
  if name in CALLS or (name not in RULES and
                       any(k in params for k in ('call_jaxpr', 'fun_jaxpr'))):
    j = params.get('jaxpr', params.get('call_jaxpr', params.get('fun_jaxpr')))
    if j is None:
      raise Unsupported(f'{name} {list(params)}')
    if hasattr(j, 'consts'):
      return eval_closed(ctx, j, ins)
    return eval_jaxpr(ctx, j, [], ins)
  allconc = all(is_concrete(a) for a in ins)
  floats = any(kind(a.dtype) == 'f' for a in list(in_avals) + list(out_avals))
  if allconc and (not floats or name not in RULES) and name not in (
      'while', 'cond', 'scan', 'symuf', 'pure_callback'):
    return concrete_eval(prim, params, ins, in_avals)
  r = RULES.get(name)
  if r is None:
    raise Unsupported(f'primitive {name} on symbolic values')
  outs = r(ctx, params, ins, in_avals, out_avals, prim)
  if not isinstance(outs, list):
    outs = [outs]
  for o, av in zip(outs, out_avals):
    if o is None:
      raise AssertionError(f'{name}: missing output {params.keys()}')
    if not isinstance(o, Raw) and tuple(o.shape) != tuple(av.shape):
      raise AssertionError(f'{name}: shape {o.shape} vs {av.shape}')
  return outs


def concrete_eval(prim, params, ins, in_avals):
  args = []
  for a, av in zip(ins, in_avals):
    x = to_np(a, av.dtype)
    args.append(x if isinstance(a, Raw) else jnp.asarray(x, dtype=av.dtype))
  with jax.ensure_compile_time_eval():
    out = prim.bind(*args, **params)
  if not prim.multiple_results:
    out = [out]
  return [from_np(o) for o in out]


# ------------------------------------------------------------ elementwise
def elementwise(name, f=None, i=None, b=None):
  def r(ctx, params, ins, in_avals, out_avals, prim):
    k = kind(in_avals[0].dtype)
    fn = {'f': f, 'i': i, 'b': b}[k]
    if fn is None:
      raise Unsupported(f'{name} on {in_avals[0].dtype}')
    return omap(fn, *ins)
  RULES[name] = r


def idiv(a, b):
  if V.iconc(a) and V.iconc(b):
    q = abs(int(a)) // abs(int(b)) if int(b) else 0
    return q if (int(a) >= 0) == (int(b) > 0) else -q
  a, b = V.iz(a), V.iz(b)
  q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
  return z3.If((a >= 0) == (b >= 0), q, -q)


def irem(a, b):
  if V.iconc(a) and V.iconc(b):
    return int(math.fmod(int(a), int(b))) if int(b) else int(a)
  a, b = V.iz(a), V.iz(b)
  bb = z3.If(b >= 0, b, -b)
  return z3.If(a >= 0, a % bb, -((-a) % bb))


def imax(a, b):
  return V.iite(V.ile(b, a), a, b)


def imin(a, b):
  return V.iite(V.ile(a, b), a, b)


def iop(f):
  def g(*xs):
    if all(V.iconc(x) for x in xs):
      return f(*[int(x) for x in xs])
    return f(*[V.iz(x) for x in xs])
  return g


def fdiv(a, b):
  return V.rdiv(a, b)


def rrem(a, b):
  q = V.rdiv(a, b)
  t = rtrunc(q)
  return V.rsub(a, V.rmul(t, b))


def rfloor(a):
  if a.concrete:
    return R(Fraction(math.floor(a.v)), a.nan, a.pinf, a.ninf)
  return R(z3.ToReal(z3.ToInt(V.zr(a.v))), a.nan, a.pinf, a.ninf)


def rceil(a):
  return V.rneg(rfloor(V.rneg(a)))


def rtrunc(a):
  return rite(V.rle(ZERO, a), rfloor(a), rceil(a))


def rround(a, params=None):
  if a.concrete:
    v = a.v
    f = math.floor(v)
    d = v - f
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and (f % 2 == 1)):
      f += 1
    return R(Fraction(f), a.nan, a.pinf, a.ninf)
  raise Unsupported('round')


def funvar(name, pyf):
  def f(*a):
    if all(x.concrete for x in a):
      try:
        return R_(float(pyf(*[V.tofloat(x) for x in a])))
      except (ValueError, OverflowError, ZeroDivisionError):
        return NAN
    return R(V.cur().fun_var(name, [x.v for x in a]), Or(*[x.nan for x in a]))
  return f


def rlogistic(a):
  if a.concrete:
    x = V.tofloat(a)
    return R_(1 / (1 + math.exp(-x))) if x > -700 else ZERO
  e = V.rexp(V.rneg(a))
  return V.rdiv(ONE, V.radd(ONE, e))


def rtanh(a):
  if a.concrete:
    return R_(math.tanh(V.tofloat(a)))
  e = V.rexp(V.radd(a, a))
  return V.rdiv(V.rsub(e, ONE), V.radd(e, ONE))


def rlog1p(a):
  if a.concrete:
    x = V.tofloat(a)
    return R_(math.log1p(x)) if x > -1 else (NINF if x == -1 else NAN)
  return V.rlog(V.radd(ONE, a))


def rpow(a, b):
  if b.concrete and b.isfinite:
    if b.v.denominator == 1:
      return V.rpowi(a, int(b.v))
    if b.v.denominator == 2:
      s = V.rsqrt_(a)
      return V.rpowi(s, int(b.v.numerator))
  if a.concrete and b.concrete:
    return R_(V.tofloat(a) ** V.tofloat(b))
  if a.concrete and a.v > 0:
    return V.rexp(V.rmul(V.rlog(a), b))
  raise Unsupported('pow with a symbolic base and a non half-integer exponent')


elementwise('add', V.radd, iop(lambda a, b: a + b), Or)
elementwise('add_any', V.radd, iop(lambda a, b: a + b))
elementwise('sub', V.rsub, iop(lambda a, b: a - b))
elementwise('mul', V.rmul, iop(lambda a, b: a * b), And)
elementwise('div', fdiv, idiv)
elementwise('rem', rrem, irem)
elementwise('max', V.rmax, imax, Or)
elementwise('min', V.rmin, imin, And)
elementwise('neg', V.rneg, iop(lambda a: -a))
elementwise('abs', V.rabs, lambda a: imax(a, -a))
elementwise('sign', V.rsign, lambda a: V.iite(V.ilt(0, a), 1, V.iite(V.ilt(a, 0), -1, 0)))
elementwise('floor', rfloor)
elementwise('ceil', rceil)
elementwise('sqrt', V.rsqrt_)
elementwise('rsqrt', lambda a: V.rdiv(ONE, V.rsqrt_(a)))
elementwise('square', lambda a: V.rmul(a, a), iop(lambda a: a * a))
elementwise('exp', V.rexp)
elementwise('exp2', lambda a: V.rexp(V.rmul(a, R_(math.log(2)))))
elementwise('log', V.rlog)
elementwise('log1p', rlog1p)
elementwise('expm1', lambda a: V.rsub(V.rexp(a), ONE))
elementwise('logistic', rlogistic)
elementwise('tanh', rtanh)
elementwise('sin', funvar('sin', math.sin))
elementwise('cos', funvar('cos', math.cos))
elementwise('atan', funvar('atan', math.atan))
elementwise('erf', funvar('erf', math.erf))
elementwise('cbrt', funvar('cbrt', np.cbrt))
elementwise('atan2', funvar('atan2', math.atan2))
elementwise('pow', rpow)
elementwise('is_finite', lambda a: a.isfinite)
elementwise('and', None, iop(lambda a, b: a & b), And)
elementwise('or', None, iop(lambda a, b: a | b), Or)
elementwise('not', None, iop(lambda a: ~a), Not)
elementwise('xor', None, iop(lambda a, b: a ^ b), lambda a, b: Not(Iff(a, b)))
elementwise('lt', V.rlt, V.ilt, lambda a, b: And(Not(a), b))
elementwise('le', V.rle, V.ile, lambda a, b: Or(Not(a), b))
elementwise('gt', lambda a, b: V.rlt(b, a), lambda a, b: V.ilt(b, a),
            lambda a, b: And(a, Not(b)))
elementwise('ge', lambda a, b: V.rle(b, a), lambda a, b: V.ile(b, a),
            lambda a, b: Or(a, Not(b)))
elementwise('eq', V.req, V.ieq, Iff)
elementwise('ne', lambda a, b: Not(V.req(a, b)), lambda a, b: Not(V.ieq(a, b)),
            lambda a, b: Not(Iff(a, b)))
elementwise('copy', lambda a: a, lambda a: a, lambda a: a)
elementwise('copy_p', lambda a: a, lambda a: a, lambda a: a)
elementwise('stop_gradient', lambda a: a, lambda a: a, lambda a: a)
elementwise('optimization_barrier', lambda a: a, lambda a: a, lambda a: a)
elementwise('reduce_precision', lambda a: a)
elementwise('real', lambda a: a)
elementwise('conj', lambda a: a)
elementwise('pvary', lambda a: a, lambda a: a, lambda a: a)
elementwise('device_put', lambda a: a, lambda a: a, lambda a: a)


@rule('device_put', 'optimization_barrier', 'sharding_constraint', 'copy', 'copy_p')
def _ident(ctx, params, ins, in_avals, out_avals, prim):
  return list(ins)


@rule('round')
def _round(ctx, params, ins, in_avals, out_avals, prim):
  return omap(rround, ins[0])


@rule('integer_pow')
def _ipow(ctx, params, ins, in_avals, out_avals, prim):
  y = params['y']
  if kind(in_avals[0].dtype) == 'i':
    def f(a):
      r = 1
      for _ in range(y):
        r = r * a
      return r
    return omap(f, ins[0])
  return omap(lambda a: V.rpowi(a, y), ins[0])


@rule('clamp')
def _clamp(ctx, params, ins, in_avals, out_avals, prim):
  lo, x, hi = ins
  if kind(in_avals[1].dtype) == 'f':
    return omap(lambda l, a, h: V.rmin(V.rmax(a, l), h), lo, x, hi)
  return omap(lambda l, a, h: imin(imax(a, l), h), lo, x, hi)


@rule('select_n')
def _select(ctx, params, ins, in_avals, out_avals, prim):
  w, cases = ins[0], ins[1:]
  if w.shape != cases[0].shape:
    w = np.broadcast_to(w, cases[0].shape)
  kb = kind(in_avals[0].dtype) == 'b'
  out = np.empty(cases[0].shape, dtype=object)
  for e in np.ndindex(*out.shape):
    c = w[e]
    if kb:
      if not isconc(c):
        a, b = cases[1][e], cases[0][e]
        if ctx.fork_select and not _same(a, b):
          c = ctx.decide(c)
      out[e] = ite(c, cases[1][e], cases[0][e])
    else:
      r = cases[-1][e]
      for i in range(len(cases) - 2, -1, -1):
        r = ite(V.ieq(c, i), cases[i][e], r)
      out[e] = r
  return out


def _same(a, b):
  if a is b:
    return True
  if isinstance(a, R) and isinstance(b, R):
    return a.plain and b.plain and V.veq(a.v, b.v) is True
  return False


@rule('convert_element_type')
def _convert(ctx, params, ins, in_avals, out_avals, prim):
  a, b = kind(in_avals[0].dtype), kind(out_avals[0].dtype)
  x = ins[0]
  if a == b:
    return x
  if a == 'b' and ctx.fork_select:
    x = omap(lambda e: e if isconc(e) else ctx.decide(e), x)
  if b == 'f':
    if a == 'b':
      return omap(lambda e: (ONE if e else ZERO) if isconc(e) else
                  rite(e, ONE, ZERO), x)
    return omap(lambda e: R_(e), x)
  if b == 'i':
    if a == 'b':
      return omap(lambda e: V.iite(e, 1, 0), x)

    def f(e):
      if e.concrete:
        return int(e.v)
      return z3.If(e.v >= 0, z3.ToInt(e.v), -z3.ToInt(-e.v))
    return omap(f, x)
  if b == 'b':
    if a == 'f':
      return omap(lambda e: Not(V.req(e, ZERO)), x)
    return omap(lambda e: Not(V.ieq(e, 0)), x)
  raise Unsupported('convert')


# ------------------------------------------------------------ data movement
def _move(ctx, params, ins, in_avals, out_avals, prim, ndata=1):
  """Run the primitive on index arrays.  ins[:ndata] carry data, the remaining
  inputs must be concrete."""
  pool = []
  args = []
  for a in ins[:ndata]:
    ids = np.arange(len(pool), len(pool) + a.size, dtype=np.int32).reshape(a.shape)
    pool.extend(a.ravel())
    args.append(jnp.asarray(ids))
  for a, av in zip(ins[ndata:], in_avals[ndata:]):
    if not is_concrete(a):
      raise Unsupported(f'{prim.name} with symbolic control operand')
    args.append(jnp.asarray(to_np(a, av.dtype)))
  with jax.ensure_compile_time_eval():
    out = np.asarray(prim.bind(*args, **params))
  res = np.empty(out.shape, dtype=object)
  for e in np.ndindex(*out.shape):
    res[e] = pool[out[e]]
  return res


for _n in ('reshape', 'broadcast_in_dim', 'transpose', 'slice', 'rev', 'squeeze',
           'expand_dims'):
  RULES[_n] = lambda ctx, p, i, ia, oa, pr: _move(ctx, p, i, ia, oa, pr, 1)
RULES['concatenate'] = lambda ctx, p, i, ia, oa, pr: _move(ctx, p, i, ia, oa, pr, len(i))
RULES['pad'] = lambda ctx, p, i, ia, oa, pr: _move(ctx, p, i, ia, oa, pr, 2)


@rule('split')
def _split(ctx, params, ins, in_avals, out_avals, prim):
  ax, sizes = params['axis'], params['sizes']
  return list(np.split(ins[0], np.cumsum(sizes)[:-1], axis=ax))


def _enum_index(ctx, e, lo, hi):
  """Possible values of a symbolic int, clamped to [lo, hi]."""
  if V.iconc(e):
    return [(True, int(min(max(int(e), lo), hi)))]
  out = []
  for k in range(lo, hi + 1):
    if k == lo and k == hi:
      c = True
    elif k == lo:
      c = V.ile(e, lo)
    elif k == hi:
      c = V.ile(hi, e)
    else:
      c = V.ieq(e, k)
    out.append((c, k))
  return out


def _combos(lists):
  if not lists:
    return [(True, ())]
  rest = _combos(lists[1:])
  return [(And(c, c2), (k,) + t) for c, k in lists[0] for c2, t in rest]


@rule('dynamic_slice')
def _dynamic_slice(ctx, params, ins, in_avals, out_avals, prim):
  x, starts = ins[0], [s[()] for s in ins[1:]]
  sizes = params['slice_sizes']
  lists = [_enum_index(ctx, s, 0, d - z) for s, d, z in zip(starts, x.shape, sizes)]
  out = None
  for c, t in reversed(_combos(lists)):
    piece = x[tuple(slice(k, k + z) for k, z in zip(t, sizes))]
    out = piece if out is None else omap(lambda a, b: ite(c, a, b), piece, out)
  return out


@rule('dynamic_update_slice')
def _dus(ctx, params, ins, in_avals, out_avals, prim):
  x, u, starts = ins[0], ins[1], [s[()] for s in ins[2:]]
  lists = [_enum_index(ctx, s, 0, d - z) for s, d, z in zip(starts, x.shape, u.shape)]
  out = None
  for c, t in reversed(_combos(lists)):
    piece = x.copy()
    piece[tuple(slice(k, k + z) for k, z in zip(t, u.shape))] = u
    out = piece if out is None else omap(lambda a, b: ite(c, a, b), piece, out)
  return out


def _mode(params):
  m = params.get('mode')
  return str(m).split('.')[-1] if m is not None else 'CLIP'


@rule('gather')
def _gather(ctx, params, ins, in_avals, out_avals, prim):
  x, idx = ins
  dn = params['dimension_numbers']
  ss = params['slice_sizes']
  # fill value support: append one element
  fillv = params.get('fill_value')
  k = kind(in_avals[0].dtype)
  fill = (NAN if k == 'f' else (True if k == 'b' else -2 ** 31)) if fillv is None else (
      R_(fillv) if k == 'f' else fillv)
  ids = jnp.arange(x.size, dtype=jnp.int32).reshape(x.shape)
  p2 = dict(params)
  p2['fill_value'] = -1
  flat = list(x.ravel())

  def run(ci):
    with jax.ensure_compile_time_eval():
      o = np.asarray(prim.bind(ids, jnp.asarray(ci, dtype=in_avals[1].dtype), **p2))
    r = np.empty(o.shape, dtype=object)
    for e in np.ndindex(*o.shape):
      r[e] = flat[o[e]] if o[e] >= 0 else fill
    return r

  if is_concrete(idx):
    return run(to_np(idx, in_avals[1].dtype))
  batch_shape = idx.shape[:-1]
  out_rank = len(out_avals[0].shape)
  bdims = [d for d in range(out_rank) if d not in dn.offset_dims]
  out = np.empty(out_avals[0].shape, dtype=object)
  for b in np.ndindex(*batch_shape):
    row = idx[b]
    lists = []
    for j, d in enumerate(dn.start_index_map):
      hi = x.shape[d] - ss[d]
      e = row[j]
      if V.iconc(e):
        lists.append([(True, int(e))])
      elif _mode(params) in ('FILL_OR_DROP',):
        l = [(V.ieq(e, q), q) for q in range(0, hi + 1)]
        l = [(c, q) for c, q in l if ctx.feasible(c)]
        oob = Or(V.ilt(e, 0), V.ilt(hi, e))
        if ctx.feasible(oob):
          l.append((oob, hi + 1))
        lists.append(l)
      else:
        l = _enum_index(ctx, e, 0, hi)
        lists.append([(c, q) for c, q in l if ctx.feasible(c)] or l)
    sel = [slice(None)] * out_rank
    for d, v in zip(bdims, b):
      sel[d] = v
    sel = tuple(sel)
    acc = None
    for c, t in reversed(_combos(lists)):
      ci = np.zeros(idx.shape, dtype=np.int64)
      ci[b] = t
      piece = run(ci)[sel]
      piece = np.asarray(piece, dtype=object)
      acc = piece if acc is None else omap(lambda a, bb: ite(c, a, bb), piece, acc)
    if acc is None:
      raise Infeasible()
    if out[sel].__class__ is np.ndarray:
      out[sel] = acc
    else:
      out[sel] = acc[()]
  return out


def _scatter(ctx, params, ins, in_avals, out_avals, prim, op):
  x, idx, upd = ins
  dn = params['dimension_numbers']
  urank = upd.ndim
  bdims = [d for d in range(urank) if d not in dn.update_window_dims]
  batch_shape = idx.shape[:-1]
  ids = jnp.arange(x.size, dtype=jnp.int32).reshape(x.shape)
  p2 = dict(params)
  p2['update_jaxpr'] = None
  p2['update_consts'] = ()
  out = x.copy()
  for b in np.ndindex(*batch_shape):
    row = idx[b]
    lists = []
    for j, d in enumerate(dn.scatter_dims_to_operand_dims):
      e = row[j]
      if V.iconc(e):
        lists.append([(True, int(e))])
      else:
        l = [(V.ieq(e, q), q) for q in range(0, x.shape[d])]
        l = [(c, q) for c, q in l if ctx.feasible(c)]
        oob = Or(V.ilt(e, 0), V.ilt(x.shape[d] - 1, e))
        if ctx.feasible(oob):
          if _mode(params) in ('CLIP',):
            raise Unsupported('scatter clip with symbolic index out of range')
          l.append((oob, x.shape[d] + 7))
        lists.append(l)
    # restrict to one row: point all the other rows out of bounds
    acc = None
    for c, t in reversed(_combos(lists)):
      ci = np.full(idx.shape, 10 ** 6, dtype=np.int64)
      ci[b] = t
      uids = np.full(upd.shape, -1, dtype=np.int32)
      selu = [slice(None)] * urank
      for d, v in zip(bdims, b):
        selu[d] = v
      selu = tuple(selu)
      base = x.size
      sub = upd[selu]
      n = sub.size if isinstance(sub, np.ndarray) else 1
      uids[selu] = (base + np.arange(n)).reshape(np.shape(uids[selu]))
      subl = list(sub.ravel()) if isinstance(sub, np.ndarray) else [sub]
      if len(row) == 0:
        ci = np.zeros(idx.shape, dtype=np.int64)
      with jax.ensure_compile_time_eval():
        o = np.asarray(lax.scatter_p.bind(
            ids, jnp.asarray(ci, dtype=jnp.int32), jnp.asarray(uids),
            **dict(p2, mode=jax.lax.GatherScatterMode.FILL_OR_DROP
                   if _mode(params) != 'CLIP' or len(list(np.ndindex(*batch_shape))) > 1
                   else params['mode'])))
      piece = out.copy()
      for e in np.ndindex(*o.shape):
        if o[e] >= base:
          piece[e] = op(out[e], subl[o[e] - base])
      acc = piece if acc is None else omap(lambda a, bb: ite(c, a, bb), piece, acc)
    if acc is None:
      raise Infeasible()
    out = acc
  return out


RULES['scatter'] = lambda *a: _scatter(*a, op=lambda o, u: u)
def _addop(o, u):
  return V.radd(o, u) if isinstance(o, R) else iop(lambda a, b: a + b)(o, u)
RULES['scatter-add'] = RULES['scatter_add'] = lambda *a: _scatter(*a, op=_addop)
RULES['scatter-mul'] = RULES['scatter_mul'] = lambda *a: _scatter(
    *a, op=lambda o, u: V.rmul(o, u) if isinstance(o, R) else o * u)
RULES['scatter-max'] = RULES['scatter_max'] = lambda *a: _scatter(
    *a, op=lambda o, u: V.rmax(o, u) if isinstance(o, R) else imax(o, u))
RULES['scatter-min'] = RULES['scatter_min'] = lambda *a: _scatter(
    *a, op=lambda o, u: V.rmin(o, u) if isinstance(o, R) else imin(o, u))


@rule('iota')
def _iota(ctx, params, ins, in_avals, out_avals, prim):
  return concrete_eval(prim, params, ins, in_avals)


# ------------------------------------------------------------ reductions
def _reduce(name, f, i, b, init):
  def r(ctx, params, ins, in_avals, out_avals, prim):
    x = ins[0]
    axes = tuple(params['axes'])
    k = kind(in_avals[0].dtype)
    fn = {'f': f, 'i': i, 'b': b}[k]
    keep = [d for d in range(x.ndim) if d not in axes]
    y = np.transpose(x, keep + list(axes)).reshape(
        tuple(x.shape[d] for d in keep) + (-1,))
    out = np.empty(y.shape[:-1], dtype=object)
    for e in np.ndindex(*out.shape):
      vals = list(y[e])
      if not vals:
        out[e] = init[k]
        continue
      acc = vals[0]
      for v in vals[1:]:
        acc = fn(acc, v)
      out[e] = acc
    return out
  RULES[name] = r


_reduce('reduce_sum', V.radd, iop(lambda a, b: a + b), None, dict(f=ZERO, i=0))
_reduce('reduce_prod', V.rmul, iop(lambda a, b: a * b), None, dict(f=ONE, i=1))
_reduce('reduce_max', V.rmax, imax, Or, dict(f=NINF, i=-2 ** 31, b=False))
_reduce('reduce_min', V.rmin, imin, And, dict(f=PINF, i=2 ** 31 - 1, b=True))
_reduce('reduce_and', None, None, And, dict(b=True))
_reduce('reduce_or', None, None, Or, dict(b=False))


def _arg(name, better):
  def r(ctx, params, ins, in_avals, out_avals, prim):
    x = ins[0]
    (ax,) = params['axes']
    y = np.moveaxis(x, ax, -1)
    out = np.empty(y.shape[:-1], dtype=object)
    k = kind(in_avals[0].dtype)
    for e in np.ndindex(*out.shape):
      row = list(y[e])
      bi, bv = 0, row[0]
      for j in range(1, len(row)):
        if k == 'f':
          c = Or(better(row[j], bv), And(row[j].nan, Not(bv.nan)))
        elif k == 'b':
          c = And(row[j], Not(bv)) if name == 'argmax' else And(Not(row[j]), bv)
        else:
          c = V.ilt(bv, row[j]) if name == 'argmax' else V.ilt(row[j], bv)
        c = V._dec(c)
        bi, bv = V.iite(c, j, bi), ite(c, row[j], bv)
      out[e] = bi
    return out
  RULES[name] = r


_arg('argmax', lambda a, b: V.rlt(b, a))
_arg('argmin', lambda a, b: V.rlt(a, b))


def _cum(name, f, i):
  def r(ctx, params, ins, in_avals, out_avals, prim):
    x = ins[0]
    fn = f if kind(in_avals[0].dtype) == 'f' else i
    ax = params['axis']
    y = np.moveaxis(x, ax, 0)
    if params.get('reverse'):
      y = y[::-1]
    out = y.copy()
    for j in range(1, y.shape[0]):
      out[j] = omap(fn, out[j - 1] if y.ndim > 1 else np.asarray(out[j - 1], object),
                    y[j] if y.ndim > 1 else np.asarray(y[j], object)) if y.ndim > 1 else fn(out[j - 1], y[j])
    if params.get('reverse'):
      out = out[::-1]
    return np.moveaxis(out, 0, ax)
  RULES[name] = r


_cum('cumsum', V.radd, iop(lambda a, b: a + b))
_cum('cumprod', V.rmul, iop(lambda a, b: a * b))
_cum('cummax', V.rmax, imax)
_cum('cummin', V.rmin, imin)


@rule('dot_general')
def _dot(ctx, params, ins, in_avals, out_avals, prim):
  a, b = ins
  (lc, rc), (lb, rb) = params['dimension_numbers']
  lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
  rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
  A = np.transpose(a, list(lb) + lf + list(lc))
  B = np.transpose(b, list(rb) + rf + list(rc))
  bs = A.shape[:len(lb)]
  ms, ns = tuple(a.shape[d] for d in lf), tuple(b.shape[d] for d in rf)
  K = int(np.prod([a.shape[d] for d in lc], dtype=int))
  M, N = int(np.prod(ms, dtype=int)), int(np.prod(ns, dtype=int))
  A = A.reshape((-1, M, K)) if bs else A.reshape((1, M, K))
  B = B.reshape((-1, N, K)) if bs else B.reshape((1, N, K))
  fl = kind(out_avals[0].dtype) == 'f'
  out = np.empty((A.shape[0], M, N), dtype=object)
  for q in range(A.shape[0]):
    for i in range(M):
      for j in range(N):
        if fl:
          acc = ZERO
          for k in range(K):
            acc = V.radd(acc, V.rmul(R_(A[q, i, k]), R_(B[q, j, k])))
        else:
          acc = 0
          for k in range(K):
            acc = acc + V.iz(A[q, i, k]) * V.iz(B[q, j, k])
        out[q, i, j] = acc
  return out.reshape(tuple(bs) + ms + ns)


@rule('conv_general_dilated', 'reduce_window', 'reduce_window_sum', 'select_and_scatter_add')
def _unsup(ctx, params, ins, in_avals, out_avals, prim):
  if prim.name == 'reduce_window_sum':
    return _onehot_linear(ctx, params, ins, in_avals, out_avals, prim)
  raise Unsupported(prim.name)


def _onehot_linear(ctx, params, ins, in_avals, out_avals, prim):
  x = ins[0]
  out = full(out_avals[0].shape, ZERO)
  for e in np.ndindex(*x.shape):
    h = np.zeros(x.shape, dtype=np.float64)
    h[e] = 1
    with jax.ensure_compile_time_eval():
      o = np.asarray(prim.bind(jnp.asarray(h), **params))
    out = omap(lambda a, w: V.radd(a, V.rmul(x[e], R_(float(w)))) if w else a, out,
               np.asarray(o, dtype=object))
  return out


# ------------------------------------------------------------ sorting
def _total_lt(a, b):
  """Sort order of lax.sort: NaN last, -0 == 0."""
  if isinstance(a, R):
    if a.plain and b.plain:
      return V.vlt(a.v, b.v)
    return Or(V.rlt(a, b), And(Not(a.nan), b.nan))
  if isconc(a) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)):
    return And(Not(a), b)
  return V.ilt(a, b)


def _lex_lt(xs, ys):
  c = False
  for a, b in zip(reversed(xs), reversed(ys)):
    lt, gt = _total_lt(a, b), _total_lt(b, a)
    c = Or(lt, And(Not(gt), c))
  return c


@rule('sort')
def _sort(ctx, params, ins, in_avals, out_avals, prim):
  ax, nk = params['dimension'], params['num_keys']
  arrs = [np.moveaxis(a, ax, -1).copy() for a in ins]
  n = arrs[0].shape[-1]
  for e in np.ndindex(*arrs[0].shape[:-1]):
    rows = [[a[e][j] for a in arrs] for j in range(n)]
    # stable insertion network
    for i in range(1, n):
      for j in range(i, 0, -1):
        c = V._dec(_lex_lt(rows[j][:nk], rows[j - 1][:nk]))
        if isconc(c):
          if not c:
            break
          rows[j], rows[j - 1] = rows[j - 1], rows[j]
        else:
          hi = [ite(c, q, p) for p, q in zip(rows[j], rows[j - 1])]
          lo = [ite(c, q, p) for p, q in zip(rows[j - 1], rows[j])]
          rows[j], rows[j - 1] = hi, lo
    for j in range(n):
      for a, r in zip(arrs, rows[j]):
        a[e + (j,)] = r
  return [np.moveaxis(a, -1, ax) for a in arrs]


@rule('top_k')
def _top_k(ctx, params, ins, in_avals, out_avals, prim):
  k = params['k']
  ax = params.get('axis', -1)
  x = np.moveaxis(ins[0], ax, -1)
  vals = np.empty(x.shape[:-1] + (k,), dtype=object)
  idxs = np.empty(x.shape[:-1] + (k,), dtype=object)
  for e in np.ndindex(*x.shape[:-1]):
    rows = [[x[e][j], j] for j in range(x.shape[-1])]
    n = len(rows)
    for i in range(1, n):
      for j in range(i, 0, -1):
        c = V._dec(_total_lt(rows[j - 1][0], rows[j][0]))
        if isconc(c):
          if not c:
            break
          rows[j], rows[j - 1] = rows[j - 1], rows[j]
        else:
          hi = [ite(c, q, p) for p, q in zip(rows[j], rows[j - 1])]
          lo = [ite(c, q, p) for p, q in zip(rows[j - 1], rows[j])]
          rows[j], rows[j - 1] = hi, lo
    for j in range(k):
      vals[e + (j,)], idxs[e + (j,)] = rows[j]
  return [np.moveaxis(vals, -1, ax), np.moveaxis(idxs, -1, ax)]


# ------------------------------------------------------------ control flow
@rule('while')
def _while(ctx, params, ins, in_avals, out_avals, prim):
  cn, bn = params['cond_nconsts'], params['body_nconsts']
  cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
  active = True
  it = 0
  while True:
    p = eval_closed(ctx, params['cond_jaxpr'], cc + carry)[0]
    if p.shape != ():
      # vmapped loop: runs while any example is active; an example whose
      # predicate is false keeps its carry
      pe = {}
      for e in np.ndindex(*p.shape):
        q = p[e]
        if not isconc(q):
          if ctx.fork_loops:
            q = ctx.decide(q)
          elif not ctx.feasible(q):
            q = False
        pe[e] = q
      if all(isconc(q) and not q for q in pe.values()):
        return carry
      if it >= ctx.unwind:
        raise UnwindLimit(f'while loop exceeds {ctx.unwind} iterations')
      new = eval_closed(ctx, params['body_jaxpr'], bc + carry)
      out = []
      for n, o in zip(new, carry):
        if isinstance(n, Raw) or isinstance(o, Raw):
          if not all(isconc(q) and q for q in pe.values()):
            raise Unsupported('batched while with an opaque carry')
          out.append(n)
          continue
        r = np.empty(n.shape, dtype=object)
        for i in np.ndindex(*n.shape):
          q = pe[i[:p.ndim]]
          r[i] = (n[i] if q else o[i]) if isconc(q) else ite(q, n[i], o[i])
        out.append(r)
      carry = out
      it += 1
      continue
    p = p[()]
    c = And(active, p)
    if not isconc(c):
      if ctx.fork_loops:
        c = ctx.decide(c)
      elif not ctx.feasible(c):
        c = False
    if isconc(c) and not c:
      return carry
    if it >= ctx.unwind:
      raise UnwindLimit(f'while loop exceeds {ctx.unwind} iterations')
    new = eval_closed(ctx, params['body_jaxpr'], bc + carry)
    if isconc(c):
      carry = new
    else:
      carry = [n if isinstance(n, Raw) else omap(lambda a, b: ite(c, a, b), n, o)
               for n, o in zip(new, carry)]
    active = c
    it += 1


@rule('cond')
def _cond(ctx, params, ins, in_avals, out_avals, prim):
  idx, ops = ins[0][()], ins[1:]
  br = params['branches']
  if isinstance(idx, z3.ExprRef) and z3.is_bool(idx):
    idx = V.iite(idx, 1, 0)
  if isinstance(idx, (bool, np.bool_)):
    idx = int(idx)
  if not V.iconc(idx) and ctx.fork_loops:
    for k in range(len(br) - 1):
      c = V.ile(idx, 0) if k == 0 else V.ieq(idx, k)
      if z3.is_app(idx) and idx.decl().kind() == z3.Z3_OP_ITE:
        c = z3.simplify(V.zb(c))
        c = True if z3.is_true(c) else (False if z3.is_false(c) else c)
      if ctx.decide(c):
        idx = k
        break
    else:
      idx = len(br) - 1
  if V.iconc(idx):
    k = min(max(int(idx), 0), len(br) - 1)
    return eval_closed(ctx, br[k], list(ops))
  outs = None
  for k in range(len(br) - 1, -1, -1):
    o = eval_closed(ctx, br[k], list(ops))
    if outs is None:
      outs = o
    else:
      c = V.ile(idx, 0) if k == 0 else V.ieq(idx, k)
      outs = [omap(lambda a, b: ite(c, a, b), n, p) for n, p in zip(o, outs)]
  return outs


@rule('scan')
def _scan(ctx, params, ins, in_avals, out_avals, prim):
  L = params['length']
  if 'ft_in' in params:
    consts, carry, xs = (list(t) for t in params['ft_in'].update(range(len(ins))).unpack())
    consts, carry, xs = ([ins[q] for q in t] for t in (consts, carry, xs))
    oc, oy = (list(t) for t in params['ft_out'].update(range(len(out_avals))).unpack())
  else:
    nc, nk = params['num_consts'], params['num_carry']
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    oc, oy = list(range(nk)), list(range(nk, len(out_avals)))
  jx = params['jaxpr']
  ny = len(oy)
  ys = [[None] * L for _ in range(ny)]
  order = range(L - 1, -1, -1) if params['reverse'] else range(L)
  for t in order:
    sl = []
    for x in xs:
      if isinstance(x, Raw):
        sl.append(Raw(x.x[t]))
      else:
        e = x[t]
        sl.append(e if isinstance(e, np.ndarray) else full((), e))
    out = eval_closed(ctx, jx, consts + carry + sl)
    carry = [out[q] for q in oc]
    for j in range(ny):
      ys[j][t] = out[oy[j]]
  res = [None] * len(out_avals)
  for q, c in zip(oc, carry):
    res[q] = c
  for j in range(ny):
    av = out_avals[oy[j]]
    a = np.empty(av.shape, dtype=object)
    for t in range(L):
      a[t] = ys[j][t] if ys[j][t].shape else ys[j][t][()]
    res[oy[j]] = a
  return res


# ------------------------------------------------------------ linear algebra
def _ekey(e):
  if isinstance(e, R):
    return tuple(_ekey(x) for x in (e.v, e.nan, e.pinf, e.ninf))
  if isinstance(e, z3.ExprRef):
    return ('t', e.get_id())
  return e


def _has_while(jaxpr):
  for e in jaxpr.eqns:
    if e.primitive.name == 'while':
      return True
    for v in jax.tree_util.tree_leaves(
        e.params, is_leaf=lambda x: hasattr(x, 'jaxpr') or hasattr(x, 'eqns')):
      sub = getattr(v, 'jaxpr', v)
      if hasattr(sub, 'eqns') and _has_while(sub):
        return True
  return False


def _spd(ctx, matvec, consts, avals):
  # the operator's matrix, column by column
  shapes = [a.shape for a in avals]
  cols = []
  for k, sh in enumerate(shapes):
    for e in np.ndindex(*sh):
      xs = [full(s, ZERO) for s in shapes]
      xs[k][e] = ONE
      cols.append([p for l in eval_closed(ctx, matvec, list(consts) + xs) for p in l.ravel()])
  n = len(cols)
  A = [[cols[j][i] for j in range(n)] for i in range(n)]
  out = [V.req(A[i][j], A[j][i]) for i in range(n) for j in range(i)]

  def det(M):
    if len(M) == 1:
      return M[0][0]
    s = ZERO
    for j in range(len(M)):
      t = V.rmul(M[0][j], det([r[:j] + r[j + 1:] for r in M[1:]]))
      s = V.radd(s, t) if j % 2 == 0 else V.rsub(s, t)
    return s
  for k in range(1, n + 1):
    out.append(V.rlt(ZERO, det([r[:k] for r in A[:k]])))
  return And(out)


def _known_matrix(ctx, matvec, consts, avals, b):
  """Solution when the operator is a known nonsingular matrix, else None."""
  n = sum(int(np.prod(a.shape)) for a in avals)
  if n > 16 or not all(isinstance(c, Raw) or is_concrete(c) for c in consts):
    return None
  cols = []
  for k, a in enumerate(avals):
    for e in np.ndindex(*a.shape):
      xs = [full(t.shape, ZERO) for t in avals]
      xs[k][e] = ONE
      col = [p for l in eval_closed(ctx, matvec, list(consts) + xs) for p in np.ravel(l)]
      if not all(isinstance(p, R) and isinstance(p.v, Fraction) and all(
          isconc(t) and not t for t in (p.nan, p.pinf, p.ninf)) for p in col):
        return None
      cols.append([p.v for p in col])
  A = [[cols[j][i] for j in range(n)] for i in range(n)]
  rhs = [p for l in b for p in np.ravel(l)]
  inv = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
  for k in range(n):
    q = next((r for r in range(k, n) if A[r][k] != 0), None)
    if q is None:
      return None
    A[k], A[q], inv[k], inv[q] = A[q], A[k], inv[q], inv[k]
    d = A[k][k]
    A[k] = [t / d for t in A[k]]
    inv[k] = [t / d for t in inv[k]]
    for r in range(n):
      if r != k and A[r][k] != 0:
        f = A[r][k]
        A[r] = [t - f * u for t, u in zip(A[r], A[k])]
        inv[r] = [t - f * u for t, u in zip(inv[r], inv[k])]
  sol = []
  for i in range(n):
    t = ZERO
    for j in range(n):
      if inv[i][j] != 0:
        t = V.radd(t, V.rmul(R(inv[i][j]), rhs[j]))
    sol.append(t)
  out, o = [], 0
  for a in avals:
    m = int(np.prod(a.shape))
    x = np.empty(a.shape, dtype=object)
    for q, e in enumerate(np.ndindex(*a.shape)):
      x[e] = sol[o + q]
    out.append(x)
    o += m
  return out


@rule('custom_linear_solve')
def _cls(ctx, params, ins, in_avals, out_avals, prim):
  if all(is_concrete(a) for a in ins) and ctx.sh.get('concrete'):
    return concrete_eval(prim, params, ins, in_avals)
  cl = params['const_lengths']
  jx = params['jaxprs']
  n_mv = cl.matvec
  mode = ctx.sh.get('linsolve', 'contract')
  if mode == 'exec' and not _has_while(jx.solve.jaxpr):
    o = cl.matvec + cl.vecmat
    tot = o + cl.solve + cl.transpose_solve
    return eval_closed(ctx, jx.solve, list(ins[o:o + cl.solve]) + list(ins[tot:]))
  tot = cl.matvec + cl.vecmat + cl.solve + cl.transpose_solve
  mv_consts, b = ins[:n_mv], ins[tot:]
  out = []
  xs = []
  names = []
  # the solve is a function of its operands
  key = (str(jx.matvec.jaxpr), tuple(tuple(_ekey(e) for e in a.ravel()) for a in mv_consts + b))
  memo = ctx.__dict__.setdefault('lin_memo', {})
  if key in memo:
    return [np.array(x, dtype=object, copy=True) for x in memo[key][0]]
  exact = _known_matrix(ctx, jx.matvec, mv_consts, in_avals[tot:], b)
  if exact is not None:
    memo[key] = (exact + [full(a.shape, False) for a in out_avals[len(exact):]], ins)
    return exact + [full(a.shape, False) for a in out_avals[len(exact):]]
  for av in in_avals[tot:]:
    x = np.empty(av.shape, dtype=object)
    for e in np.ndindex(*av.shape):
      f = ctx.fresh('lin')
      names.append(f)
      x[e] = R(f)
    xs.append(x)
  lhs = eval_closed(ctx, jx.matvec, list(mv_consts) + xs)
  cs = []
  for l, r in zip(lhs, b):
    for p, q in zip(l.ravel(), r.ravel()):
      cs.append(And(p.isfinite, q.isfinite, V.veq(p.v, q.v)))
  post = And(cs)
  if mode == 'exec' and cl.vecmat == cl.matvec and str(jx.vecmat) == str(jx.matvec):
    # declared symmetric (conjugate gradient): nothing is promised unless the
    # operator is symmetric positive definite
    post = Implies(_spd(ctx, jx.matvec, mv_consts, in_avals[tot:]), post)
    ctx.notes.add('conjugate gradient: solves symmetric positive definite systems only')
  ctx.define(names, post)
  ctx.notes.add('linear solve primitive replaced by its contract A x = b')
  memo[key] = (xs + [full(a.shape, False) for a in out_avals[len(xs):]], ins)
  return xs + [full(a.shape, False) for a in out_avals[len(xs):]]


@rule('triangular_solve')
def _trisolve(ctx, params, ins, in_avals, out_avals, prim):
  a, b = ins
  left, lower = params['left_side'], params['lower']
  tr, unit = params['transpose_a'], params['unit_diagonal']
  out = np.empty(b.shape, dtype=object)
  for e in np.ndindex(*a.shape[:-2]):
    A, B = a[e], b[e]
    if tr:
      A = A.T
      low = not lower
    else:
      low = lower
    if not left:
      A, B, low = A.T, B.T, not low
    n, m = B.shape
    X = np.empty((n, m), dtype=object)
    order = range(n) if low else range(n - 1, -1, -1)
    for i in order:
      for j in range(m):
        s = B[i, j]
        ks = range(i) if low else range(i + 1, n)
        for k in ks:
          s = V.rsub(s, V.rmul(A[i, k], X[k, j]))
        X[i, j] = s if unit else V.rdiv(s, A[i, i])
    out[e] = X if left else X.T
  return out


@rule('cholesky')
def _chol(ctx, params, ins, in_avals, out_avals, prim):
  a = ins[0]
  out = full(a.shape, ZERO)
  for e in np.ndindex(*a.shape[:-2]):
    A = a[e]
    n = A.shape[0]
    L = full((n, n), ZERO)
    for j in range(n):
      s = A[j, j]
      for k in range(j):
        s = V.rsub(s, V.rmul(L[j, k], L[j, k]))
      L[j, j] = V.rsqrt_(s)
      for i in range(j + 1, n):
        s = A[i, j]
        for k in range(j):
          s = V.rsub(s, V.rmul(L[i, k], L[j, k]))
        L[i, j] = V.rdiv(s, L[j, j])
    out[e] = L
  return out


@rule('qr')
def _qr(ctx, params, ins, in_avals, out_avals, prim):
  a = ins[0]
  n = a.shape[-1]
  if a.shape != (n, n) or len(out_avals) != 2:
    raise Unsupported('qr of a non-square matrix')
  if all(is_concrete(x) for x in ins):
    return concrete_eval(prim, params, ins, in_avals)
  names = []

  def f():
    names.append(ctx.fresh('qr'))
    return R(names[-1])
  q = np.array([[f() for _ in range(n)] for _ in range(n)], dtype=object)
  r = np.array([[f() if j >= i else ZERO for j in range(n)] for i in range(n)], dtype=object)
  dot = lambda u, w: functools.reduce(V.radd, [V.rmul(x, y) for x, y in zip(u, w)])
  cs = [V.req(dot(q[:, i], q[:, j]), R_(int(i == j))) for i in range(n) for j in range(i + 1)]
  cs += [V.req(dot(q[i], r[:, j]), a[i, j]) for i in range(n) for j in range(n)]
  ctx.define(names, And(cs))
  ctx.notes.add('QR factorisation replaced by its contract')
  return [q, r]


@rule('lu')
def _lu(ctx, params, ins, in_avals, out_avals, prim):
  a = ins[0]
  m, n = a.shape[-2:]
  out = a.copy()
  piv = full(a.shape[:-2] + (min(m, n),), 0)
  perm = full(a.shape[:-2] + (m,), 0)
  for e in np.ndindex(*a.shape[:-2]):
    A = a[e].copy()
    p = list(range(m))
    for k in range(min(m, n)):
      q = k
      while q < m - 1 and not isconc(V.req(A[q, k], ZERO)) or (
          q < m - 1 and isconc(V.req(A[q, k], ZERO)) and V.req(A[q, k], ZERO)):
        z = V.req(A[q, k], ZERO)
        if isconc(z):
          if not z:
            break
        elif not ctx.decide(z):
          break
        q += 1
      if q != k:
        A[[k, q]] = A[[q, k]]
        p[k], p[q] = p[q], p[k]
      piv[e + (k,)] = q
      for i in range(k + 1, m):
        A[i, k] = V.rdiv(A[i, k], A[k, k])
        for j in range(k + 1, n):
          A[i, j] = V.rsub(A[i, j], V.rmul(A[i, k], A[k, j]))
    out[e] = A
    for i in range(m):
      perm[e + (i,)] = p[i]
  ctx.notes.add('LU pivots on the first non zero entry')
  return [out, piv, perm]


# ------------------------------------------------------------ callbacks, rng
@rule('pure_callback')
def _callback(ctx, params, ins, in_avals, out_avals, prim):
  h = getattr(ctx, 'callback_handler', None)
  if h is None:
    raise Unsupported('pure_callback')
  return h(ctx, params, ins, in_avals, out_avals)


@rule('debug_callback', 'debug_print')
def _dbg(ctx, params, ins, in_avals, out_avals, prim):
  return []


@rule('random_bits', 'random_unwrap', 'random_wrap', 'random_seed', 'random_fold_in',
      'random_split', 'threefry2x32')
def _rng(ctx, params, ins, in_avals, out_avals, prim):
  return concrete_eval(prim, params, ins, in_avals)


@rule('symuf')
def _symuf(ctx, params, ins, in_avals, out_avals, prim):
  args = [R_(e) for e in ins[0].ravel()]
  ok = And([a.isfinite for a in args])
  vals = ctx.uf_apply(params['name'], params['nin'], params['out_shape'],
                      params['order'], [a.v for a in args])
  out = np.empty(vals.shape, dtype=object)
  for e in np.ndindex(*vals.shape):
    x = vals[e]
    x = x if isinstance(x, R) else R(x)
    out[e] = x if ok is True else R(x.v, Or(Not(ok), x.nan))
  return out.reshape(out_avals[0].shape)


# ------------------------------------------------------------ further primitives
@rule('stack')
def _stack(ctx, params, ins, in_avals, out_avals, prim):
  return np.stack(ins, axis=params.get('axis', params.get('dimension', 0)))


@rule('unstack')
def _unstack(ctx, params, ins, in_avals, out_avals, prim):
  ax = params.get('axis', params.get('dimension', 0))
  x = np.moveaxis(ins[0], ax, 0)
  out = []
  for k in range(x.shape[0]):
    e = x[k]
    out.append(e if isinstance(e, np.ndarray) else full((), e))
  return out


for _n in ('tile', 'broadcast_to', 'copy_to'):
  RULES[_n] = lambda ctx, p, i, ia, oa, pr: _move(ctx, p, i, ia, oa, pr, 1)
elementwise('log2', lambda a: V.rdiv(V.rlog(a), R_(math.log(2))))
elementwise('one_minus_square', lambda a: V.rsub(ONE, V.rmul(a, a)))
elementwise('sinh', lambda a: V.rdiv(V.rsub(V.rexp(a), V.rexp(V.rneg(a))), R_(2)))
elementwise('cosh', lambda a: V.rdiv(V.radd(V.rexp(a), V.rexp(V.rneg(a))), R_(2)))
for _n in ('tan', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'erfc', 'lgamma'):
  elementwise(_n, funvar(_n, getattr(math, _n)))
for _n in ('erf_inv', 'digamma', 'igamma', 'bessel_i0e', 'bessel_i1e', 'zeta', 'polygamma'):
  elementwise(_n, funvar(_n, lambda *a: float('nan')))
elementwise('name', lambda a: a, lambda a: a, lambda a: a)
RULES['le_to'], RULES['lt_to'], RULES['eq_to'] = RULES['le'], RULES['lt'], RULES['eq']
RULES['approx_top_k'] = lambda ctx, p, i, ia, oa, pr: RULES['top_k'](
    ctx, dict(k=p['k'], axis=p.get('reduction_dimension', -1)), i, ia, oa, pr) \
    if p.get('is_max_k', True) else _unsup(ctx, p, i, ia, oa, pr)
RULES['scatter-sub'] = RULES['scatter_sub'] = lambda *a: _scatter(
    *a, op=lambda o, u: V.rsub(o, u) if isinstance(o, R) else o - u)


@rule('reduce')
def _reduce_gen(ctx, params, ins, in_avals, out_avals, prim):
  n = len(ins) // 2
  xs, inits = ins[:n], ins[n:]
  dims = tuple(params['dimensions'])
  keep = [d for d in range(xs[0].ndim) if d not in dims]
  ys = [np.transpose(x, keep + list(dims)).reshape(
      tuple(x.shape[d] for d in keep) + (-1,)) for x in xs]
  outs = [np.empty(ys[0].shape[:-1], dtype=object) for _ in xs]
  for e in np.ndindex(*outs[0].shape):
    acc = [full((), i[()]) for i in inits]
    for k in range(ys[0].shape[-1]):
      acc = eval_jaxpr(ctx, params['jaxpr'], [from_np(c) for c in params.get('consts', ())],
                       acc + [full((), y[e][k]) for y in ys]) if not hasattr(
                           params['jaxpr'], 'consts') else eval_closed(
                               ctx, params['jaxpr'], acc + [full((), y[e][k]) for y in ys])
    for o, a in zip(outs, acc):
      o[e] = a[()]
  return outs


@rule('zeros_like')
def _zeros_like(ctx, params, ins, in_avals, out_avals, prim):
  k = kind(in_avals[0].dtype)
  return full(ins[0].shape, ZERO if k == 'f' else (0 if k == 'i' else False))
