"""Symbolic execution of Python control flow around JAX code.

A JAX trace whose arrays are symbolic: every primitive is interpreted at once,
and `bool(x)` of a symbolic array forks the path, so Python loops and branches
(jit=False code paths) run symbolically too.
"""
import numpy as np
import jax
import jax.numpy as jnp
from jax._src import core
from . import interp as I
from . import val as V
from . import ctx as C


class SymTracer(core.Tracer):
  __slots__ = ['val']

  def __init__(self, trace, aval, val):
    super().__init__(trace, aval)
    self.val = val

  def full_lower(self):
    return self

  def _one(self):
    if self.val.size != 1:
      raise TypeError('only size 1 arrays convert to Python scalars')
    return self.val.ravel()[0]

  def __bool__(self):
    e = self._one()
    k = I.kind(self.aval.dtype)
    if k == 'f':
      e = V.Not(V.req(e, V.ZERO))
    elif k == 'i':
      e = V.Not(V.ieq(e, 0))
    e = V.unb(e)
    return bool(e) if V.isconc(e) else self._trace.ctx.decide(e)

  def _int(self):
    e = self._one()
    if not I.econc(e):
      raise C.Unsupported('Python integer of a symbolic array')
    return int(e.v) if isinstance(e, V.R) else int(e)

  def __int__(self):
    return self._int()

  def __index__(self):
    return self._int()

  def __float__(self):
    e = self._one()
    if not I.econc(e):
      raise C.Unsupported('Python float of a symbolic array')
    return V.tofloat(e) if isinstance(e, V.R) else float(e)

  def item(self):
    return self


def lift(x):
  return x.val if isinstance(x, SymTracer) else I.from_np(x)


class SymTrace(core.Trace):
  __slots__ = ('ctx', 'nprims')

  def __init__(self, ctx):
    super().__init__()
    self.ctx = ctx
    self.nprims = 0

  def wrap(self, val, aval):
    if isinstance(val, I.Raw):
      return val.x
    k = I.kind(aval.dtype)
    if k in 'ib0' and I.is_concrete(val):
      x = I.to_np(val, aval.dtype)
      return x if k == '0' else jnp.asarray(x)
    return SymTracer(self, aval, val)

  def stage_value(self, val):
    if isinstance(val, core.Tracer):
      return val
    with core.set_current_trace(core.eval_trace):
      return jnp.asarray(val)

  def process_primitive(self, prim, args, params, /):
    self.nprims += 1
    with core.set_current_trace(core.eval_trace):
      avals = [core.typeof(a) for a in args]
      r = prim.abstract_eval(*avals, **params)
      out_avals = r[0]
      mult = prim.multiple_results
      oa = list(out_avals) if mult else [out_avals]
      outs = I.eval_eqn(self.ctx, prim, params, [lift(a) for a in args], avals, oa)
      res = [self.wrap(o, a) for o, a in zip(outs, oa)]
    return res if mult else res[0]

  def process_custom_jvp_call(self, primitive, fun, jvp, tracers, /, **_):
    with core.set_current_trace(self):
      return fun.call_wrapped(*tracers)

  def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, /, **_):
    with core.set_current_trace(self):
      return fun.call_wrapped(*tracers)


def run(ctx, fn, d, is_leaf=lambda x: isinstance(x, np.ndarray)):
  """Runs fn(**d) on object arrays; returns a pytree of object arrays."""
  tr = SymTrace(ctx)
  leaves, tree = jax.tree_util.tree_flatten(d, is_leaf=is_leaf)
  dts = []
  for l in leaves:
    e = l.ravel()[0] if l.size else V.ZERO
    dt = jnp.float64 if isinstance(e, V.R) else (
        jnp.bool_ if isinstance(e, (bool, np.bool_)) or V.z3.is_bool(e) else jnp.int64)
    dts.append(dt)
  with core.set_current_trace(core.eval_trace):
    ts = [SymTracer(tr, core.ShapedArray(l.shape, np.dtype(dt)), l) for l, dt in zip(leaves, dts)]
  with core.set_current_trace(tr):
    out = fn(**jax.tree_util.tree_unflatten(tree, ts))
  ctx.nprims = tr.nprims
  ol, ot = jax.tree_util.tree_flatten(out)
  return jax.tree_util.tree_unflatten(ot, [lift(x) for x in ol])
