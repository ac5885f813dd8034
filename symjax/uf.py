"""Uninterpreted smooth user functions as a JAX primitive.

UF('f', n)(x) is an arbitrary smooth function of n reals.  JAX differentiates
it (the k-th derivative tensor is again an uninterpreted function); the
symbolic interpreter gives each distinct application fresh variables with
congruence; on replay it is a table of the values of the counterexample.
"""
import numpy as np
import jax
import jax.numpy as jnp
from jax.interpreters import ad, batching, mlir
from jax._src import core as _core

TABLE = {}   # name -> python callable (order, x: np array) -> np array

symuf_p = jax.extend.core.Primitive('symuf') if hasattr(jax, 'extend') else _core.Primitive('symuf')


def _bind(x, name, nin, out_shape, order):
  return symuf_p.bind(x, name=name, nin=nin, out_shape=out_shape, order=order)


def _shape(nin, out_shape, order):
  return tuple(out_shape) + (nin,) * order


@symuf_p.def_abstract_eval
def _abs(x, *, name, nin, out_shape, order):
  assert x.shape == (nin,), (name, x.shape, nin)
  return _core.ShapedArray(_shape(nin, out_shape, order), x.dtype)


def _host(x, name, nin, out_shape, order):
  if not np.all(np.isfinite(x)):
    return np.full(_shape(nin, out_shape, order), np.nan, dtype=x.dtype)
  r = TABLE[name](order, np.asarray(x, dtype=np.float64))
  return np.asarray(r, dtype=x.dtype).reshape(_shape(nin, out_shape, order))


@symuf_p.def_impl
def _impl(x, *, name, nin, out_shape, order):
  return jnp.asarray(_host(np.asarray(x), name, nin, out_shape, order))


def _jvp(primals, tangents, *, name, nin, out_shape, order):
  (x,), (t,) = primals, tangents
  y = _bind(x, name, nin, out_shape, order)
  if type(t) is ad.Zero:
    return y, ad.Zero.from_primal_value(y)
  d = _bind(x, name, nin, out_shape, order + 1)
  return y, jnp.tensordot(d, t, axes=1)


ad.primitive_jvps[symuf_p] = _jvp


def _batch(args, dims, *, name, nin, out_shape, order):
  (x,), (d,) = args, dims
  x = jnp.moveaxis(x, d, 0)
  out = jnp.stack([_bind(x[i], name, nin, out_shape, order) for i in range(x.shape[0])])
  return out, 0


batching.primitive_batchers[symuf_p] = _batch


def _lower(x, *, name, nin, out_shape, order):
  return jax.pure_callback(
      lambda v: _host(np.asarray(v), name, nin, out_shape, order),
      jax.ShapeDtypeStruct(_shape(nin, out_shape, order), x.dtype), x)


mlir.register_lowering(symuf_p, mlir.lower_fun(_lower, multiple_results=False))


class UF:

  def __init__(self, name, nin, out_shape=()):
    self.name, self.nin, self.out_shape = name, nin, tuple(out_shape)

  def __call__(self, *xs):
    x = jnp.concatenate([jnp.ravel(jnp.asarray(v, dtype=jnp.float64)) for v in xs])
    return _bind(x, self.name, self.nin, self.out_shape, 0)
