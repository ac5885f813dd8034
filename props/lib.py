"""Shared claim helpers."""
import itertools
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from symjax.harness import Problem, Sp, S
from symjax import val as V
from symjax.val import And, Or, Not, Implies, R, R_


def sc(a):
  """Scalar element of a 0-d object array."""
  return a[()] if isinstance(a, np.ndarray) else a


def flat(t):
  return S.flat(t)


def psd2(Q):
  """Q (2x2 object array) positive semidefinite, symmetric part assumed equal."""
  return [V.veq(Q[0, 1].v, Q[1, 0].v), V.rle(V.ZERO, Q[0, 0]), V.rle(V.ZERO, Q[1, 1]),
          V.rle(V.rmul(Q[0, 1], Q[0, 1]), V.rmul(Q[0, 0], Q[1, 1]))]


def pd2(Q):
  return [V.veq(Q[0, 1].v, Q[1, 0].v), V.rlt(V.ZERO, Q[0, 0]),
          V.rlt(V.rmul(Q[0, 1], Q[0, 1]), V.rmul(Q[0, 0], Q[1, 1]))]


def sample_pd(r, n=2):
  A = np.array([[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
  return A @ A.T + 0.5 * np.eye(n)


def matvec(M, x):
  return np.array([sum((M[i, j] * x[j] for j in range(M.shape[1])), V.ZERO)
                   for i in range(M.shape[0])], dtype=object)


def parallel(s, u, w):
  """u and w are linearly dependent (given w != 0 this means u = t w)."""
  return s.And([s.eq(u[i] * w[j], u[j] * w[i])
                for i in range(len(u)) for j in range(i + 1, len(u))])


def box_le(a, m):
  """|a| <= m elementwise, exact (for assumptions)."""
  return [And(V.rle(R_(-m), e), V.rle(e, R_(m))) for e in flat(a)]


def proj_box_claim(s, x, lo, up, p):
  out = []
  for a, l, u, b in zip(x, lo, up, p):
    out += [s.ge(b, l), s.le(b, u),
            s.implies(s.gt(b, l), s.le(b, a)), s.implies(s.lt(b, u), s.ge(b, a))]
  return s.And(out)


def simplex_claims(s, x, v, p, tag=''):
  n = len(x)
  return [(tag + 'sums to value', s.eq(s.sum(p), v)),
          (tag + 'nonnegative', s.ge(p, 0)),
          (tag + 'closest point', s.And(
              [s.implies(s.gt(p[a], 0), s.ge(x[a] - p[a], x[b] - p[b]))
               for a in range(n) for b in range(n) if a != b]))]
