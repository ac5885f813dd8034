"""Symbolic values: extended reals, ints and bools over z3 terms.

Float array elements are instances of R: a real part `v` (Fraction or z3 Real
term) and three flags nan/pinf/ninf (Python bool or z3 Bool).  While the flags
are the Python constant False the arithmetic is plain real arithmetic.
Rounding is not modelled; NaN and infinities are.
"""
import math
from fractions import Fraction
import numpy as np
import z3
from . import poly

F0, F1 = Fraction(0), Fraction(1)
_ctx = None


def cur():
  return _ctx


def set_ctx(c):
  global _ctx
  _ctx = c


# ---------------------------------------------------------------- booleans
def isconc(b):
  return isinstance(b, (bool, np.bool_))


def And(*xs):
  out = []
  for x in xs:
    if isinstance(x, (list, tuple)):
      x = And(*x)
    if isconc(x):
      if not x:
        return False
    else:
      out.append(x)
  if not out:
    return True
  return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
  out = []
  for x in xs:
    if isinstance(x, (list, tuple)):
      x = Or(*x)
    if isconc(x):
      if x:
        return True
    else:
      out.append(x)
  if not out:
    return False
  return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
  if isconc(x):
    return not x
  if z3.is_not(x):
    return x.arg(0)
  return z3.Not(x)


def Implies(a, b):
  return Or(Not(a), b)


def Iff(a, b):
  if isconc(a):
    return b if a else Not(b)
  if isconc(b):
    return a if b else Not(a)
  return a == b


def BIte(c, a, b):
  if isconc(c):
    return a if c else b
  if isconc(a) and isconc(b):
    if bool(a) == bool(b):
      return bool(a)
    return c if a else Not(c)
  if isconc(a):
    return Or(c, b) if a else And(Not(c), b)
  if isconc(b):
    return Or(Not(c), a) if b else And(c, a)
  if a.eq(b):
    return a
  return z3.If(c, a, b)


def zb(b):
  return z3.BoolVal(bool(b)) if isconc(b) else b


# ---------------------------------------------------------------- reals
def zr(v):
  if isinstance(v, Fraction):
    return z3.RealVal(str(v))
  return v


def conc(v):
  return isinstance(v, Fraction)


def vadd(a, b):
  if conc(a) and conc(b):
    return a + b
  if conc(a) and a == 0:
    return b
  if conc(b) and b == 0:
    return a
  return zr(a) + zr(b)


def vneg(a):
  if conc(a):
    return -a
  if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS:
    return a.arg(0)
  return -a


def vsub(a, b):
  if conc(a) and conc(b):
    return a - b
  if conc(b) and b == 0:
    return a
  if conc(a) and a == 0:
    return vneg(b)
  if not conc(a) and not conc(b) and a.eq(b):
    return F0
  return zr(a) - zr(b)


def vmul(a, b):
  if conc(a) and conc(b):
    return a * b
  if conc(a):
    a, b = b, a
  if conc(b):
    if b == 0:
      return F0
    if b == 1:
      return a
    if b == -1:
      return vneg(a)
  return zr(a) * zr(b)


def vdiv(a, b):  # b known non zero
  if conc(b):
    return vmul(a, 1 / b)
  if conc(a) and a == 0:
    return F0
  if not conc(a) and a.eq(b):
    return F1
  return zr(a) / b


def vite(c, a, b):
  if isconc(c):
    return a if c else b
  if conc(a) and conc(b):
    if a == b:
      return a
  elif not conc(a) and not conc(b) and a.eq(b):
    return a
  return z3.If(c, zr(a), zr(b))


def vlt(a, b):
  if conc(a) and conc(b):
    return a < b
  if not conc(a) and not conc(b) and a.eq(b):
    return False
  return zr(a) < zr(b)


def vle(a, b):
  if conc(a) and conc(b):
    return a <= b
  if not conc(a) and not conc(b) and a.eq(b):
    return True
  return zr(a) <= zr(b)


def veq(a, b):
  if conc(a) and conc(b):
    return a == b
  if not conc(a) and not conc(b) and a.eq(b):
    return True
  if POLY and (not conc(a) or not conc(b)):
    d = poly.diff(a, b)
    if d is not None:
      return d == 0
  return zr(a) == zr(b)


POLY = True


def rep(x):
  """x with its finite value replaced by the first term seen with the same form."""
  if not POLY or conc(x.v):
    return x
  c = cur()
  if c is None:
    return x
  v = poly.rep(x.v, c.__dict__.setdefault('reps', {}))
  return x if v is x.v else R(v, x.nan, x.pinf, x.ninf)


class R:
  """Extended real."""
  __slots__ = ('v', 'nan', 'pinf', 'ninf')

  def __init__(self, v, nan=False, pinf=False, ninf=False):
    self.v = v
    self.nan = nan
    self.pinf = pinf
    self.ninf = ninf

  @property
  def plain(self):
    return self.nan is False and self.pinf is False and self.ninf is False

  @property
  def isfinite(self):
    return Not(Or(self.nan, self.pinf, self.ninf))

  @property
  def concrete(self):
    return (conc(self.v) and isconc(self.nan) and isconc(self.pinf)
            and isconc(self.ninf))

  def __repr__(self):
    if self.concrete:
      return repr(tofloat(self))
    return f'R({self.v}{"" if self.plain else "!"})'

  def __add__(s, o): return NotImplemented if isinstance(o, np.ndarray) else radd(s, R_(o))
  def __radd__(s, o): return NotImplemented if isinstance(o, np.ndarray) else radd(R_(o), s)
  def __sub__(s, o): return NotImplemented if isinstance(o, np.ndarray) else rsub(s, R_(o))
  def __rsub__(s, o): return NotImplemented if isinstance(o, np.ndarray) else rsub(R_(o), s)
  def __mul__(s, o): return NotImplemented if isinstance(o, np.ndarray) else rmul(s, R_(o))
  def __rmul__(s, o): return NotImplemented if isinstance(o, np.ndarray) else rmul(R_(o), s)
  def __truediv__(s, o): return NotImplemented if isinstance(o, np.ndarray) else rdiv(s, R_(o))
  def __rtruediv__(s, o): return NotImplemented if isinstance(o, np.ndarray) else rdiv(R_(o), s)
  def __neg__(s): return rneg(s)
  def __abs__(s): return rabs(s)
  def __pow__(s, k): return rpowi(s, int(k))
  def __lt__(s, o): return wrapb(rlt(s, R_(o)))
  def __le__(s, o): return wrapb(rle(s, R_(o)))
  def __gt__(s, o): return wrapb(rlt(R_(o), s))
  def __ge__(s, o): return wrapb(rle(R_(o), s))
  def __eq__(s, o): return wrapb(req(s, R_(o)))
  def __ne__(s, o): return wrapb(Not(req(s, R_(o))))
  __hash__ = None
  def sqrt(s): return rsqrt_(s)


class SB:
  """A symbolic bool usable from Python control flow (forks)."""
  __slots__ = ('b',)

  def __init__(self, b):
    self.b = b

  def __bool__(self):
    if isconc(self.b):
      return bool(self.b)
    return cur().decide(self.b)

  def __and__(s, o): return wrapb(And(s.b, unb(o)))
  def __rand__(s, o): return wrapb(And(s.b, unb(o)))
  def __or__(s, o): return wrapb(Or(s.b, unb(o)))
  def __ror__(s, o): return wrapb(Or(s.b, unb(o)))
  def __invert__(s): return wrapb(Not(s.b))


def wrapb(b):
  return bool(b) if isconc(b) else SB(b)


def unb(b):
  return b.b if isinstance(b, SB) else b


NAN = R(F0, nan=True)
PINF = R(F0, pinf=True)
NINF = R(F0, ninf=True)
ZERO = R(F0)
ONE = R(F1)


def R_(x):
  if isinstance(x, R):
    return x
  if isinstance(x, Fraction):
    return R(x)
  if isinstance(x, (bool, np.bool_)):
    return R(F1 if x else F0)
  if isinstance(x, (int, np.integer)):
    return R(Fraction(int(x)))
  if isinstance(x, (float, np.floating)):
    x = float(x)
    if math.isnan(x):
      return NAN
    if math.isinf(x):
      return PINF if x > 0 else NINF
    return R(Fraction(x))
  if isinstance(x, z3.ExprRef):
    if z3.is_int(x):
      return R(z3.ToReal(x))
    if z3.is_bool(x):
      return R(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
    return R(x)
  if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
    return R_(np.asarray(x).item())
  raise TypeError(f'R_ of {type(x)}')


def tofloat(r):
  if r.nan:
    return math.nan
  if r.pinf:
    return math.inf
  if r.ninf:
    return -math.inf
  return float(r.v)


def rneg(a):
  if a.plain:
    return R(vneg(a.v))
  return R(vneg(a.v), a.nan, a.ninf, a.pinf)


def radd(a, b):
  if a.plain and b.plain:
    return R(vadd(a.v, b.v))
  nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
  return R(vadd(a.v, b.v), nan, And(Not(nan), Or(a.pinf, b.pinf)),
           And(Not(nan), Or(a.ninf, b.ninf)))


def rsub(a, b):
  if a.plain and b.plain:
    return R(vsub(a.v, b.v))
  return radd(a, rneg(b))


def rmul(a, b):
  if a.plain and b.plain:
    return R(vmul(a.v, b.v))
  ainf, binf = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
  az = And(a.isfinite, veq(a.v, F0))
  bz = And(b.isfinite, veq(b.v, F0))
  nan = Or(a.nan, b.nan, And(ainf, bz), And(binf, az))
  apos = Or(a.pinf, And(a.isfinite, vlt(F0, a.v)))
  bpos = Or(b.pinf, And(b.isfinite, vlt(F0, b.v)))
  inf = And(Not(nan), Or(ainf, binf))
  same = Iff(apos, bpos)
  return R(vmul(a.v, b.v), nan, And(inf, same), And(inf, Not(same)))


def _ek(e):
  return ('t', e.get_id()) if isinstance(e, z3.ExprRef) else e


def memo(f):
  """Per path: the same operation on the same terms gives the same term."""
  def g(*xs):
    c = cur()
    if c is None or all(x.concrete for x in xs):
      return f(*xs)
    k = (f.__name__,) + tuple((_ek(x.v), _ek(x.nan), _ek(x.pinf), _ek(x.ninf)) for x in xs)
    m = c.__dict__.setdefault('opmemo', {})
    if k not in m:
      m[k] = (f(*xs), xs)
    return m[k][0]
  return g


def rdiv(a, b):
  return _rdiv(a, rep(b))


@memo
def _rdiv(a, b):
  if b.plain and conc(b.v) and b.v != 0:
    return rmul(a, R(1 / b.v))
  bz = And(b.isfinite, veq(b.v, F0))
  if not isconc(bz):
    c = cur()
    if c is not None and c.quick_valid(Not(bz)):
      bz = False
  if a.plain and b.plain and bz is False:
    return R(vdiv(a.v, b.v))
  ainf, binf = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
  az = And(a.isfinite, veq(a.v, F0))
  nan = Or(a.nan, b.nan, And(az, bz), And(ainf, binf))
  apos = Or(a.pinf, And(a.isfinite, vlt(F0, a.v)))
  # sign of zero is not modelled: x / 0 has the sign of x.
  bpos = Or(b.pinf, And(b.isfinite, vle(F0, b.v)))
  inf = And(Not(nan), Or(bz, ainf))
  same = Iff(apos, bpos)
  safe = vite(bz, F1, b.v)
  v = vite(binf, F0, vdiv(a.v, safe) if not (conc(safe) and safe == 0) else F0)
  return R(v, nan, And(inf, same), And(inf, Not(same)))


def rlt(a, b):
  if a.plain and b.plain:
    return vlt(a.v, b.v)
  return And(Not(a.nan), Not(b.nan),
             Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)),
                And(a.isfinite, b.isfinite, vlt(a.v, b.v))))


def rle(a, b):
  if a.plain and b.plain:
    return vle(a.v, b.v)
  return And(Not(a.nan), Not(b.nan),
             Or(a.ninf, b.pinf, And(a.isfinite, b.isfinite, vle(a.v, b.v))))


def req(a, b):
  if a.plain and b.plain:
    return veq(a.v, b.v)
  return And(Not(a.nan), Not(b.nan),
             Or(And(a.ninf, b.ninf), And(a.pinf, b.pinf),
                And(a.isfinite, b.isfinite, veq(a.v, b.v))))


def rite(c, a, b):
  if isconc(c):
    return a if c else b
  if a is b:
    return a
  if a.plain and b.plain:
    return R(vite(c, a.v, b.v))
  # where one side is certainly non finite its value part is irrelevant
  av, bv = a.v, b.v
  if conc(av) and (a.nan is True or a.pinf is True or a.ninf is True):
    v = bv
  elif conc(bv) and (b.nan is True or b.pinf is True or b.ninf is True):
    v = av
  else:
    v = vite(c, av, bv)
  return R(v, BIte(c, a.nan, b.nan), BIte(c, a.pinf, b.pinf),
           BIte(c, a.ninf, b.ninf))


def _dec(c):
  """Fork on a select-like condition if the context says so."""
  k = cur()
  if not isconc(c) and k is not None and k.fork_select:
    return k.decide(c)
  return c


def rmax(a, b):
  if a.plain and b.plain:
    c = _dec(vle(b.v, a.v))
    return R(vite(c, a.v, b.v))
  r = rite(_dec(rle(b, a)), a, b)
  if a.nan is False and b.nan is False:
    return r
  return R(r.v, Or(a.nan, b.nan), And(r.pinf, Not(Or(a.nan, b.nan))),
           And(r.ninf, Not(Or(a.nan, b.nan))))


def rmin(a, b):
  return rneg(rmax(rneg(a), rneg(b)))


def rabs(a):
  if a.plain:
    if conc(a.v):
      return R(abs(a.v))
    c = _dec(vle(F0, a.v))
    return R(vite(c, a.v, vneg(a.v)))
  return R(vite(vle(F0, a.v), a.v, vneg(a.v)), a.nan, Or(a.pinf, a.ninf), False)


def rsign(a):
  pos, neg = rlt(ZERO, a), rlt(a, ZERO)
  pos = _dec(pos)
  if not (isconc(pos) and pos):
    neg = _dec(neg)
  return R(vite(pos, F1, vite(neg, -F1, F0)), a.nan)


def rpowi(a, k):
  if k == 0:
    return ONE
  if k < 0:
    return rdiv(ONE, rpowi(a, -k))
  r = a
  for _ in range(k - 1):
    r = rmul(r, a)
  return r


def _frac_sqrt(f):
  n, d = f.numerator, f.denominator
  a, b = math.isqrt(n), math.isqrt(d)
  if a * a == n and b * b == d:
    return Fraction(a, b), True
  s = 10 ** 30
  return Fraction(math.isqrt(n * d * s * s), d * s), False


@memo
def rsqrt_(a):
  """Square root."""
  if a.concrete:
    if a.nan or a.ninf or (a.isfinite and a.v < 0):
      return NAN
    if a.pinf:
      return PINF
    return R(_frac_sqrt(a.v)[0])
  neg = And(a.isfinite, vlt(a.v, F0))
  c = cur()
  if not isconc(neg) and (is_sos(a.v) or c.quick_valid(Not(neg))):
    neg = False
  nan = Or(a.nan, a.ninf, neg)
  s = c.sqrt_var(rep(a).v, neg)
  return R(s, nan, And(a.pinf, Not(nan)), False)


def is_sos(e):
  """Syntactic sum of squares / absolute value check."""
  if conc(e):
    return e >= 0
  k = e.decl().kind() if z3.is_app(e) else None
  if k == z3.Z3_OP_ADD:
    return all(is_sos(c) for c in e.children())
  if k == z3.Z3_OP_MUL:
    ch = e.children()
    if len(ch) == 2 and ch[0].eq(ch[1]):
      return True
    return all(is_sos(c) for c in ch)
  if z3.is_rational_value(e):
    return e.numerator_as_long() >= 0
  return False


def rexp(a):
  if a.concrete:
    x = tofloat(a)
    if math.isnan(x):
      return NAN
    if x == math.inf:
      return PINF
    if x == -math.inf:
      return ZERO
    if a.v == 0:
      return ONE
    return R_(math.exp(x))
  c = cur()
  y = c.exp_var(a.v)
  if a.plain:
    return R(y)
  return R(vite(a.ninf, F0, y), a.nan, a.pinf, False)


@memo
def rlog(a):
  if a.concrete:
    x = tofloat(a)
    if math.isnan(x) or x < 0:
      return NAN
    if x == 0:
      return NINF
    if x == math.inf:
      return PINF
    if a.v == 1:
      return ZERO
    return R_(math.log(x))
  c = cur()
  neg = And(a.isfinite, vlt(a.v, F0))
  zero = And(a.isfinite, veq(a.v, F0))
  if not isconc(neg) and c.quick_valid(Not(neg)):
    neg = False
  if not isconc(zero) and c.quick_valid(Not(zero)):
    zero = False
  nan = Or(a.nan, a.ninf, neg)
  v = c.log_var(a.v)
  return R(v, nan, And(a.pinf, Not(nan)), And(zero, Not(nan)))


# ---------------------------------------------------------------- ints
def iz(x):
  return z3.IntVal(int(x)) if not isinstance(x, z3.ExprRef) else x


def iconc(x):
  return not isinstance(x, z3.ExprRef)


def iite(c, a, b):
  if isconc(c):
    return a if c else b
  if iconc(a) and iconc(b) and int(a) == int(b):
    return a
  if not iconc(a) and not iconc(b) and a.eq(b):
    return a
  return z3.If(c, iz(a), iz(b))


def ieq(a, b):
  if iconc(a) and iconc(b):
    return int(a) == int(b)
  return iz(a) == iz(b)


def ilt(a, b):
  if iconc(a) and iconc(b):
    return int(a) < int(b)
  return iz(a) < iz(b)


def ile(a, b):
  if iconc(a) and iconc(b):
    return int(a) <= int(b)
  return iz(a) <= iz(b)


def ite(c, a, b):
  """Generic select on elements of the same kind."""
  if isconc(c):
    return a if c else b
  if a is b:
    return a
  if isinstance(a, R) or isinstance(b, R):
    return rite(c, R_(a), R_(b))
  if isconc(a) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)):
    return BIte(c, a, b)
  return iite(c, a, b)
