"""Canonical rational-function forms of z3 real terms (identity test only).

A form is {monomial: coefficient}; a monomial is a sorted tuple of
(atom, power).  Atoms are terms that are not sums or products, `If`s with
canonical branches, and inverses of canonical forms.
"""
from fractions import Fraction
import z3

LIMIT = 600
_cache = {}      # ast id -> (form or None, ast kept alive)
_keys = {}       # frozen form -> small int


def clear():
  _cache.clear()
  _keys.clear()


def key(form):
  k = frozenset(form.items())
  return _keys.setdefault(k, len(_keys))


def _mulmon(a, b):
  d = dict(a)
  for x, p in b:
    d[x] = d.get(x, 0) + p
  return tuple(sorted(d.items()))


def _add(a, b, s=1):
  r = dict(a)
  for m, c in b.items():
    c2 = r.get(m, 0) + s * c
    if c2:
      r[m] = c2
    else:
      r.pop(m, None)
  return r


def _mul(a, b):
  if len(a) * len(b) > 4 * LIMIT:
    return None
  r = {}
  for m, c in a.items():
    for n, d in b.items():
      k = _mulmon(m, n)
      v = r.get(k, 0) + c * d
      if v:
        r[k] = v
      else:
        r.pop(k, None)
  return r if len(r) <= LIMIT else None


def form(e):
  """Canonical form of a Fraction or z3 real term, None if too large."""
  if isinstance(e, Fraction):
    return {(): e} if e else {}
  stack = [e]
  while stack:
    t = stack[-1]
    i = t.get_id()
    if i in _cache:
      stack.pop()
      continue
    kind = t.decl().kind() if z3.is_app(t) else None
    if kind in _OPS:
      ch = t.children()
      if kind == z3.Z3_OP_ITE:
        ch = ch[1:]
      todo = [c for c in ch if c.get_id() not in _cache]
      if todo:
        stack += todo
        continue
      f = _OPS[kind](t, [_cache[c.get_id()][0] for c in ch])
    else:
      f = {((('a', i), 1),): Fraction(1)}
    _cache[i] = (f, t)
    stack.pop()
  return _cache[e.get_id()][0]


def _lin(signs):
  def g(t, fs):
    r = {}
    for k, f in enumerate(fs):
      if f is None:
        return None
      r = _add(r, f, signs(k))
      if len(r) > LIMIT:
        return None
    return r
  return g


def _num(t, fs):
  v = Fraction(t.numerator_as_long(), t.denominator_as_long())
  return {(): v} if v else {}


def _times(t, fs):
  r = {(): Fraction(1)}
  for f in fs:
    if f is None:
      return None
    r = _mul(r, f)
    if r is None:
      return None
  return r


def _div(t, fs):
  a, b = fs
  if a is None or b is None or not b:
    return None
  if len(b) == 1 and () in b:
    return {m: c / b[()] for m, c in a.items()}
  # scale the denominator so that proportional ones agree
  lead = b[min(b)]
  b = {m: c / lead for m, c in b.items()}
  return _mul(a, {((('i', key(b)), 1),): 1 / lead})


def _ite(t, fs):
  if any(f is None for f in fs):
    return {((('a', t.get_id()), 1),): Fraction(1)}
  if fs[0] == fs[1]:
    return fs[0]
  return {((('t', t.arg(0).get_id() * 1000003 * 1000003 + key(fs[0]) * 1000003 + key(fs[1])), 1),): Fraction(1)}


_OPS = {z3.Z3_OP_ADD: _lin(lambda k: 1), z3.Z3_OP_SUB: _lin(lambda k: 1 if k == 0 else -1),
        z3.Z3_OP_UMINUS: _lin(lambda k: -1), z3.Z3_OP_MUL: _times, z3.Z3_OP_DIV: _div,
        z3.Z3_OP_ITE: _ite, z3.Z3_OP_ANUM: _num}


def diff(a, b):
  """a - b as a Fraction if it is a constant, else None."""
  fa = form(a)
  if fa is None:
    return None
  fb = form(b)
  if fb is None:
    return None
  if len(fa) != len(fb) and abs(len(fa) - len(fb)) > 1:
    return None
  d = _add(fa, fb, -1)
  if not d:
    return Fraction(0)
  if len(d) == 1 and () in d:
    return d[()]
  return None


def rep(e, table):
  """A term representing all terms with the form of e in this table."""
  f = form(e)
  if f is None:
    return e
  return table.setdefault(key(f), e)
