"""Execution context: assumptions, path condition, definitional constraints."""
from fractions import Fraction
import numpy as np
import z3
from . import val as V
from .val import And, Or, Not, Implies, zb, zr, conc, R, F0, F1
from . import solve


class PathLimit(Exception):
  pass


class UnwindLimit(Exception):
  pass


class Infeasible(Exception):
  pass


class Unsupported(Exception):
  pass


class Ctx:

  def __init__(self, shared, script=(), fork_select=False, fork_loops=True,
               unwind=64, quick_ms=300):
    self.sh = shared            # dict shared between the runs of one harness
    self.script = list(script)
    self.taken = []
    self.pending = []           # alternative scripts discovered in this run
    self.hyps = []              # assumptions (harness)
    self.path = []              # path condition
    self.known = {}             # decided formulas
    self.defs = []              # (frozenset names, formula)
    self.fork_select = fork_select
    self.fork_loops = fork_loops
    self.unwind = unwind
    self.n = 0
    self.allfresh = []
    self.solver = z3.Solver()
    self.solver.set('timeout', quick_ms)
    self._sqrt = {}
    self._exp = []              # (x, y) with y = exp(x)
    self._expk = {}
    self._logk = {}
    self._fun = {}
    self.ufs = {}               # name -> list of (args, {order: flat values})
    self.exp_triples = False
    self.notes = set()

  # ------------------------------------------------------------ fresh symbols
  def fresh(self, hint, sort='real'):
    self.n += 1
    nm = f'{hint}!{self.n}'
    c = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](nm)
    self.allfresh.append(c)
    return c

  def assume(self, f):
    if isinstance(f, V.SB):
      f = f.b
    if isinstance(f, (list, tuple)):
      for g in f:
        self.assume(g)
      return
    if V.isconc(f):
      if not f:
        raise Infeasible('assumption is false')
      return
    self.hyps.append(f)
    self.solver.add(f)

  def define(self, names, f):
    if V.isconc(f):
      if not f:
        self.defs.append((frozenset(), z3.BoolVal(False)))
      return
    self.defs.append((frozenset(x.decl().name() for x in names), f))
    self.solver.add(f)

  # ------------------------------------------------------------ quick queries
  def _key(self, b):
    return (b.get_id(), tuple(self.taken))

  def quick_valid(self, b):
    """True only if b is implied by everything known so far."""
    if V.isconc(b):
      return bool(b)
    k = ('v',) + self._key(b)
    c = self.sh.setdefault('quick', {})
    if k in c:
      return c[k][0]
    r = self.solver.check(z3.Not(b)) == z3.unsat
    c[k] = (r, b)
    self.sh['nquick'] = self.sh.get('nquick', 0) + 1
    return r

  def feasible(self, b):
    if V.isconc(b):
      return bool(b)
    k = ('f',) + self._key(b)
    c = self.sh.setdefault('quick', {})
    if k in c:
      return c[k][0]
    r = self.solver.check(b) != z3.unsat
    c[k] = (r, b)
    self.sh['nquick'] = self.sh.get('nquick', 0) + 1
    return r

  def decide(self, b):
    """Fork on b."""
    if isinstance(b, V.SB):
      b = b.b
    if V.isconc(b):
      return bool(b)
    k = b.get_id()
    if k in self.known:
      return self.known[k][0]
    i = len(self.taken)
    if i < len(self.script):
      d = self.script[i]
    else:
      t = self.feasible(b)
      f = self.feasible(z3.Not(b))
      if t and f:
        self.pending.append(self.taken + [False])
        d = True
      elif t:
        d = True
      elif f:
        d = False
      else:
        raise Infeasible()
    self.taken.append(d)
    c = b if d else z3.Not(b)
    n = z3.Not(b)
    self.known[k] = (d, b)
    self.known[n.get_id()] = (not d, n)
    if z3.is_not(b):
      self.known[b.arg(0).get_id()] = (not d, b)
    self.path.append(c)
    self.solver.add(c)
    return d

  # ------------------------------------------------------------ functions
  def sqrt_var(self, v, neg):
    k = v.get_id()
    if k in self._sqrt:
      return self._sqrt[k][0]
    s = self.fresh('sqrt')
    self._sqrt[k] = (s, v)
    self.define([s], Implies(Not(neg), z3.And(s >= 0, s * s == v)))
    return s

  def exp_pair(self, x, y):
    for (a, b) in self._exp:
      self.define([y] if not conc(y) else [x],
                  z3.And((zr(a) < zr(x)) == (zr(b) < zr(y)),
                         (zr(a) == zr(x)) == (zr(b) == zr(y))))
    ex = self._exp + [(x, y)]
    # additive axioms on syntactically related arguments
    def lin(e):
      return z3.simplify(e, som=True)
    own = [y] if not conc(y) else [x]
    for i, (a, b) in enumerate(self._exp):
      if z3.is_rational_value(q := lin(zr(a) + zr(x))) and q.as_fraction() == 0:
        self.define(own, zr(b) * zr(y) == 1)
      for (a2, b2) in self._exp[i:]:
        if z3.is_rational_value(q := lin(zr(a) + zr(a2) - zr(x))) and q.as_fraction() == 0:
          self.define(own, zr(b) * zr(b2) == zr(y))
        if z3.is_rational_value(q := lin(zr(a) + zr(x) - zr(a2))) and q.as_fraction() == 0:
          self.define(own, zr(b) * zr(y) == zr(b2))
        if z3.is_rational_value(q := lin(zr(a2) + zr(x) - zr(a))) and q.as_fraction() == 0:
          self.define(own, zr(b2) * zr(y) == zr(b))
    self._exp = ex

  def exp_var(self, v):
    k = v.get_id()
    if k in self._expk:
      return self._expk[k][0]
    y = self.fresh('exp')
    self._expk[k] = (y, v)
    self.define([y], z3.And(y > 0, y >= 1 + v, Implies(v <= 0, y <= 1),
                            Implies(v < 1, y * (1 - v) <= 1),
                            (v == 0) == (y == 1)))
    self.exp_pair(v, y)
    return y

  def log_var(self, u):
    """x with exp(x) = u, for u > 0."""
    k = u.get_id()
    for (y, v) in self._expk.values():
      if y.eq(u):
        return v
    if k in self._logk:
      return self._logk[k][0]
    x = self.fresh('log')
    self._logk[k] = (x, u)
    self.define([x], Implies(u > 0, z3.And(u >= 1 + x, (x == 0) == (u == 1),
                                          (x > 0) == (u > 1), x * u >= u - 1)))
    pos = self.quick_valid(u > 0)
    if pos:
      self.exp_pair(x, u)
    else:
      self.notes.add('log of a term not known to be positive')
    return x

  def fun_var(self, name, args):
    """Uninterpreted real function of real arguments, ackermannised."""
    tab = self._fun.setdefault(name, [])
    for (as_, y) in tab:
      if all(V.veq(a, b) is True for a, b in zip(as_, args)):
        return y
    y = self.fresh(name)
    for (as_, z) in tab:
      same = And([V.veq(a, b) for a, b in zip(as_, args)])
      if same is not False:
        self.define([y], Implies(same, y == z))
    tab.append((args, y))
    return y

  def uf_apply(self, name, nin, out_shape, order, args):
    """Derivative tensor of order `order` of the smooth function `name`."""
    tab = self.ufs.setdefault(name, [])
    for (as_, vals) in tab:
      if all(V.veq(a, b) is True for a, b in zip(as_, args)):
        return self._uf_vals(name, nin, out_shape, order, as_, vals, tab)
    vals = {}
    tab.append((list(args), vals))
    return self._uf_vals(name, nin, out_shape, order, args, vals, tab)

  def _uf_vals(self, name, nin, out_shape, order, args, vals, tab):
    interp = self.sh.get('uf_interp', {}).get(name)
    if interp is not None:
      return interp(order, args)
    if order in vals:
      return vals[order]
    m = int(np.prod(out_shape, dtype=int))
    out = np.empty((m,) + (nin,) * order, dtype=object)
    for idx in np.ndindex(*out.shape):
      c = (idx[0],) + tuple(sorted(idx[1:]))
      if c == idx:
        out[idx] = self.fresh(f'{name}_d{order}_{"_".join(map(str, idx))}')
      else:
        out[idx] = out[c]
    vals[order] = out
    for (as_, v2) in tab:
      if v2 is vals or order not in v2:
        continue
      same = And([V.veq(a, b) for a, b in zip(as_, args)])
      if same is False:
        continue
      for a, b in zip(out.ravel(), v2[order].ravel()):
        if not a.eq(b):
          self.define([a], Implies(same, a == b))
    return out

  # ------------------------------------------------------------ final queries
  def formulas(self, goal_neg, extra=()):
    hyps = list(self.hyps) + list(self.path) + [e for e in extra if not V.isconc(e)]
    g = zb(goal_neg)
    return hyps + solve.prune(hyps, self.defs, g) + [g]
