"""Solver portfolio: in-process z3 first, then z3 / z3-nlsat / cvc5 processes."""
import math
import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction
import z3

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, seconds=0.0, by={})

_Z3 = '/usr/local/bin/z3-new'
if not os.path.exists(_Z3):
  import shutil
  _Z3 = shutil.which('z3-new') or shutil.which('z3')


def _count(res, who, t):
  STATS['queries'] += 1
  STATS[res] += 1
  STATS['seconds'] += t
  STATS['by'][who] = STATS['by'].get(who, 0) + 1


def free_vars(e, cache):
  """Set of names of uninterpreted constants in e (memoised on ast id)."""
  todo = [e]
  while todo:
    x = todo[-1]
    i = x.get_id()
    if i in cache:
      todo.pop()
      continue
    if z3.is_const(x):
      cache[i] = (frozenset([x.decl().name()])
                  if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset())
      _keep.append(x)
      todo.pop()
      continue
    ch = x.children()
    miss = [c for c in ch if c.get_id() not in cache]
    if miss:
      todo.extend(miss)
      continue
    s = frozenset().union(*[cache[c.get_id()] for c in ch])
    cache[i] = s
    _keep.append(x)
    todo.pop()
  return cache[e.get_id()]


_keep = []
_fv_cache = {}


def prune(hyps, defs, goal):
  """hyps: always kept.  defs: list of (set of defined names, formula), kept
  only when one of the names is reachable."""
  need = set(free_vars(goal, _fv_cache))
  for h in hyps:
    need |= free_vars(h, _fv_cache)
  out = []
  rest = list(defs)
  changed = True
  while changed:
    changed = False
    nrest = []
    for names, f in rest:
      if not names or (names & need):
        out.append(f)
        need |= free_vars(f, _fv_cache)
        changed = True
      else:
        nrest.append((names, f))
    rest = nrest
  return out


def _parse_sexpr(s):
  toks = re.findall(r'\(|\)|\|[^|]*\||[^\s()]+', s)
  pos = 0

  def rd():
    nonlocal pos
    t = toks[pos]
    pos += 1
    if t == '(':
      l = []
      while toks[pos] != ')':
        l.append(rd())
      pos += 1
      return l
    return t.strip('|')
  out = []
  while pos < len(toks):
    out.append(rd())
  return out


def _num(t):
  if isinstance(t, str):
    if t == 'true':
      return True
    if t == 'false':
      return False
    return Fraction(t.rstrip('?'))
  if t[0] == '-':
    return -_num(t[1]) if len(t) == 2 else _num(t[1]) - _num(t[2])
  if t[0] == '/':
    return Fraction(_num(t[1])) / Fraction(_num(t[2]))
  if t[0] == 'to_real':
    return _num(t[1])
  raise ValueError(str(t))


def _val(x):
  if z3.is_true(x):
    return True
  if z3.is_false(x):
    return False
  if z3.is_int_value(x):
    return Fraction(x.as_long())
  if z3.is_rational_value(x):
    return Fraction(x.numerator_as_long(), x.denominator_as_long())
  if z3.is_algebraic_value(x):
    a = x.approx(30)
    return Fraction(a.numerator_as_long(), a.denominator_as_long())
  raise ValueError(str(x))


def _has_int(fs):
  seen = set()
  todo = list(fs)
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_int(x) and not z3.is_int_value(x):
      return True
    todo.extend(x.children())
  return False


def check(formulas, want=None, timeout=20.0, fast=1.5):
  """Returns (res, model) with res in sat/unsat/unknown; model: name->value
  for the z3 constants in `want`."""
  t0 = time.time()
  s = z3.Solver()
  s.set('timeout', int(1000 * min(fast, timeout)))
  for f in formulas:
    s.add(f)
  want = want or []
  r = s.check()
  if r == z3.unsat:
    _count('unsat', 'z3-inproc', time.time() - t0)
    return 'unsat', None
  if r == z3.sat:
    m = s.model()
    try:
      md = {w.decl().name(): _val(m.eval(w, model_completion=True)) for w in want}
      _count('sat', 'z3-inproc', time.time() - t0)
      return 'sat', md
    except ValueError:
      pass
  left = timeout - (time.time() - t0)
  if left <= 0.2:
    _count('unknown', 'none', time.time() - t0)
    return 'unknown', None
  res, md, who = _portfolio(s, formulas, want, left)
  _count(res, who, time.time() - t0)
  return res, md


def _portfolio(s, formulas, want, timeout):
  base = s.to_smt2()
  base = base.replace('(check-sat)', '')
  names = ' '.join(w.sexpr() for w in want)
  getv = f'(get-value ({names}))' if want else ''
  procs = []
  tmpd = tempfile.mkdtemp(prefix='symq')
  nonint = not _has_int(formulas)
  cfgs = [('z3', [_Z3], '(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n',
           '(check-sat)')]
  if nonint:
    cfgs.append(('z3-nlsat', [_Z3],
                 '(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n',
                 '(check-sat-using (then simplify solve-eqs elim-term-ite tseitin-cnf-core qfnra-nlsat))'
                 if False else
                 '(check-sat-using (then simplify purify-arith solve-eqs qfnra-nlsat))'))
  cfgs.append(('cvc5', ['cvc5', '--nl-ext-tplanes'], '(set-logic ALL)\n(set-option :produce-models true)\n',
               '(check-sat)'))
  for who, cmd, pre, chk in cfgs:
    fn = os.path.join(tmpd, who + '.smt2')
    body = base
    if who == 'cvc5':
      body = re.sub(r'\(set-info[^\n]*\)\n', '', body)
      body = re.sub(r'\(set-logic[^)]*\)', '', body)
    with open(fn, 'w') as f:
      f.write(pre + body + '\n' + chk + '\n' + getv + '\n')
    out = open(fn + '.out', 'w')
    p = subprocess.Popen(cmd + [fn], stdout=out, stderr=subprocess.STDOUT)
    procs.append((who, p, fn + '.out'))
    out.close()
  end = time.time() + timeout
  ans = ('unknown', None, 'none')
  live = list(procs)
  delay = 0.005
  try:
    while live and time.time() < end and ans[0] == 'unknown':
      for it in list(live):
        who, p, of = it
        if p.poll() is None:
          continue
        live.remove(it)
        txt = open(of).read()
        lines = txt.strip().split('\n')
        first = lines[0].strip() if lines else ''
        if first == 'unsat':
          ans = ('unsat', None, who)
          break
        if first == 'sat':
          try:
            md = {}
            rest = '\n'.join(lines[1:])
            if want and '(error' in rest:
              continue
            if want:
              for nm, v in _parse_sexpr(rest)[0]:
                md[nm] = _num(v)
            ans = ('sat', md, who)
            break
          except Exception:
            continue
      time.sleep(delay)
      delay = min(delay * 1.5, 0.1)
  finally:
    for who, p, of in procs:
      if p.poll() is None:
        p.kill()
      p.wait()
    for f in os.listdir(tmpd):
      os.unlink(os.path.join(tmpd, f))
    os.rmdir(tmpd)
  return ans
