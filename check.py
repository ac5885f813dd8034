#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only NAME] [-j N]

Decides one property by symbolic execution of the jaxprs of the real code in
/repo.  Exit 0: held on everything explored; 1: VIOLATION lines; 2: no answer.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = os.path.join(HERE, 'out')


def worker(conn, prop):
  import symjax.env  # noqa
  from symjax import harness
  mod = importlib.import_module(f'props.{prop}')
  import jaxopt
  root = os.environ.get('VERIF_REPO', '/repo')
  assert os.path.realpath(jaxopt.__file__).startswith(os.path.realpath(root) + '/'), jaxopt.__file__
  cache = {}
  while True:
    msg = conn.recv()
    if msg is None:
      return
    tier, seed, name, cap = msg
    if tier not in cache:
      cache[tier] = {p.name: p for p in mod.problems(tier)}
      for p in cache[tier].values():
        p.dce = p.dce or getattr(mod, 'DCE', False)
    P = cache[tier][name]
    r = harness.solve_problem(P, tier, seed, deadline=time.time() + cap * 0.85)
    r['known'] = P.known
    r['required'] = P.required
    conn.send(r)


def names_worker(conn, prop, tier):
  import symjax.env  # noqa
  mod = importlib.import_module(f'props.{prop}')
  ps = mod.problems(tier)
  assert len({p.name for p in ps}) == len(ps), 'duplicate problem names'
  conn.send(([(p.name, p.cap) for p in ps], getattr(mod, 'ASSUMPTIONS', []),
             getattr(mod, 'FUNCTIONS', [])))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  ctx = mp.get_context('spawn')
  pc, cc = ctx.Pipe()
  p = ctx.Process(target=names_worker, args=(cc, a.prop, a.tier))
  p.start()
  cc.close()
  try:
    names, assumptions, functions = pc.recv()
  except EOFError:
    print(f'ERROR property={a.prop}: harness module failed to load')
    sys.exit(2)
  p.join()
  if a.only:
    names = [n for n in names if a.only in n[0]]
  total = 780.0 if a.tier == 'quick' else 3600.0 * 3
  defcap = 400.0 if a.tier == 'quick' else 3000.0
  todo = list(names)
  results = {}
  slots = []

  def spawn():
    c1, c2 = ctx.Pipe()
    q = ctx.Process(target=worker, args=(c2, a.prop))
    q.start()
    c2.close()
    return dict(p=q, c=c1, job=None, t=0, cap=0)

  def kill(s):
    import signal
    import subprocess
    pid = s['p'].pid
    try:
      kids = subprocess.run(['pgrep', '-P', str(pid)], capture_output=True, text=True).stdout.split()
    except Exception:
      kids = []
    s['p'].kill()
    for k in kids:
      try:
        os.kill(int(k), signal.SIGKILL)
      except OSError:
        pass

  for _ in range(min(a.j, len(todo))):
    slots.append(spawn())
  while todo or any(s['job'] for s in slots):
    for i, s in enumerate(slots):
      if s['job'] is None and todo:
        if time.time() - t0 > total:
          for n, _ in todo:
            results[n] = dict(problem=n, status='unknown', unknown=['total time budget'])
          todo = []
          break
        n, cap = todo.pop(0)
        cap = min(cap or defcap, max(20.0, total - (time.time() - t0)))
        s.update(job=n, t=time.time(), cap=cap)
        s['c'].send((a.tier, seed, n, cap))
      if s['job'] is not None:
        try:
          if s['c'].poll(0):
            r = s['c'].recv()
            results[s['job']] = r
            s['job'] = None
            if a.v:
              print(f"{r['problem']:45s} {r['status']:10s} {r.get('wall_s')}s paths={r.get('paths')} obl={r.get('obligations')} dis={r.get('discharged')} {r.get('unknown') or ''} {r.get('error','')}", flush=True)
              if r['status'] == 'error':
                print(r.get('trace', ''))
              if r['status'] == 'violation':
                print(json.dumps(r['violations'])[:1500])
          elif time.time() - s['t'] > s['cap'] or not s['p'].is_alive():
            why = 'time limit' if s['p'].is_alive() else 'worker died'
            kill(s)
            results[s['job']] = dict(problem=s['job'], status='unknown', unknown=[why])
            if a.v:
              print(s['job'], why, flush=True)
            slots[i] = spawn()
        except EOFError:
          results[s['job']] = dict(problem=s['job'], status='error', error='worker died')
          kill(s)
          slots[i] = spawn()
    time.sleep(0.02)
  for s in slots:
    try:
      s['c'].send(None)
    except OSError:
      pass
  for s in slots:
    s['p'].join(5)
    if s['p'].is_alive():
      kill(s)
  finish(a, names, results, assumptions, functions, seed, time.time() - t0)


def finish(a, names, results, assumptions, functions, seed, wall):
  kf = []
  kfp = os.path.join(HERE, 'known_findings.json')
  if os.path.exists(kfp):
    kf = [k for k in json.load(open(kfp))['findings'] if k['property'] == a.prop]
  os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
  viol, known, unk, err = [], [], [], []
  for n, _ in names:
    r = results[n]
    if r['status'] == 'violation':
      for v in r['violations']:
        k = [x for x in kf if x['problem'] == n and x['label'] in ('*', v['label'])]
        if k:
          known.append((k[0], n, v))
          continue
        path = os.path.join(OUT, 'replay', f"{a.prop}-{n}-{v['label']}.json".replace('/', '_').replace(' ', '_'))
        json.dump(dict(property=a.prop, problem=n, tier=a.tier, **v), open(path, 'w'), indent=1)
        viol.append((n, v['label'], path))
    elif r['status'] == 'unknown':
      (unk if r.get('required', True) else known if False else unk).append((n, r['unknown'], r.get('required', True)))
    elif r['status'] == 'error':
      err.append((n, r.get('error')))
  seen = set()
  for k, n, v in known:
    key = (k['problem'], k['label'], k['what'])
    if key not in seen:
      seen.add(key)
      print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
  for n, l, path in viol:
    print(f'VIOLATION property={a.prop} replay={path}')
    print(f'  problem {n}: {l}')
  for n, u, req in unk:
    print(f'{"INCONCLUSIVE" if req else "note: optional, undecided:"} {n}: {u}')
  for n, e in err:
    print(f'ERROR {n}: {e}')
  rs = [results[n] for n, _ in names]
  tot = lambda k: sum(r.get(k) or 0 for r in rs)
  prims = sorted(set(q for r in rs for q in r.get('primitives', [])))
  by = {}
  for r in rs:
    for k, v in (r.get('by') or {}).items():
      by[k] = by.get(k, 0) + v
  cov = dict(
      explanation=(
          'Each problem traces the public functions of /repo to a jaxpr in this run, '
          'executes it symbolically over real arithmetic and asks SMT solvers for an '
          'input within the bound that violates the claim; every path and obligation '
          'listed was decided unsat (or is reported).'),
      functions_encoded=functions,
      problems=[dict(name=r['problem'], bound=r.get('bound'), status=r['status'],
                     paths=r.get('paths'), cut_paths=r.get('cut'), obligations=r.get('obligations'),
                     discharged=r.get('discharged'), jaxpr_eqns=r.get('eqns'),
                     queries=r.get('queries'), solver_s=r.get('solver_s'),
                     concrete_validations=r.get('validated'),
                     covers=r.get('covers'), notes=r.get('notes'),
                     undecided=r.get('unknown')) for r in rs],
      obligations=tot('obligations'), discharged=tot('discharged'),
      discharged_up_to_tolerance=tot('tol_discharged'),
      paths=tot('paths'), paths_cut_by_bound=tot('cut'), queries=tot('queries'),
      solver_seconds=round(tot('solver_s'), 1), solver_by=by,
      jaxpr_equations=tot('eqns'), encoder_validations=tot('validated'),
      primitives=prims)
  ev = dict(property=a.prop, tier=a.tier, seed=seed, level='other', coverage=cov,
            assumptions=list(assumptions) + [
                'real arithmetic: rounding, overflow and the sign of zero are not modelled',
                'the bounds listed per problem; nothing is claimed outside them'],
            wall_s=round(wall, 1), violations=len(viol))
  if not a.only:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{a.prop}.json'), 'w'), indent=1)
  st = 'VIOLATED' if viol else ('PARTLY UNDECIDED' if err or [u for u in unk if u[2]] else 'HELD')
  print(f'{a.prop} [{a.tier}] {st}: {len(rs)} problems, {tot("paths")} paths, '
        f'{tot("obligations")} obligations, {tot("discharged")} discharged, '
        f'{tot("queries")} queries, solver {tot("solver_s"):.0f}s, wall {wall:.0f}s')
  # An undecided obligation is reported and recorded, but only a run that left
  # much of the property unexplored gives no answer.
  dead = [u for u in unk if u[2] and not results[u[0]].get('paths') and not results[u[0]].get('cut')]
  und = tot('obligations') - tot('discharged')
  if viol:
    sys.exit(1)
  sys.exit(2 if err or len(dead) > 0.3 * len(rs) or und > 0.3 * max(1, tot('obligations')) else 0)


if __name__ == '__main__':
  main()
