#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seedspecs.py (id, property, edits, demo, needs, breaks)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import seedspecs
only = sys.argv[1:]
for s in seedspecs.SEEDS:
  if only and s['id'] not in only:
    continue
  W = '/tmp/mkseed'
  shutil.rmtree(W, ignore_errors=True)
  shutil.copytree('/repo', W, symlinks=True)
  for f, old, new in s['edits']:
    p = os.path.join(W, 'jaxopt', '_src', f)
    t = open(p).read()
    assert t.count(old) == 1, (s['id'], f, t.count(old), old)
    open(p, 'w').write(t.replace(old, new))
  d = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
  D = os.path.join(ROOT, 'seeded', s['id'])
  os.makedirs(D, exist_ok=True)
  open(os.path.join(D, 'patch.diff'), 'w').write(d)
  open(os.path.join(D, 'demo.sh'), 'w').write(
      '#!/bin/bash\n# cwd: /repo\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  os.chmod(os.path.join(D, 'demo.sh'), 0o755)
  open(os.path.join(D, 'demo.py'), 'w').write(
      'import jax\njax.config.update("jax_enable_x64", True)\nimport jax.numpy as jnp\nimport numpy as np\nimport jaxopt\n'
      + s['demo'].strip('\n') + '\n')
  json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
            open(os.path.join(D, 'meta.json'), 'w'), indent=1)
  shutil.rmtree(W)
  print(s['id'])
