#!/bin/bash
# seedtest.sh ID [full] [nocheck]: confirms a planted bug in a scratch copy of /repo, then runs the property's check on it.
id=$1; S=/verif/seeded/$id; W=/tmp/seedtest_$id
rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 9
export HOME=/root JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 XLA_FLAGS=--xla_cpu_multi_thread_eigen=false PYTHONPATH=$W
D=/tmp/seeddemo_$id; rm -rf "$D"; mkdir "$D"; cp "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
bash "$D/demo.sh" >/tmp/seed_$id.clean 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W" "$D"; exit 9; }
bash "$D/demo.sh" >/tmp/seed_$id.bug 2>&1; b=$?
echo "$id demo clean=$a (want 0) bug=$b (want !=0)"
if [[ " $* " == *" full "* ]]; then
  /opt/venv/bin/python -m pytest -q --tb=no -n 8 -p no:cacheprovider --timeout=180 --timeout-method=thread --continue-on-collection-errors tests 2>&1 | grep -E "^FAILED|^ERROR|passed|failed" | tail -12
fi
for t in $TESTS; do /opt/venv/bin/python -m pytest -q --tb=no -n 8 -p no:cacheprovider --timeout=180 tests/$t 2>&1 | grep -E "^FAILED|^ERROR|passed|failed" | tail -12; done
if [[ " $* " != *" nocheck "* ]]; then
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif && cp -a evidence /tmp/ev_$id 2>/dev/null
  ( cd /verif; VERIF_REPO=$W VERIF_EVIDENCE=/tmp/ev_$id VERIF_TIER=quick timeout 900 ./check.py $p >/tmp/seed_$id.check 2>&1; echo "$id check $p exit=$?" ; grep -E "VIOLATION|HELD|INCONC" /tmp/seed_$id.check | cut -c1-200 | tail -4)
  rm -rf /tmp/ev_$id
fi
rm -rf "$W" "$D"
