#!/bin/bash
# seed.sh ID [--notest] : records the edit currently in /repo's working tree as
# seeded/ID/patch.diff (or applies the recorded one), confirms demo and tests,
# runs the property's check against it and restores /repo.
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
if ! git diff --quiet; then git diff > $d/patch.diff; git checkout -q -- .; fi
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $d/demo.sh >/tmp/seed_demo0.txt 2>&1; r0=$?
git apply $d/patch.diff || { echo "NO APPLY"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILED"
timeout 300 bash $d/demo.sh >/tmp/seed_demo1.txt 2>&1; r1=$?
echo "$id demo clean=$r0 patched=$r1"
if [ "$2" != "--notest" ]; then
bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
/opt/venv/bin/python - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/seed_o.json'))['passed'])
print('tests broken:', sorted(b-o)[:5], len(b-o))
P
fi
p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; VERIF_SEED=1 timeout 900 ./check $p > /tmp/seed_chk.txt 2>&1; echo "check $p rc=$?"; grep -m2 -A1 "^VIOL" /tmp/seed_chk.txt | cut -c1-300
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; git status --short
