#!/bin/bash
# seedcopy.sh ID [--notest] : in a scratch copy of /repo, applies
# seeded/ID/patch.diff, runs the demonstration with and without it, the stable
# tests and the check of the property. /repo itself is not touched.
id=$1; d=/verif/seeded/$id; W=/tmp/seedcopy_$id
rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 2
git checkout -q -- .
export PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg
mkdir $W.d; cp $d/* $W.d/
demo() { (cd $W; sed -i "s:/repo:$W:g" $W.d/demo.sh; timeout 300 bash $W.d/demo.sh) > /tmp/seedcopy_$id.demo$1 2>&1; }
demo 0; r0=$?
git apply $d/patch.diff || { echo "$id NO APPLY"; exit 2; }
if git diff --name-only | grep -q '^c/'; then P=$(/opt/venv/bin/python -c "import sysconfig,numpy;print(sysconfig.get_paths()[\"include\"],\"-I\"+numpy.get_include())"); gcc -O2 -fwrapv -fPIC -w -fopenmp -shared -I$P c/*.c -o euphonic/_euphonic*.so || echo BUILD FAILED; fi
demo 1; r1=$?
echo "$id demo clean=$r0 patched=$r1"
if [ "$2" != "--notest" ]; then
  T=$(mktemp -d)
  (cd $W/tests_and_analysis/test; MPLCONFIGDIR=$T/mpl PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=append -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --basetemp=$T/t --junitxml=$T/junit.xml . >/tmp/seedcopy_$id.tests 2>&1
   sed -i "s:$W:/repo:g" $T/junit.xml; /opt/venv/bin/python /opt/vp/results.py $T/o.json junit:$T/junit.xml >/dev/null
   /opt/venv/bin/python - $T/o.json $id <<'P'
import json, sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print(sys.argv[2], 'tests broken:', len(b-o), sorted(b-o)[:4])
P
  ); rm -rf "$T"
fi
p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; EUPHONIC_MC_REPO=$W VERIF_SEED=1 timeout 900 ./check $p > /tmp/seedcopy_$id.chk 2>&1; echo "$id check $p rc=$? $(grep -c '^VIOL' /tmp/seedcopy_$id.chk)"; grep -m1 -A1 '^  \[' /tmp/seedcopy_$id.chk | cut -c1-250
rm -rf "$W" "$W.d"
