#!/bin/bash
# Developer tool: validate a planted bug.  seed.sh ID [check runs]   (works on a scratch copy of /repo)
#   seed.sh new ID  : turn the uncommitted diff of the scratch copy /tmp/w/repo into seeded/ID/patch.diff
set -u
V=/verif
if [ "$1" = new ]; then mkdir -p $V/seeded/$2; git -C /tmp/w/repo diff > $V/seeded/$2/patch.diff; git -C /tmp/w/repo checkout -q -- .; exit; fi
ID=$1; P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
W=/tmp/w/seed.$ID; rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a $V/seeded/$ID "$W/demo"; rm -f "$W"/demo/{*.diff,meta.json}
cd "$W/repo"; export PYTHONDONTWRITEBYTECODE=1
timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1; r0=$?
git apply --check $V/seeded/$ID/patch.diff && git apply $V/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1; r1=$?
t=skipped
if [ -z "${NOTEST:-}" ]; then
  PYTHONPATH=$W/repo/src HOME=/root LC_ALL=C.UTF-8 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --dist loadfile --timeout=300 -o addopts="-rsx" -o junit_family=xunit2 --junitxml="$W/junit.xml" --pyargs cwl_utils.tests >"$W/t" 2>&1
  t=$(tail -1 "$W/t")
fi
[ $r0 = 0 ] || { echo "demo fails on clean tree:"; tail -5 "$W/d0"; }
[ $r1 != 0 ] || { echo "demo passes with patch"; }
tail -1 "$W/d1" | cut -c1-200
c=$(SIM_REPO_SRC=$W/repo/src VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash $V/run.sh check ${2:-$P} 2>&1 | grep -E "VIOLATION|KNOWN|error|quiet|runs" | head -3 | cut -c1-300)
echo "== $ID ($P): demo clean=$r0 patched=$r1 tests: $t"; echo "$c"
rm -rf "$W"
