#!/bin/bash
# seedcheck.sh ID... : for each /verif/seeded/ID, in a scratch copy of /repo: the patch applies, the demo passes without and
# fails with it, the stable tests still pass with it, and whether the property's quick check reports it.
# Set SKIPTESTS=1 to leave the test suite out.
cd /tmp || exit 1
for id in "$@"; do
  d=${SEEDDIR:-/verif/seeded}/$id
  s=$(mktemp -d /tmp/seed.XXXXXX)
  git -C /repo archive HEAD | tar x -C "$s"
  prop=$(jq -r .property "$d/meta.json")
  export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
  (cd "$s" && timeout 300 bash "$d/demo.sh" >/dev/null 2>&1); a=$?
  (cd "$s" && git init -q . && git apply --check "$d/patch.diff" && git apply "$d/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$s"; continue; }
  (cd "$s" && timeout 300 bash "$d/demo.sh" >/dev/null 2>&1); b=$?
  t=skipped
  if [ -z "$SKIPTESTS" ]; then
    run() { local n=$1 l=$2; shift 2; (cd "$s" && timeout -k 10 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 3 --timeout="$l" --continue-on-collection-errors --tb=line --show-capture=no -W ignore -o junit_family=xunit2 -o junit_logging=no --junitxml="$s/r-$n.xml" "$@" >/dev/null 2>&1 </dev/null); }
    run default 100 -m "not slow" tests &
    run slow 300 --runslow -m slow tests/test_conjectures_signed.py tests/test_conjectures_operators.py tests/test_conjectures_fpf.py tests/test_crystals.py tests/test_symmetric.py &
    wait
    /usr/bin/python3 /opt/vp/results.py "$s/out.json" "junit:$s/r-*.xml"
    t=$(python3 - "$s/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-o); print('ok' if not m else 'BROKEN:%d %s'%(len(m),m[:3]))
P
)
  fi
  out=$(VERIF_REPO=$s VERIF_BUILD=$s/build VERIF_EVIDENCE=$s/ev ${CHECKDIR:-/verif}/harness/check.sh "$prop" quick 2>&1); c=$?
  v=$(echo "$out" | grep -c "^VIOLATION property=$prop")
  echo "$id [$prop]: demo $a/$b tests $t check rc=$c viol=$v $(echo "$out" | grep 'rejected events' | cut -c1-160)"
  rm -rf "$s"
done
