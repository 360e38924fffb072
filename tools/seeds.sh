#!/bin/bash
# seeds.sh [id...]: apply each planted bug to a scratch copy of /repo, run its
# property's quick check against that copy.
cd /verif || exit 2
. /opt/vp/env.sh
src=/tmp/seedsrc.$$
trap 'rm -rf "$src"' EXIT
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf "$src"; cp -a /repo "$src"
  git -C "$src" apply /verif/seeded/$d/patch.diff || { echo "$d APPLY"; continue; }
  t=$(date +%s)
  out=$(SIM_SRC=$src ./run.sh ${CHECK:-$p} quick 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s)-t ))s $(grep -c '^VIOLATION' <<<"$out") $(grep -m1 -B0 'minimised' <<<"$out") | $(grep -vE '^(property|VIOL|  seed|note|C[0-9]+:)' <<<"$out" | head -1 | cut -c1-150)"
  [ $rc = 1 ] || echo "$out" | sed 's/^/      /' | cut -c1-600
done
