#!/bin/bash
# seedtest.sh [ID...]: run the check of each planted bug's property on a scratch copy of /repo with the bug in it
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] && L="$*" || L=$(ls seeded)
D=/tmp/seed/h
mkdir -p $D/verif
[ -d $D/repo ] && find $D/repo -depth -delete
git clone -q /repo $D/repo
[ -d $D/verif/harness ] && find $D/verif/harness -depth -delete
cp -a harness check.sh known_findings.txt $D/verif/
sed -i "s#\"/repo\"#\"$D/repo\"#" $D/verif/harness/Cargo.toml
for s in $L; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $D/repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  out=$(timeout 900 bash $D/verif/check.sh "$p" 2>&1); rc=$?
  git -C $D/repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 -E 'problem|VIOLATION|build failed' | cut -c1-150)"
done
