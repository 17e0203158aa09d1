#!/bin/bash
# seed_verify.sh ID...   : confirms planted bugs in /repo (applied, tried, and undone)
cd "$(dirname "$0")/.." || exit 2
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  copy=$(mktemp -d); cp "$d"/* "$copy"; rm -f "$copy"/patch.diff "$copy"/meta.json
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && timeout 300 bash "$copy/demo.sh" >/tmp/demo0.out 2>&1); a=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.out 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
  t=$(python3 -c "import json;print(len(json.load(open('/tmp/seed_o.json'))['failed']))")
  (cd /repo && timeout 300 bash "$copy/demo.sh" >/tmp/demo1.out 2>&1); c=$?
  checks="${CHECKS:-$prop}"
  res=""
  for p in $checks; do
    s=$(date +%s)
    timeout 900 ./check $p --quick >/tmp/seed_$id.$p.out 2>&1; r=$?
    res="$res $p:exit$r/$(grep -c ^VIOLATION /tmp/seed_$id.$p.out)v/$(( $(date +%s)-s ))s"
  done
  git -C /repo checkout -- .
  rm -r "$copy"
  echo "$id demo0=$a build=$b testfail=$t demo1=$c checks:$res"
  [ $a -ne 0 ] && tail -5 /tmp/demo0.out
  [ $c -eq 0 ] && echo "   !! demo does not fail with the patch"
done
bash /opt/vp/build.sh >/dev/null 2>&1
