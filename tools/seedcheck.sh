#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: runs the check of the bug's property (or of others) against a scratch copy of /repo with the bug
id=$1; shift; d=/verif/seeded/$id
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
R=$(mktemp -d /tmp/sc.XXXX); cp -a /repo/app /repo/src /repo/include /repo/ext /repo/CMakeLists.txt "$R" 2>/dev/null
(cd "$R" && git init -q . && git apply "$d/patch.diff") || { echo "$id: does not apply"; rm -rf "$R"; exit 1; }
export HIBP_REPO=$R DST_BUILD=$R/_b
for q in $p; do
  apps=$(awk -v p="$q" '$1==p{for(i=2;i<=NF;i++) printf "%s ",$i}' /verif/tools/apps.txt)
  python3 /verif/tools/build.py $apps >$R/log 2>&1 || { echo "$id $q: build failed"; tail -5 $R/log; continue; }
  t0=$(date +%s); "$R/_b/dst" run --prop "$q" --seed "${SEED:-1}" --wall "${WALL:-45}" --min "${MIN:-5}" --out "$R" >$R/out 2>&1; rc=$?
  echo "$id $q: rc=$rc $(( $(date +%s) - t0 ))s $(grep -A1 '^violation class' $R/out | tr '\n' ' ' | cut -c1-${W:-260})"
  [ $rc -gt 1 ] && tail -5 $R/out
done
rm -rf "$R"
