#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds what the property needs from /repo's working tree and searches for a violation.
cd "$(dirname "$0")" || exit 3
id=$1; tier=${VERIF_TIER:-quick}; [ -n "${2:-}" ] && tier=$2; seed=${VERIF_SEED:-1}
apps=$(awk -v p="$id" '$1==p{for(i=2;i<=NF;i++) printf "%s ",$i}' tools/apps.txt)
[ -n "$apps" ] || { echo "unknown property $id" >&2; exit 3; }
if [ "$tier" = thorough ]; then wall=${DST_WALL:-780}; min=90; else wall=${DST_WALL:-45}; min=25; fi
mkdir -p evidence build/replays
rm -f "evidence/$id.json"
python3 tools/build.py $apps 2>build/build-$id.log || { tail -40 build/build-$id.log >&2; echo "check: the build failed" >&2; exit 3; }
exec build/dst run --prop "$id" --seed "$seed" --tier "$tier" --wall "$wall" --min "$min" --out "$PWD/build/replays" --evidence "evidence/$id.json"
