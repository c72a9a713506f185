#!/bin/sh
# runseed.sh [id ...]: run each planted change's property check (quick) on a patched scratch copy of /repo
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for b in "$@"; do
  d=/tmp/rs/$b; rm -rf "$d"; mkdir -p /tmp/rs; cp -a /repo "$d"; git -C "$d" apply "$PWD/seeded/$b/patch.diff" || continue
  p=$(python3 -c "import json,sys;print(json.load(open('$PWD/seeded/$b/meta.json'))['property'])")
  s=$(date +%s); SYMX_REPO=$d ./check "$p" quick --no-evidence > /tmp/rs/$b.log 2>&1; r=$?; e=$(date +%s)
  echo "$b $p rc=$r $((e-s))s $(grep -m1 -E 'VIOLATION' /tmp/rs/$b.log)"
  rm -rf "$d"
done
