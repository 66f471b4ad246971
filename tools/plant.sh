#!/bin/bash
# tools/plant.sh ID [notest] : judges a planted change in a private mount namespace over a copy of /repo (needs mount privileges):
# it must build, pass the stable tests, leave demo.sh failing (and passing without it). Prints one line per finding.
[ -n "$PLANT_IN" ] || exec env PLANT_IN=1 unshare -m "$0" "$@"
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/plant/$ID; DIR=seeded; [ -d "$V/planted/$ID" ] && DIR=planted
mkdir -p /tmp/plant; rm -rf "$W"; cp -a /repo "$W" || exit 9
mount --bind "$W" /repo || exit 9
cd /repo || exit 9
cp -a "$V/$DIR/$ID" "/tmp/plant/$ID.demo"; rm -f "/tmp/plant/$ID.demo"/*.diff "/tmp/plant/$ID.demo/meta.json"
s=$(date +%s); bash "/tmp/plant/$ID.demo/demo.sh" > "/tmp/plant/$ID.clean" 2>&1; echo "$ID demo on the unchanged tree: $? ($(( $(date +%s) - s )) s)"
git apply "$V/$DIR/$ID/patch.diff" || { echo "$ID DOES NOT APPLY"; exit 1; }
s=$(date +%s); bash "/tmp/plant/$ID.demo/demo.sh" > "/tmp/plant/$ID.out" 2>&1; echo "$ID demo with the change: $? ($(( $(date +%s) - s )) s)"
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh "/tmp/plant/$ID.json" > "/tmp/plant/$ID.log" 2>&1
  python3 - "/tmp/plant/$ID.json" "$ID" <<'P'
import json, sys
o = json.load(open(sys.argv[1])); s = json.load(open("/opt/vp/BASELINE.json"))["stable"]
miss = [t for t in s if t not in o["passed"]]
print(sys.argv[2], "stable tests failing:", len(miss), miss[:4])
P
fi
cd /; umount -l /repo; rm -rf "/tmp/plant/$ID.demo"
