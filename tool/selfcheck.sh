#!/bin/bash
# Runs every claimed check on the unchanged tree and shows those that alarm, fail or leave obligations undecided.
cd "$(dirname "$0")/.." || exit 1
out=$(mktemp -d)
for c in $(python3 -c "import json;[print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]"); do
  (python3 checks/run.py "$c" > "$out/$c" 2>&1; echo "rc=$?" >> "$out/$c") &
  while [ "$(jobs -r | wc -l)" -ge 5 ]; do sleep 0.3; done
done
wait
for f in "$out"/*; do
  grep -q "^rc=0" "$f" && head -1 "$f" | grep -q " 0 undecided" || { echo "$(basename "$f"):"; cut -c1-200 "$f" | head -8; }
done
cat "$out"/* | grep -c "^rc=0"
rm -r "$out"
