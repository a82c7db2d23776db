#!/bin/bash
# Runs every quick check: tools/all.sh [tier]
cd "$(dirname "$0")/.." || exit 2
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  out=$(/opt/venv/bin/python check.py "$p" --tier "${1:-quick}" 2>&1); rc=$?
  echo "$p rc=$rc $(tail -1 <<<"$out")"
done
