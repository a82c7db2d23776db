#!/bin/bash
# Runs the quick check of its property against every planted bug (or those
# named), each in a scratch copy of /repo: tools/seeds.sh [id...]
cd "$(dirname "$0")/.." || exit 2
rm -rf /tmp/seedrepo
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  cp -a /repo /tmp/seedrepo
  if ! git -C /tmp/seedrepo apply "$PWD/seeded/$d/patch.diff" 2>/dev/null; then
    echo "$d DOES-NOT-APPLY"; rm -rf /tmp/seedrepo; continue; fi
  out=$(SYMX_REPO=/tmp/seedrepo /opt/venv/bin/python check.py "$p" --tier quick 2>&1); rc=$?
  rm -rf /tmp/seedrepo
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then r=caught; else r=MISSED; fi
  echo "$d $p rc=$rc $r $(tail -1 <<<"$out" | grep -o 'wall=.*')"
done
